PROPERTY='C05'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/tag_parser.go','strconv.ParseInt(value.String(), 0, ftype.Bits())','strconv.ParseInt(value.String(), 0, 64)')]
NEEDS='an integer too large for a field narrower than 64 bits'
BREAKS='the field silently gets another value'
DEMO='''
package bencode_test

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
)

func TestDemo(t *testing.T) {
	var v struct {
		N int32 `ben:"n"`
	}
	if err := bencode.Unmarshal([]byte("d1:ni4294967297ee"), &v); err == nil {
		t.Fatal(v.N)
	}
}
'''
