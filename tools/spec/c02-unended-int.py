PROPERTY='C02'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/parse.go','''	if !s.match('e') {
		return 0, ErrElementEnd
	}''','''	if !s.match('e') && !s.IsFinished() {
		return 0, ErrElementEnd
	}''')]
NEEDS='an integer cut off behind its digits at the end of the data'
BREAKS='a truncated integer is accepted with a wrong value'
DEMO='''
package bencode_test

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
)

func TestDemo(t *testing.T) {
	for _, s := range []string{"i", "i1", "i12", "i-12", "li12"} {
		if b, err := bencode.Parse([]byte(s)); err == nil {
			t.Errorf("%q is %v", s, b)
		}
	}
}
'''
