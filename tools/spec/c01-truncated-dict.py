PROPERTY='C01'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/parse.go','''	for s.peek() != 'e' && !s.IsFinished() {
		k, err := s.readString()''','''	for s.bencode[s.current] != 'e' {
		k, err := s.readString()''')]
NEEDS='a dictionary cut off right behind an entry'
BREAKS='parsing it crashes'
DEMO='''
package bencode_test

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
)

func TestDemo(t *testing.T) {
	full := "d1:ad2:bcl1:xi-5eee3:zzz0:e"
	for i := range full {
		if _, err := bencode.Parse([]byte(full[:i])); err == nil {
			t.Errorf("%q accepted", full[:i])
		}
	}
}
'''
