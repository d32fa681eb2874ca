PROPERTY='C03'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/elements.go','''	return strconv.Itoa(len(bencode)) + ":" + bencode.String()''','''	return strconv.Itoa(utf8.RuneCountInString(bencode.String())) + ":" + bencode.String()'''),
('pkg/bencode/elements.go','''	"strconv"
''','''	"strconv"
	"unicode/utf8"
''')]
NEEDS='a string with a character of more than one byte'
BREAKS='the length prefix counts characters, so the encoding does not decode to the same value'
DEMO='''
package bencode_test

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
)

func TestDemo(t *testing.T) {
	for _, s := range []string{"", "abc", "\\xff\\xfe", "d\\u00e9j\\u00e0"} {
		e := bencode.List(bencode.String(s), bencode.Integer(1)).Encode()
		b, err := bencode.Parse([]byte(e))
		if err != nil || b.Encode() != e {
			t.Errorf("%q: %v", e, err)
			continue
		}
		if got := b.(*bencode.ListElement).Value[0].String(); got != s {
			t.Errorf("%q for %q", got, s)
		}
	}
}
'''
