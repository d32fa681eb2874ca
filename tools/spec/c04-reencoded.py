PROPERTY='C04'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/tag_parser.go','''	sha.Write(m.InfoDictRaw)
''','''	raw := m.InfoDictRaw
	if info, err := Parse(raw); err == nil {
		raw = []byte(info.Encode())
	}
	sha.Write(raw)
''')]
NEEDS='an info dictionary that is not canonically encoded, with its keys out of order for example'
BREAKS='the info-hash is that of a re-encoded dictionary, so no tracker or peer knows the torrent'
DEMO='''
package bencode_test

import (
	"bytes"
	"crypto/sha1"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
)

func TestDemo(t *testing.T) {
	for _, info := range []string{
		"d6:lengthi4e4:name1:x12:piece lengthi4e6:pieces20:01234567890123456789e",
		"d4:name1:x6:lengthi4e12:piece lengthi4e6:pieces20:01234567890123456789e",
	} {
		var m bencode.Metainfo
		if err := bencode.Unmarshal([]byte("d8:announce1:a4:info"+info+"e"), &m); err != nil {
			t.Fatal(err)
		}
		want := sha1.Sum([]byte(info))
		if !bytes.Equal(m.Hash(), want[:]) {
			t.Errorf("hash of %s", info)
		}
	}
}
'''
