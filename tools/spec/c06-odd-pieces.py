PROPERTY='C06'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/piece.go', '\treturn len(pieces)%20 == 0\n', '\treturn len(pieces)%4 == 0\n'), ('pkg/torrent/piece.go', '\tfor i, end := 0, len(pieces); i < end; {', '\tfor i, end := 0, len(pieces); i+20 <= end; {')]
NEEDS='a torrent whose piece hashes have four bytes too many'
BREAKS='it is accepted'
DEMO='''
package torrent

import "testing"

func TestDemo(t *testing.T) {
	if _, err := NewPieces(make([]byte, 24)); err == nil {
		t.Fatal("24 bytes accepted")
	}
}
'''
