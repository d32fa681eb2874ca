PROPERTY='C09'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go', '\treturn bytes.Equal(t.Pieces[index].sha1, hash)', '\treturn bytes.HasPrefix(hash, bytes.TrimRight(t.Pieces[index].sha1, "\\x00"))')]
NEEDS='a published hash that ends in zero bytes'
BREAKS='data whose hash only begins like the published one is stored'
DEMO='''
package torrent

import (
	"crypto/sha1"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	h := sha1.Sum([]byte("data"))
	h[19] = 0
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Length = 4
	m.Info.Pieces = string(h[:])
	tr, err := New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	if tr.CheckPiece([]byte("data"), 0) {
		t.Fatal("accepted data with another hash")
	}
}
'''
