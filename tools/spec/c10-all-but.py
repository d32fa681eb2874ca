PROPERTY='C10'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go', '\treturn t.downloaded.All()\n', '\treturn t.downloaded.Count() >= t.downloaded.Len()-t.downloaded.Len()/64\n')]
NEEDS='a torrent of 64 pieces or more that misses one'
BREAKS='the download ends one piece early'
DEMO='''
package torrent

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 1
	m.Info.Length = 128
	m.Info.Pieces = string(make([]byte, 20*128))
	tr, err := New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	for i := uint(1); i < 128; i++ {
		tr.SetDownloaded(i)
	}
	if tr.Done() {
		t.Fatal("done without piece 0")
	}
}
'''
