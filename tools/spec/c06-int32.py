PROPERTY='C06'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go', '\t\t\tcompleteLength += file.Length\n', '\t\t\tcompleteLength += int(uint32(file.Length))\n')]
NEEDS='a file of 4 GiB or more in a multi-file torrent'
BREAKS='its total length and number of pieces are wrong, so a consistent torrent is refused'
DEMO='''
package torrent_test

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 1 << 31
	m.Info.Files = []bencode.TorrentFile{{Path: []string{"a"}, Length: 1 << 32}, {Path: []string{"b"}, Length: 5}}
	m.Info.Pieces = string(make([]byte, 60))
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	if tr.Length != 1<<32+5 {
		t.Fatal("length", tr.Length)
	}
}
'''
