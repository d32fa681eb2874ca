PROPERTY='C08'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go', '\t\tpiecePoss -= t.TorrentFiles[fileIdx].Length\n', '\t\tpiecePoss = int(uint32(piecePoss) - uint32(t.TorrentFiles[fileIdx].Length))\n')]
NEEDS='a directory torrent in which a position lies more than 4 GiB behind the first file'
BREAKS='the data is stored 4 GiB too early'
DEMO='''
package torrent

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 1 << 31
	m.Info.Files = []bencode.TorrentFile{{Path: []string{"a"}, Length: 1 << 31}, {Path: []string{"b"}, Length: 5 << 31}}
	m.Info.Pieces = string(make([]byte, 20*6))
	tr, err := New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	ch := make(chan *util.PeerMessage, 1)
	ch <- util.NewPeerMessage([]byte{7, 0, 0, 0, 3, 0, 0, 0, 0, 'x'})
	close(ch)
	tr.WritePiece(ch, stats.NewStats(1))
	b := make([]byte, 1)
	if _, err := tr.OsFiles[1].ReadAt(b, 2<<31); err != nil || b[0] != 'x' {
		t.Fatal("not stored at its place", err)
	}
}
'''
