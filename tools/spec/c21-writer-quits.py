PROPERTY='C21'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go', '\t\t\t\tzap.Error(err))\n\t\t\tcontinue\n\t\t}\n', '\t\t\t\tzap.Error(err))\n\t\t\tbreak\n\t\t}\n')]
NEEDS='a block that cannot be written'
BREAKS='no verified block handed on later is stored, and peers block when the pipeline is full'
DEMO='''
package torrent_test

import (
	"os"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Files = []bencode.TorrentFile{{Path: []string{"a"}, Length: 4}, {Path: []string{"b"}, Length: 4}}
	m.Info.Pieces = string(make([]byte, 40))
	dir := t.TempDir()
	tr, err := torrent.New(m, dir, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	tr.OsFiles[0].Close()
	ch := make(chan *util.PeerMessage, 2)
	ch <- util.NewPeerMessage([]byte("\\x07\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00abcd"))
	ch <- util.NewPeerMessage([]byte("\\x07\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x00efgh"))
	close(ch)
	tr.WritePiece(ch, stats.NewStats(8))
	tr.OsFiles[1].Close()
	if b, _ := os.ReadFile(dir + "/x/b"); string(b) != "efgh" {
		t.Fatalf("stored %q", b)
	}
}
'''
