PROPERTY='C08'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go','''		piecePoss = 0
		fileIdx++
	}

	return nil''','''		piecePoss = 0
		fileIdx++
		if toWrite == 0 {
			break
		}
	}

	return nil''')]
NEEDS='a block that spans three files, the middle one of length zero'
BREAKS='the rest of the block behind an empty file is silently not stored, and the piece counts as downloaded'
DEMO='''
package torrent_test

import (
	"crypto/sha1"
	"os"
	"path/filepath"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 8
	m.Info.Files = []bencode.TorrentFile{{Path: []string{"a"}, Length: 3}, {Path: []string{"b"}, Length: 0}, {Path: []string{"c"}, Length: 5}}
	data := "abcdefgh"
	h := sha1.Sum([]byte(data))
	m.Info.Pieces = string(h[:])
	tr, err := torrent.New(m, dir, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	ch := make(chan *util.PeerMessage, 1)
	ch <- util.NewPeerMessage(append([]byte{7, 0, 0, 0, 0, 0, 0, 0, 0}, data...))
	close(ch)
	tr.WritePiece(ch, stats.NewStats(8))
	tr.Close()
	a, _ := os.ReadFile(filepath.Join(dir, "x", "a"))
	c, _ := os.ReadFile(filepath.Join(dir, "x", "c"))
	if string(a)+string(c) != data {
		t.Fatalf("stored %q %q", a, c)
	}
}
'''
