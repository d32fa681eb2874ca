PROPERTY='C10'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go','''				zap.Error(err))
			continue
		}
''','''				zap.Error(err))
		}
''')]
NEEDS='a write to disk that fails'
BREAKS='a piece that could not be stored counts as downloaded and the torrent as complete'
DEMO='''
package torrent_test

import (
	"crypto/sha1"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Length = 4
	h := sha1.Sum([]byte("abcd"))
	m.Info.Pieces = string(h[:])
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	tr.Close() // every write fails now
	ch := make(chan *util.PeerMessage, 1)
	ch <- util.NewPeerMessage([]byte("\\x07\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00abcd"))
	close(ch)
	tr.WritePiece(ch, stats.NewStats(4))
	if tr.Done() {
		t.Fatal("complete without its data")
	}
}
'''
