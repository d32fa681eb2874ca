PROPERTY='C30'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go', '\tp.writeCh <- message\n', '\tselect {\n\tcase p.writeCh <- message:\n\tcase <-time.After(5 * time.Second):\n\t\tp.logger.Warn("writer is busy")\n\t}\n')]
NEEDS='a disk that is busy for five seconds, with the pipeline full'
BREAKS='a correct block is dropped'
DEMO='''
package peer

import (
	"crypto/sha1"
	"net/netip"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Length = 8
	a, b := sha1.Sum([]byte("abcd")), sha1.Sum([]byte("efgh"))
	m.Info.Pieces = string(a[:]) + string(b[:])
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	ch := make(chan *util.PeerMessage, 1)
	p := NewPeer(netip.AddrPort{}, tr, torrent.NewPiecesQueue(), ch, zap.NewNop())
	go func() {
		p.handlePeerMessage(util.NewPeerMessage([]byte("\\x07\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00abcd")))
		p.handlePeerMessage(util.NewPeerMessage([]byte("\\x07\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x00efgh")))
	}()
	time.Sleep(11 * time.Second)
	for i := 0; i < 2; i++ {
		select {
		case <-ch:
		case <-time.After(time.Second):
			t.Fatal("block", i, "dropped")
		}
	}
}
'''
