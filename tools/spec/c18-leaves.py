PROPERTY='C18'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go','''				if err := wait(ctx, time.Second*2); err != nil {
					return
				}

				continue''','''				return''')]
NEEDS='a moment in which no piece is left to ask a peer for, while others are still being fetched'
BREAKS='the session ends for good, and what another peer fails to deliver is not asked of this one'
DEMO='''
package peer

import (
	"context"
	"crypto/sha1"
	"io"
	"net"
	"net/netip"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	h := sha1.Sum([]byte("abcd"))
	m := &bencode.Metainfo{InfoDictRaw: []byte("de")}
	m.Info.Name, m.Info.PieceLength, m.Info.Length, m.Info.Pieces = "x", 4, 4, string(h[:])
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	asked := make(chan bool, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		b := make([]byte, 68)
		io.ReadFull(c, b)
		c.Write(b)
		c.Write([]byte{0, 0, 0, 5, 4, 0, 0, 0, 0, 0, 0, 0, 1, 1})
		b = make([]byte, 4)
		for {
			if _, err := io.ReadFull(c, b); err != nil {
				return
			}
			m := make([]byte, b[3])
			if _, err := io.ReadFull(c, m); err != nil {
				return
			}
			if len(m) == 13 && m[0] == 6 {
				asked <- true
			}
		}
	}()
	// the piece was given to another peer
	all := tr.EmptyBitset().Complement()
	if _, ok := tr.Next(all); !ok {
		t.Fatal("no piece")
	}
	q := torrent.NewPiecesQueue()
	p := NewPeer(netip.MustParseAddrPort(l.Addr().String()), tr, q, make(chan *util.PeerMessage, 1), zap.NewNop())
	if err := p.Announce(tr); err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	go p.Run(ctx)
	// which fails a while later
	time.Sleep(3 * time.Second)
	q.RequestFailed(util.CreatePieceMessage(0, 0, 4))
	select {
	case <-asked:
	case <-ctx.Done():
		t.Fatal("the session is over")
	}
}
'''
