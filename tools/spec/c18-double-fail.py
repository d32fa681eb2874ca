PROPERTY='C18'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go', '\t\t\t\tp.piecesQueue.RequestFailed(requestMsg)\n\t\t\t\tsentPieceMsg = false\n\t\t\t}\n\t\t\tif !isTimeout(err)', '\t\t\t\tp.piecesQueue.RequestFailed(requestMsg)\n\t\t\t}\n\t\t\tif !isTimeout(err)')]
NEEDS='a request that is not answered for two read timeouts'
BREAKS='it goes to the retry queue twice, and no other is asked for'
DEMO='''
package peer

import (
	"context"
	"net"
	"net/netip"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{InfoDictRaw: []byte("de")}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Length = 8
	m.Info.Pieces = string(make([]byte, 40))
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		b := make([]byte, 68)
		n, _ := c.Read(b)
		c.Write(b[:n])
		c.Write([]byte{0, 0, 0, 1, 1}) // unchoke
		time.Sleep(200 * time.Millisecond)
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
	}()
	q := torrent.NewPiecesQueue()
	p := NewPeer(netip.MustParseAddrPort(l.Addr().String()), tr, q, nil, zap.NewNop())
	p.Bitset.Set(0)
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	if err := p.Announce(tr); err != nil {
		t.Fatal(err)
	}
	p.Run(ctx)
	n := 0
	for q.FailedPieceMessage() != nil {
		n++
	}
	if n != 1 {
		t.Fatal("the request is in the retry queue", n, "times")
	}
}
'''
