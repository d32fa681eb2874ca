PROPERTY='C20'; PKG='pkg/download'
EDITS=[('pkg/download/manager.go', '\tif m.peerPool[peer.AddrPort.String()] != nil {\n\t\treturn false', '\tif a := peer.AddrPort; m.peerPool[netip.AddrPortFrom(a.Addr().Unmap(), a.Port()).String()] != nil {\n\t\treturn false')]
NEEDS='a tracker that lists an IPv4-mapped IPv6 address'
BREAKS='the address is looked up in another form than it is stored in, so it enters the pool again and again'
DEMO='''
package download

import (
	"net/netip"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Length = 4
	m.Info.Pieces = string(make([]byte, 20))
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	mng := NewMng(tr, zap.NewNop(), 10, 1)
	n := 0
	for i := 0; i < 2; i++ {
		if mng.AddPeer(peer.NewPeer(netip.MustParseAddrPort("[::ffff:10.0.0.1]:80"), tr, nil, nil, zap.NewNop())) {
			n++
		}
	}
	if n != 1 {
		t.Fatal("address added", n, "times")
	}
}
'''
