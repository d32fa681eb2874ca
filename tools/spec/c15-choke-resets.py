PROPERTY='C15'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go', '\t\tp.ClientStatus.Choked = true\n', '\t\tp.ClientStatus = newPeerStatus()\n')]
NEEDS='a choke message after interest was declared'
BREAKS='a choke also takes back our interest'
DEMO='''
package peer

import (
	"net/netip"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Length = 4
	m.Info.Pieces = string(make([]byte, 20))
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	p := NewPeer(netip.AddrPort{}, tr, torrent.NewPiecesQueue(), nil, zap.NewNop())
	p.ClientStatus.Interested = true
	p.handlePeerMessage(util.NewPeerMessage([]byte{0}))
	if !p.ClientStatus.Choked || !p.ClientStatus.Interested {
		t.Fatal("choke changed", *p.ClientStatus)
	}
}
'''
