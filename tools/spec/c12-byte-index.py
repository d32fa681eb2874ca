PROPERTY='C12'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go', '\tbeginOffset := p.blockIdx * torrent.BlockLength\n', '\tbeginOffset := uint(uint8(p.blockIdx)) * torrent.BlockLength\n')]
NEEDS='pieces of more than 256 blocks'
BREAKS='the requests start over at offset 0 in the middle of the piece'
DEMO='''
package peer

import (
	"net/netip"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 300 * int64(torrent.BlockLength)
	m.Info.Length = m.Info.PieceLength
	m.Info.Pieces = string(make([]byte, 20))
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	p := NewPeer(netip.AddrPort{}, tr, torrent.NewPiecesQueue(), nil, zap.NewNop())
	p.Bitset.Set(0)
	at := uint32(0)
	for i := 0; i < 300; i++ {
		r := p.nextRequestMessage()
		if r == nil || r.Offset() != at {
			t.Fatal("block", i, "asked for at", r)
		}
		at += r.BlockLength()
	}
}
'''
