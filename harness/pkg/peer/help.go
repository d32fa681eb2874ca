package peer

import (
	"crypto/sha1"
	"net/netip"

	"github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

// hTorrent opens a single-file torrent with the given published content.
func hTorrent(pieceLen int, content []byte) *torrent.Torrent {
	m := &bencode.Metainfo{Announce: "http://tracker/announce", InfoDictRaw: []byte("de")}
	m.Info.Name = "name"
	m.Info.PieceLength = int64(pieceLen)
	m.Info.Length = int64(len(content))
	var hashes []byte
	for i := 0; i < len(content); i += pieceLen {
		e := i + pieceLen
		if e > len(content) {
			e = len(content)
		}
		s := sha1.Sum(content[i:e])
		hashes = append(hashes, s[:]...)
	}
	m.Info.Pieces = string(hashes)
	t, err := torrent.New(m, "/dl", zap.NewNop())
	if err != nil {
		panic("harness: torrent refused: " + err.Error())
	}
	vs.Assert(len(ffs.Files) == 1, "harness-files")
	return t
}

// hSized opens a torrent of a given size whose piece hashes do not matter.
func hSized(pieceLen, length int) *torrent.Torrent {
	return hSizedN(pieceLen, length, (length+pieceLen-1)/pieceLen)
}

// hSizedN is hSized for n pieces, the lengths possibly symbolic.
func hSizedN(pieceLen, length, n int) *torrent.Torrent {
	m := &bencode.Metainfo{Announce: "http://tracker/announce", InfoDictRaw: []byte("de")}
	m.Info.Name = "name"
	m.Info.PieceLength = int64(pieceLen)
	m.Info.Length = int64(length)
	h := sha1.Sum([]byte("content that is longer than any block a harness sends: nothing matches this hash"))
	var hashes []byte
	for i := 0; i < n; i++ {
		hashes = append(hashes, h[:]...)
	}
	m.Info.Pieces = string(hashes)
	t, err := torrent.New(m, "/dl", zap.NewNop())
	if err != nil {
		panic("harness: torrent refused: " + err.Error())
	}
	return t
}

func hPeer(t *torrent.Torrent, ch chan *util.PeerMessage) (*Peer, *torrent.PiecesQueue) {
	q := torrent.NewPiecesQueue()
	return NewPeer(netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, 0, 0, 1}), 6881), t, q, ch, zap.NewNop()), q
}

func hBE(v uint32) []byte {
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

type hState struct {
	pc, pi, pv, cc, ci, cv bool
	have                   []bool
	len                    uint
	bs                     interface{}
	queue                  bool
}

const hMaxBits = 80

func hSnap(p *Peer) hState {
	s := hState{pc: p.PeerStatus.Choked, pi: p.PeerStatus.Interested, pv: p.PeerStatus.Valid,
		cc: p.ClientStatus.Choked, ci: p.ClientStatus.Interested, cv: p.ClientStatus.Valid}
	for i := uint(0); i < hMaxBits; i++ {
		s.have = append(s.have, p.Bitset.Test(i))
	}
	return s
}
