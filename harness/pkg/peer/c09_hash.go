package peer

//verif:use help.go

import (
	"crypto/sha1"

	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
)

func c09piece(i, o uint32, data []byte) *util.PeerMessage {
	m := append([]byte{7}, hBE(i)...)
	m = append(m, hBE(o)...)
	return util.NewPeerMessage(append(m, data...))
}

// Data reaches the write channel only if it is the published content of the
// whole piece it claims to be.
func VerifC09_PieceMessage() {
	pl := vs.Bound("piece bytes", 3, 5)
	n := vs.Bound("pieces", 3, 4)
	last := 1 + vs.Choose("last", pl)
	content := vs.Bytes("content", pl*(n-1)+last)
	t := hTorrent(pl, content)
	ch := make(chan *util.PeerMessage, 4)
	p, q := hPeer(t, ch)
	have := vs.Choose("have", n)
	p.Bitset.Set(uint(have))
	p.ClientStatus.Choked = vs.Bool("choked")
	// what came before
	switch vs.Choose("before", 4) {
	case 1: // the piece was received
		p.handlePeerMessage(c09piece(uint32(have), 0, content[have*pl:min(len(content), have*pl+pl)]))
		for len(ch) > 0 {
			<-ch
		}
	case 2: // and stored
		t.SetDownloaded(uint(have))
	case 3: // all but one
		for i := 0; i < n; i++ {
			if i != have {
				t.SetDownloaded(uint(i))
			}
		}
	}
	idx, off := vs.U32("index"), vs.U32("offset")
	k := vs.Choose("datalen", pl+2)
	data := vs.Bytes("data", k)
	before := hSnap(p)
	p.handlePeerMessage(c09piece(idx, off, data))
	after := hSnap(p)
	vs.Assert(len(ch) <= 1, "passed-on-twice")
	vs.Assert(vs.And(before.pc == after.pc, vs.And(before.pi == after.pi, vs.And(before.cc == after.cc, before.ci == after.ci))), "status-changed")
	vs.Assert(q.FailedPieceMessage() == nil, "retry-from-nothing")
	if len(ch) == 0 {
		for i := range after.have {
			vs.Assert(after.have[i] == before.have[i], "dropped-with-effect")
		}
		vs.Reach("dropped")
		return
	}
	m := <-ch
	vs.Assert(m.Type == util.PieceMessageType, "passed-on-type")
	vs.Assert(m.Index() == idx, "passed-on-index")
	vs.Assert(m.Offset() == off, "passed-on-offset")
	vs.Assert(vs.EqBytes(m.Data(), data), "passed-on-data")
	vs.Assert(idx < uint32(n), "index-beyond-torrent")
	vs.Assert(off == 0, "wrong-offset")
	for i := 0; i < n; i++ {
		e := (i + 1) * pl
		if e > len(content) {
			e = len(content)
		}
		vs.Assert(vs.Implies(idx == uint32(i), vs.EqBytes(data, content[i*pl:e])), "unverified-data")
	}
	vs.Reach("passed on")
}

// A message that is too short for its fields never passes.
func VerifC09_Truncated() {
	content := vs.Bytes("content", 4)
	t := hTorrent(2, content)
	ch := make(chan *util.PeerMessage, 4)
	p, _ := hPeer(t, ch)
	n := vs.Choose("len", 9)
	p.handlePeerMessage(util.NewPeerMessage(append([]byte{7}, vs.Bytes("payload", n)...)))
	vs.Assert(len(ch) == 0, "truncated-passed-on")
	vs.Reach("truncated")
}

// The hash comparison looks at every byte of the published hash.
func VerifC09_EveryHashByte() {
	data := vs.Bytes("data", vs.Choose("len", vs.Bound("piece bytes", 4, 9)))
	sum := sha1.Sum(data)
	good := sum[:]
	bad := append([]byte(nil), good...)
	k := vs.Choose("byte", 20)
	x := vs.U8("flip")
	vs.Assume(x != 0)
	bad[k] ^= x
	ps, err := torrent.NewPieces(append(append([]byte(nil), good...), bad...))
	vs.Assert(err == nil, "pieces-refused")
	t := &torrent.Torrent{Pieces: ps, PiecesNum: 2, PieceLength: 16}
	vs.Assert(t.CheckPiece(data, 0), "matching-data-refused")
	vs.Assert(!t.CheckPiece(data, 1), "other-hash-accepted")
	vs.Reach("compared")
}

// CheckPiece for every index.
func VerifC09_CheckPiece() {
	a, b := vs.Bytes("a", 3), vs.Bytes("b", 2)
	ha, hb := sha1.Sum(a), sha1.Sum(b)
	ps, _ := torrent.NewPieces(append(append([]byte(nil), ha[:]...), hb[:]...))
	t := &torrent.Torrent{Pieces: ps, PiecesNum: 2, PieceLength: 3}
	data := vs.Bytes("data", vs.Choose("len", 5))
	i := vs.Int("index")
	ok := t.CheckPiece(data, i)
	want := vs.Or(vs.And(i == 0, vs.EqBytes(data, a)), vs.And(i == 1, vs.EqBytes(data, b)))
	vs.Assert(ok == want, "check")
	vs.Reach("checked")
}

// Data of any length: the hash is that of all of it.
func VerifC09_Long() {
	n := vs.IntRange("length", 0, 1<<26)
	data := vs.BigBytes("data", n)
	sum := sha1.Sum(data)
	ps, err := torrent.NewPieces(sum[:])
	vs.Assert(err == nil, "pieces-refused")
	t := &torrent.Torrent{Pieces: ps, PiecesNum: 1, PieceLength: 1 << 26}
	vs.Assert(t.CheckPiece(data, 0), "matching-data-refused")
	k := vs.IntRange("part", 0, 1<<26)
	vs.Assume(k < n)
	vs.Assert(!t.CheckPiece(data[:k], 0), "part-of-the-data-accepted")
	vs.Reach("compared")
}
