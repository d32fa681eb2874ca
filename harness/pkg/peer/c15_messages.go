package peer

//verif:use help.go

import (
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/util"
)

// Any message bytes, from any peer state: no crash, bounded memory, and only
// the named state changes.
func VerifC15_AnyMessage() {
	pieces := []int{1, 3, 64, 65}[vs.Choose("pieces", vs.Bound("torrent sizes", 3, 4))]
	t := hSized(4, 4*pieces)
	ch := make(chan *util.PeerMessage, 2)
	p, q := hPeer(t, ch)
	p.PeerStatus.Choked = vs.Bool("peerChoked")
	p.PeerStatus.Interested = vs.Bool("peerInterested")
	p.ClientStatus.Choked = vs.Bool("clientChoked")
	p.ClientStatus.Interested = vs.Bool("clientInterested")
	have := vs.Bool("have0")
	if have {
		p.Bitset.Set(0)
	}
	before := hSnap(p)
	n := vs.Choose("len", vs.Bound("message bytes", 15, 24))
	b := vs.Bytes("msg", n)
	orig := append([]byte(nil), b...)
	vs.AllocLimit(16 << 20)
	p.handlePeerMessage(util.NewPeerMessage(b))
	vs.Assert(vs.EqBytes(b, orig), "message-bytes-changed")
	after := hSnap(p)
	vs.Assert(p.Bitset != nil, "bitset-lost")
	vs.Assert(len(ch) == 0, "unverified-data-passed-on")
	vs.Assert(q.FailedPieceMessage() == nil, "retry-from-nothing")
	typ := byte(255)
	if n > 0 {
		typ = b[0]
	}
	vs.Assert(after.pv == before.pv, "valid-changed")
	vs.Assert(after.cv == before.cv, "valid-changed")
	vs.Assert(after.pc == before.pc, "peer-choked-changed")
	vs.Assert(after.ci == before.ci, "client-interested-changed")
	if typ == 0 {
		if n == 1 {
			vs.Assert(after.cc, "choke")
		}
		vs.Reach("choke")
	} else if typ == 1 {
		if n == 1 {
			vs.Assert(!after.cc, "unchoke")
		}
		vs.Reach("unchoke")
	} else {
		vs.Assert(after.cc == before.cc, "choked-changed")
	}
	if typ == 2 {
		if n == 1 {
			vs.Assert(after.pi, "interested")
		}
		vs.Reach("interested")
	} else if typ == 3 {
		if n == 1 {
			vs.Assert(!after.pi, "not-interested")
		}
		vs.Reach("not interested")
	} else {
		vs.Assert(after.pi == before.pi, "interested-changed")
	}
	if typ == 5 {
		vs.Reach("bitfield")
		return
	}
	if typ == 4 && n == 5 {
		idx := uint64(b[1])<<24 | uint64(b[2])<<16 | uint64(b[3])<<8 | uint64(b[4])
		for i := range after.have {
			want := before.have[i]
			if i < pieces {
				want = vs.Or(want, idx == uint64(i))
			}
			vs.Assert(after.have[i] == want, "have")
		}
		vs.Reach("have")
		return
	}
	if typ == 4 && n > 5 {
		return // trailing bytes: not specified
	}
	for i := range after.have {
		vs.Assert(after.have[i] == before.have[i], "pieces-changed")
	}
	vs.Reach("other")
}

// A bitfield message followed by a have: still only the piece set changes.
func VerifC15_BitfieldThenHave() {
	t := hSized(4, 4*11)
	ch := make(chan *util.PeerMessage, 2)
	p, _ := hPeer(t, ch)
	before := hSnap(p)
	n := vs.Choose("len", vs.Bound("bitfield bytes", 10, 18))
	p.handlePeerMessage(util.NewPeerMessage(append([]byte{5}, vs.Bytes("bits", n)...)))
	mid := hSnap(p)
	idx := vs.U32("index")
	vs.AllocLimit(16 << 20)
	p.handlePeerMessage(util.NewPeerMessage(append([]byte{4}, hBE(idx)...)))
	after := hSnap(p)
	for i := range after.have {
		want := mid.have[i]
		if i < 11 {
			want = vs.Or(want, uint64(idx) == uint64(i))
		}
		vs.Assert(after.have[i] == want, "have-after-bitfield")
	}
	vs.Assert(after.pc == before.pc && after.pi == before.pi && after.cc == before.cc && after.ci == before.ci, "status-changed")
	vs.Reach("bitfield and have")
}

// Several messages, during work on a piece or not: the state is what the
// messages say, nothing else.
func VerifC15_Sequence() {
	const pieces = 3
	t := hSized(4, 4*pieces)
	ch := make(chan *util.PeerMessage, 2)
	p, q := hPeer(t, ch)
	p.Bitset.Set(1)
	p.PeerStatus.Choked = vs.Bool("peerChoked")
	p.ClientStatus.Interested = vs.Bool("clientInterested")
	if vs.Bool("working") {
		p.nextRequestMessage()
	}
	want := hSnap(p)
	for k := vs.Bound("messages", 3, 4); k > 0; k-- {
		var b []byte
		switch vs.Choose("kind", 4) {
		case 0:
			b = []byte{vs.U8("signal") & 3}
			want.cc = vs.Or(b[0] == 0, vs.And(b[0] != 1, want.cc))
			want.pi = vs.Or(b[0] == 2, vs.And(b[0] != 3, want.pi))
		case 1:
			i := vs.U32("have")
			b = append([]byte{4}, hBE(i)...)
			for j := 0; j < pieces; j++ {
				want.have[j] = vs.Or(want.have[j], uint64(i) == uint64(j))
			}
		case 2: // keep-alive or unknown
			if vs.Bool("unknown") {
				b = append([]byte{9 + vs.U8("type")&63}, vs.Bytes("payload", 3)...)
			}
		case 3: // request or cancel
			b = append([]byte{6 + 2*(vs.U8("type")&1)}, vs.Bytes("payload", 12)...)
		}
		p.handlePeerMessage(util.NewPeerMessage(b))
		got := hSnap(p)
		vs.Assert(got.cc == want.cc, "choke-state")
		vs.Assert(got.pi == want.pi, "interested-state")
		vs.Assert(vs.And(got.pc == want.pc, got.ci == want.ci), "own-state-changed")
		ok := true
		for j := range got.have {
			ok = vs.And(ok, got.have[j] == want.have[j])
		}
		vs.Assert(ok, "pieces")
		vs.Assert(len(ch) == 0 && q.FailedPieceMessage() == nil, "something-from-nothing")
	}
	vs.Reach("sequence")
}
