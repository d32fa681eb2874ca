package util

import "github.com/anivanovic/gotit/internal/verif/vs"

// sink records what is written and can cut writes short.
type c14sink struct{ b []byte }

func (s *c14sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

func c14send(m *PeerMessage) []byte {
	s := &c14sink{}
	n, err := m.Send(s)
	vs.Assert(err == nil, "send-error")
	vs.Assert(n == len(s.b), "send-count")
	return s.b
}

func c14be(v uint32) []byte {
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// Request messages: layout and round trip for every index, offset, length.
func VerifC14_Request() {
	i, o, l := vs.U32("index"), vs.U32("offset"), vs.U32("length")
	m := CreatePieceMessage(i, o, l)
	vs.Assert(m.Type == RequestMessageType, "request-type")
	b := c14send(m)
	want := append([]byte{0, 0, 0, 13, 6}, c14be(i)...)
	want = append(want, c14be(o)...)
	want = append(want, c14be(l)...)
	vs.Assert(vs.EqBytes(b, want), "request-layout")
	vs.Assert(vs.And(m.Index() == i, vs.And(m.Offset() == o, m.BlockLength() == l)), "request-fields")
	r := NewPeerMessage(b[4:])
	vs.Assert(r.Type == RequestMessageType, "request-decode-type")
	vs.Assert(vs.And(r.Index() == i, vs.And(r.Offset() == o, r.BlockLength() == l)), "request-decode")
	// sending it again (a retry) sends the same bytes
	vs.Assert(vs.EqBytes(c14send(m), want), "request-resend")
	vs.Assert(vs.EqBytes(c14send(r), want), "request-forward")
	vs.Reach("request")
}

// State messages and keep-alive.
func VerifC14_Signals() {
	var m *PeerMessage
	var want []byte
	switch vs.Choose("kind", 4) {
	case 0:
		m, want = CreateChokeMessage(), []byte{0, 0, 0, 1, 0}
	case 1:
		m, want = CreateUnchokeMessage(), []byte{0, 0, 0, 1, 1}
	case 2:
		m, want = CreateInterestedMessage(), []byte{0, 0, 0, 1, 2}
	default:
		m, want = KeepalivePeerMessage, []byte{0, 0, 0, 0}
	}
	b := c14send(m)
	vs.Assert(vs.EqBytes(b, want), "signal-layout")
	r := NewPeerMessage(b[4:])
	vs.Assert(r.Type == m.Type, "signal-decode")
	vs.Assert(vs.EqBytes(c14send(KeepalivePeerMessage), []byte{0, 0, 0, 0}), "keepalive-layout")
	vs.Reach("signal")
}

// Decoding the bytes of any message of the protocol.
func VerifC14_Decode() {
	i, o, l := vs.U32("index"), vs.U32("offset"), vs.U32("length")
	n := vs.Choose("datalen", vs.Bound("payload bytes", 7, 40))
	data := vs.Bytes("data", n)
	switch vs.Choose("kind", 5) {
	case 0:
		m := NewPeerMessage(append([]byte{4}, c14be(i)...))
		vs.Assert(m.Type == HaveMessageType, "have-type")
		vs.Assert(m.Index() == i, "have-index")
	case 1:
		p := append([]byte{7}, c14be(i)...)
		p = append(p, c14be(o)...)
		p = append(p, data...)
		m := NewPeerMessage(p)
		vs.Assert(m.Type == PieceMessageType, "piece-type")
		vs.Assert(vs.And(m.Index() == i, m.Offset() == o), "piece-fields")
		vs.Assert(vs.EqBytes(m.Data(), data), "piece-data")
		vs.Assert(m.Bitfield() == nil, "piece-bitfield")
		vs.Assert(vs.EqBytes(c14send(m)[4:], p), "piece-forward")
	case 2:
		p := append([]byte{8}, c14be(i)...)
		p = append(p, c14be(o)...)
		p = append(p, c14be(l)...)
		m := NewPeerMessage(p)
		vs.Assert(m.Type == CancelMessageType, "cancel-type")
		vs.Assert(vs.And(m.Index() == i, vs.And(m.Offset() == o, m.BlockLength() == l)), "cancel-decode")
	case 3:
		m := NewPeerMessage(append([]byte{5}, data...))
		vs.Assert(m.Type == BitfieldMessageType, "bitfield-type")
		vs.Assert(m.Data() == nil, "bitfield-data")
		b := c14send(m)
		vs.Assert(vs.EqBytes(b[:4], c14be(uint32(n+1))), "bitfield-len")
	default:
		t := vs.U8("type")
		vs.Assume(t <= 3)
		m := NewPeerMessage([]byte{t})
		vs.Assert(uint8(m.Type) == t, "signal-type")
		vs.Assert(m.Data() == nil, "signal-data")
	}
	vs.Assert(NewPeerMessage(nil).Type == KeepaliveMessageType, "keepalive")
	vs.Reach("decode")
}

// Messages do not share anything: making, decoding or sending one leaves the
// others as they are.
func VerifC14_Several() {
	i, o, l := vs.U32("index"), vs.U32("offset"), vs.U32("length")
	want := append([]byte{0, 0, 0, 13, 6}, c14be(i)...)
	want = append(append(want, c14be(o)...), c14be(l)...)
	m := CreatePieceMessage(i, o, l)
	data := vs.Bytes("data", 3)
	raw := append([]byte{7}, append(append(c14be(l), c14be(i)...), data...)...)
	p := NewPeerMessage(raw)
	var sent []byte
	for k := vs.Bound("other messages", 2, 3); k > 0; k-- {
		switch vs.Choose("other", 7) {
		case 0:
			sent = c14send(CreatePieceMessage(vs.U32("x"), 0, 1))
		case 1:
			sent = c14send(KeepalivePeerMessage)
		case 2:
			sent = c14send(CreateInterestedMessage())
		case 3:
			q := NewPeerMessage(append([]byte{7}, make([]byte, 12)...))
			vs.Assert(len(q.Data()) == 4, "data-length")
			sent = c14send(q)
		case 4:
			NewPeerMessage(append([]byte{5}, vs.Bytes("bits", 9)...)).Bitfield()
		case 5:
			NewPeerMessage(append([]byte{4}, c14be(vs.U32("have"))...))
		case 6:
			NewPeerMessage(nil)
			sent = c14send(CreateUnchokeMessage())
		}
		_ = sent
		vs.Assert(vs.And(m.Index() == i, vs.And(m.Offset() == o, m.BlockLength() == l)), "request-changed")
		vs.Assert(vs.EqBytes(c14send(m), want), "request-changed")
		vs.Assert(vs.And(p.Index() == l, p.Offset() == i), "piece-changed")
		vs.Assert(vs.EqBytes(p.Data(), data), "piece-changed")
	}
	vs.Assert(vs.EqBytes(c14send(p)[4:], raw), "piece-changed")
	vs.Reach("several")
}
