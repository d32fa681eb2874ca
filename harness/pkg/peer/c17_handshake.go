package peer

//verif:use help.go

import (
	"net"

	"github.com/anivanovic/gotit/internal/verif/fdial"
	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/util"
)

const c17proto = "BitTorrent protocol"

// Any answer, of any length, to the handshake of any torrent.
func VerifC17_Announce() {
	t := hSized(4, 12)
	t.Hash = vs.Bytes("hash", 20)
	p, _ := hPeer(t, make(chan *util.PeerMessage, 1))
	avail := []int{0, 1, 19, 20, 28, 47, 48, 67, 68, 69, 80}[vs.Choose("avail", 11)]
	c := &fk.Conn{In: vs.Bytes("answer", avail), Whole: true, WFail: 1}
	dials := 0
	fdial.Dial = func(network, address string) (net.Conn, error) {
		dials++
		vs.Assert(network == "tcp", "dial-network")
		vs.Assert(address == "10.0.0.1:6881", "dial-address")
		if vs.Bool("dialfails") {
			return nil, fk.ErrIO
		}
		return c, nil
	}
	err := p.Announce(t)
	if dials == 0 || (len(c.Out) == 0 && !c.Touched) {
		vs.Assert(err != nil, "connected-without-connection")
		vs.Reach("no connection")
		return
	}
	if c.Errored && len(c.Out) < 68 {
		vs.Assert(err != nil, "unsent-handshake-accepted")
		vs.Reach("not sent")
		return
	}
	o := c.Out
	vs.Assert(len(o) == 68, "handshake-length")
	vs.Assert(o[0] == 19, "handshake-protocol-length")
	vs.Assert(vs.EqBytes(o[1:20], []byte(c17proto)), "handshake-protocol")
	vs.Assert(vs.EqBytes(o[28:48], t.Hash), "handshake-hash")
	vs.Assert(vs.EqBytes(o[48:56], []byte("-GO0100-")), "handshake-client-prefix")
	vs.Assert(vs.EqBytes(o[48:68], ClientId), "handshake-client-id")
	if avail < 68 {
		vs.Assert(err != nil, "short-answer-accepted")
		vs.Reach("short answer")
		return
	}
	a := c.In
	ok := vs.And(a[0] == 19, vs.And(vs.EqBytes(a[1:20], []byte(c17proto)), vs.EqBytes(a[28:48], t.Hash)))
	vs.Assert((err == nil) == ok, "answer-verdict")
	vs.Assert(c.Pos == 68, "answer-consumed")
	vs.Reach("answer")
}

// The accepting rule on its own, for every length up to a bound.
func VerifC17_Valid() {
	n := vs.Choose("len", vs.Bound("handshake bytes", 72, 100))
	h := vs.Bytes("handshake", n)
	hash := vs.Bytes("hash", 20)
	id := vs.Bytes("id", 20)
	got := isHandshakeValid(h, hash, id)
	if n < 68 {
		vs.Assert(!got, "short-handshake-valid")
		vs.Reach("short")
		return
	}
	ok := vs.And(h[0] == 19, vs.And(vs.EqBytes(h[1:20], []byte(c17proto)), vs.EqBytes(h[28:48], hash)))
	if n == 68 {
		vs.Assert(got == ok, "handshake-verdict")
	} else {
		vs.Assert(vs.Implies(got, ok), "handshake-verdict")
	}
	vs.Reach("full")
}

// Our own handshake is valid for the same torrent and for no other.
func VerifC17_Own() {
	h1, h2 := vs.Bytes("hash", 20), vs.Bytes("other", 20)
	b := createHandshake(h1)
	vs.Assert(len(b) == 68, "length")
	vs.Assert(isHandshakeValid(b, h1, ClientId), "own-refused")
	vs.Assert(isHandshakeValid(b, h2, ClientId) == vs.EqBytes(h1, h2), "other-torrent")
	id := createClientId()
	vs.Assert(len(id) == 20, "client-id-length")
	vs.Assert(vs.EqBytes(id[:8], []byte("-GO0100-")), "client-id-prefix")
	vs.Reach("own")
}

// A connection attempt after one that failed, with the same or another peer,
// or one of another torrent.
func VerifC17_Again() {
	t := hSized(4, 12)
	t.Hash = vs.Bytes("hash", 20)
	p, _ := hPeer(t, make(chan *util.PeerMessage, 1))
	full := append(append(append([]byte{19}, c17proto...), make([]byte, 8)...), t.Hash...)
	full = append(full, []byte("-XX0000-abcdefghijkl")...)
	var conns []*fk.Conn
	first := vs.Choose("first", 6)
	answer := vs.Bytes("answer", 68)
	fdial.Dial = func(network, address string) (net.Conn, error) {
		c := &fk.Conn{In: answer, Whole: true}
		if len(conns) == 0 {
			switch first {
			case 0:
				conns = append(conns, c)
				return nil, fk.ErrIO
			case 1:
				c.In = full[:67]
			case 2:
				c.In = full[:20]
			case 3:
				c.In, c.End = full[:48], fk.ErrTimeout
			case 4:
				c.In = append([]byte{18}, full[1:]...)
			case 5:
				c.In = append(append([]byte(nil), full[:47]...), append([]byte{full[47] ^ 1}, full[48:]...)...)
			}
		}
		conns = append(conns, c)
		return c, nil
	}
	vs.Assert(p.Announce(t) != nil, "bad-answer-accepted")
	switch vs.Choose("another", 3) {
	case 1: // peer
		p, _ = hPeer(t, make(chan *util.PeerMessage, 1))
	case 2: // torrent
		t = hSized(4, 12)
		t.Hash = vs.Bytes("other hash", 20)
		p, _ = hPeer(t, make(chan *util.PeerMessage, 1))
	}
	err := p.Announce(t)
	vs.Assert(len(conns) == 2, "not-connected-again")
	o := conns[1].Out
	vs.Assert(len(o) == 68, "handshake-length")
	vs.Assert(vs.And(o[0] == 19, vs.And(vs.EqBytes(o[1:20], []byte(c17proto)), vs.EqBytes(o[28:48], t.Hash))), "handshake")
	a := answer
	ok := vs.And(a[0] == 19, vs.And(vs.EqBytes(a[1:20], []byte(c17proto)), vs.EqBytes(a[28:48], t.Hash)))
	vs.Assert((err == nil) == ok, "answer-verdict")
	vs.Reach("again")
}
