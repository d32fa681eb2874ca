package peer

//verif:use help.go

import (
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/util"
)

func c29bit(b []byte, i int) bool {
	if i/8 >= len(b) {
		return false
	}
	return b[i/8]&(0x80>>uint(i%8)) != 0
}

func c29all(p *Peer, n int, f func(i int) bool) bool {
	r := true
	for i := 0; i < n; i++ {
		r = vs.And(r, p.Bitset.Test(uint(i)) == f(i))
	}
	return r
}

func c29run(n int) (*Peer, []byte) {
	t := hSized(4, 4*8*(n+1))
	p, _ := hPeer(t, make(chan *util.PeerMessage, 2))
	switch vs.Choose("had", 3) {
	case 1:
		p.Bitset.Set(1)
	case 2: // another bitfield
		b := make([]byte, n+2)
		for i := range b {
			b[i] = 255
		}
		b[0] = 5
		p.handlePeerMessage(util.NewPeerMessage(b))
	}
	b := vs.Bytes("bits", n)
	p.handlePeerMessage(util.NewPeerMessage(append([]byte{5}, b...)))
	return p, b
}

// The high bit of the first byte is piece 0.
func VerifC29_Order() {
	n := vs.Choose("bytes", vs.Bound("bitfield bytes", 11, 18))
	p, b := c29run(n)
	vs.Assert(c29all(p, 8*n+70, func(i int) bool { return c29bit(b, i) }), "bit-order-reversed-per-word")
	vs.Reach("order")
}

// Whatever the order within a word, every bit names one piece: the piece set
// is the bitfield in protocol order or, bit for bit, in the order of the
// known finding (reversed within each 64-bit word).
func VerifC29_Exact() {
	n := vs.Choose("bytes", vs.Bound("bitfield bytes", 18, 34))
	p, b := c29run(n)
	spec := c29all(p, 8*n+70, func(i int) bool { return c29bit(b, i) })
	rev := c29all(p, 8*n+70, func(i int) bool { return c29bit(b, i/64*64+63-i%64) })
	vs.Assert(vs.Or(spec, rev), "bits-lost-or-invented")
	vs.Reach("exact")
}

// A long bitfield: zeros but for one byte, at its start, end or around the
// sizes at which limits and buffers tend to lie.
func VerifC29_Long() {
	vs.MaxSteps(100_000_000)
	sizes := []int{1 << 10, 1<<12 + 1, 8200, vs.Bound("longest bitfield", 10001, 16400)}
	n := sizes[vs.Choose("bytes", len(sizes))]
	at := []int{0, n / 2, n - 1, 511, 512, n - 4}[vs.Choose("at", 6)]
	x := vs.U8("byte")
	b := make([]byte, n)
	b[at] = x
	p, _ := hPeer(hSized(4, 4*8*(n+1)), make(chan *util.PeerMessage, 2))
	p.handlePeerMessage(util.NewPeerMessage(append([]byte{5}, b...)))
	ok, rok := true, true
	for i := 0; i < 8; i++ {
		bit := x>>(7-i)&1 == 1
		j := at*8 + i
		ok = vs.And(ok, p.Bitset.Test(uint(j)) == bit)
		rok = vs.And(rok, p.Bitset.Test(uint(j/64*64+63-j%64)) == bit)
	}
	vs.Assert(vs.Or(ok, rok), "bits-lost")
	vs.Assert(p.Bitset.Count() <= 8, "bits-invented")
	vs.Reach("long")
}
