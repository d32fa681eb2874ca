package peer

//verif:use help.go

import (
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
)

type c12tile struct {
	pl, length uint64
	n          int
	cur        int // piece being requested, -1: none
	pos        uint64
	done       []bool
}

func (c *c12tile) size(i int) uint64 {
	if i == c.n-1 {
		return c.length - c.pl*uint64(c.n-1)
	}
	return c.pl
}

// request checks a new (not retried) request.
func (c *c12tile) request(m *util.PeerMessage) {
	vs.Assert(m.Type == util.RequestMessageType, "request-type")
	idx := vs.Concrete(int(m.Index()))
	off, l := uint64(m.Offset()), uint64(m.BlockLength())
	vs.Assert(idx < c.n, "piece-beyond-torrent")
	if c.cur < 0 {
		vs.Assert(!c.done[idx], "piece-begun-twice")
		c.cur, c.pos = idx, 0
	}
	vs.Assert(idx == c.cur, "next-piece-begun-early")
	vs.Assert(off == c.pos, "gap-or-overlap")
	vs.Assert(l > 0, "empty-request")
	vs.Assert(l <= uint64(torrent.BlockLength), "block-too-long")
	c.pos += l
	vs.Assert(c.pos <= c.size(idx), "beyond-end-of-piece")
	if c.pos == c.size(idx) {
		c.done[idx] = true
		c.cur = -1
	}
}

func c12setup() (*torrent.Torrent, *c12tile) {
	n := 1 + vs.Choose("pieces", 3)
	maxBlocks := vs.Bound("blocks per piece", 3, 8)
	// the piece length is any number up to maxBlocks blocks; the last piece
	// any part of it
	pl := vs.IntRange("piecelen", 1, maxBlocks*int(torrent.BlockLength))
	last := vs.IntRange("lastlen", 1, maxBlocks*int(torrent.BlockLength))
	vs.Assume(last <= pl)
	length := pl*(n-1) + last
	t := c12torrent(pl, length, n)
	return t, &c12tile{pl: uint64(pl), length: uint64(length), n: n, cur: -1, done: make([]bool, n)}
}

func c12torrent(pl, length, n int) *torrent.Torrent {
	return hSizedN(pl, length, n)
}

// One peer working through all pieces it has.
func VerifC12_Tiling() {
	t, c := c12setup()
	p, _ := hPeer(t, make(chan *util.PeerMessage, 1))
	var have [3]bool
	for i := 0; i < c.n; i++ {
		have[i] = vs.Bool("has")
		if have[i] {
			p.Bitset.Set(uint(i))
		}
	}
	for {
		m := p.nextRequestMessage()
		if m == nil {
			break
		}
		c.request(m)
	}
	vs.Assert(c.cur < 0, "piece-abandoned")
	for i := 0; i < c.n; i++ {
		vs.Assert(c.done[i] == have[i], "piece-not-requested")
	}
	vs.Assert(p.nextRequestMessage() == nil, "request-after-end")
	vs.Reach("tiled")
}

// Requests that fail are repeated unchanged and do not disturb the others.
func VerifC12_Retry() {
	n := 2
	pl := vs.IntRange("piecelen", 1, 2*int(torrent.BlockLength))
	last := vs.IntRange("lastlen", 1, 2*int(torrent.BlockLength))
	vs.Assume(last <= pl)
	length := pl + last
	t := c12torrent(pl, length, n)
	c := &c12tile{pl: uint64(pl), length: uint64(length), n: n, cur: -1, done: make([]bool, n)}
	p, q := hPeer(t, make(chan *util.PeerMessage, 1))
	p.Bitset.Set(0)
	p.Bitset.Set(1)
	type req struct{ i, o, l uint32 }
	var failed []req
	fails := vs.Bound("failures", 2, 3)
	for {
		m := p.nextRequestMessage()
		if m == nil {
			break
		}
		r := req{m.Index(), m.Offset(), m.BlockLength()}
		retry := -1
		for k, f := range failed {
			if f.i == r.i && f.o == r.o {
				retry = k
				vs.Assert(f.l == r.l, "retry-changed")
			}
		}
		if retry >= 0 {
			failed = append(append([]req{}, failed[:retry]...), failed[retry+1:]...)
		} else {
			c.request(m)
		}
		if fails > 0 && vs.Bool("fails") {
			fails--
			q.RequestFailed(m)
			failed = append(failed, r)
		}
	}
	vs.Assert(len(failed) == 0, "failed-request-lost")
	vs.Assert(c.cur < 0, "piece-abandoned")
	vs.Assert(c.done[0] && c.done[1], "piece-not-requested")
	vs.Reach("retried")
}

// Two peers taking turns.
func VerifC12_TwoPeers() {
	n := 3
	pl := vs.IntRange("piecelen", 1, 2*int(torrent.BlockLength))
	last := vs.IntRange("lastlen", 1, 2*int(torrent.BlockLength))
	vs.Assume(last <= pl)
	length := pl*(n-1) + last
	t := c12torrent(pl, length, n)
	done := make([]bool, n)
	var ps [2]*Peer
	var cs [2]*c12tile
	for k := range ps {
		ps[k], _ = hPeer(t, make(chan *util.PeerMessage, 1))
		for i := 0; i < n; i++ {
			ps[k].Bitset.Set(uint(i))
		}
		cs[k] = &c12tile{pl: uint64(pl), length: uint64(length), n: n, cur: -1, done: done}
	}
	var ended [2]bool
	for !(ended[0] && ended[1]) {
		k := 0
		if ended[0] {
			k = 1
		} else if !ended[1] {
			k = vs.Choose("turn", 2)
		}
		m := ps[k].nextRequestMessage()
		if m == nil {
			ended[k] = true
			continue
		}
		cs[k].request(m)
		vs.Assert(cs[0].cur < 0 || cs[0].cur != cs[1].cur, "same-piece-twice")
	}
	vs.Assert(done[0] && done[1] && done[2], "piece-not-requested")
	vs.Reach("two peers")
}

// Long pieces: the sizes at which a counter of blocks or an offset could wrap.
func VerifC12_ManyBlocks() {
	bl := int(torrent.BlockLength)
	from := []int{254, 65534}[vs.Choose("blocks", vs.Bound("block counts", 1, 2))]
	pl := vs.IntRange("piecelen", from*bl+1, (from+4)*bl)
	n := 1
	length := pl
	t := c12torrent(pl, length, n)
	c := &c12tile{pl: uint64(pl), length: uint64(length), n: n, cur: -1, done: make([]bool, n)}
	p, _ := hPeer(t, make(chan *util.PeerMessage, 1))
	p.Bitset.Set(0)
	for m := p.nextRequestMessage(); m != nil; m = p.nextRequestMessage() {
		c.request(m)
	}
	vs.Assert(c.cur < 0 && c.done[0], "piece-abandoned")
	vs.Reach("long piece")
}

// Any block of a piece of any length up to 4 GiB: the peer is put at that
// block, as if all before it had been asked for.
func VerifC12_AnyBlock() {
	bl := uint64(torrent.BlockLength)
	pl := vs.U64("piecelen")
	vs.Assume(pl > 2*bl && pl <= 1<<32)
	t := c12torrent(int(pl), int(pl), 1)
	p, _ := hPeer(t, make(chan *util.PeerMessage, 1))
	p.Bitset.Set(0)
	a, b := p.nextRequestMessage(), p.nextRequestMessage()
	if a == nil || b == nil || p.blockIdx != 2 {
		return // the counter is something else: judged by the other harnesses
	}
	k := vs.U64("block")
	vs.Assume(vs.And(k >= 2, k < (pl+bl-1)/bl))
	p.blockIdx = uint(k)
	m := p.nextRequestMessage()
	vs.Assert(m != nil, "request-missing")
	want := bl
	if pl-k*bl < bl {
		want = pl - k*bl
	}
	vs.Assert(m.Index() == 0 && uint64(m.Offset()) == k*bl && uint64(m.BlockLength()) == want, "gap-or-overlap")
	if (k+1)*bl >= pl {
		vs.Assert(p.nextRequestMessage() == nil, "request-after-end")
	}
	vs.Reach("any block")
}
