package peer

//verif:use help.go
//verif:use session.go

import (
	"context"
	"io"

	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"github.com/bits-and-blooms/bitset"
)

type c18 struct {
	t       *torrent.Torrent
	p       *Peer
	q       *torrent.PiecesQueue
	src     *hSource
	ch      chan *util.PeerMessage
	content []byte
	pl      int
	n       int
	cancel  context.CancelFunc

	interested bool
	choked     bool
	out        *hReq  // outstanding
	retry      []hReq // must be in the retry queue
	lost       []hReq // answered with bad data: may be asked for again
	dead       bool   // a write failed for good
	over       bool   // cancelled or complete
	overReqs   int
	overReads  int
	events     int
	requests   int
	answered   int
}

func (c *c18) requeue() {
	if c.out != nil {
		c.retry = append(c.retry, *c.out)
		c.out = nil
	}
}

func take(l []hReq, r hReq) ([]hReq, bool) {
	for i, x := range l {
		if x == r {
			return append(append([]hReq{}, l[:i]...), l[i+1:]...), true
		}
	}
	return l, false
}

// drain stores what was passed on, as the writer does.
func (c *c18) drain() {
	for len(c.ch) > 0 {
		m := <-c.ch
		c.t.SetDownloaded(uint(m.Index()))
	}
	if c.t.Done() && !c.over {
		c.over, c.overReqs, c.overReads = true, 0, 0
	}
}

func (c *c18) sent(r *hRemote, m []byte) {
	if len(m) == 0 {
		return
	}
	switch m[0] {
	case 2:
		c.interested = true
	case 6:
		vs.Assert(len(m) == 13, "request-layout")
		q := hReq{hU32(m[1:]), hU32(m[5:]), hU32(m[9:])}
		vs.Assert(c.interested, "request-before-interest")
		vs.Assert(!c.choked, "request-while-choked")
		vs.Assert(c.out == nil, "second-request-outstanding")
		if c.over {
			c.overReqs++
			vs.Assert(c.overReqs <= 1, "requests-after-end")
		}
		c.requests++
		var ok bool
		if c.retry, ok = take(c.retry, q); !ok {
			c.lost, _ = take(c.lost, q)
		}
		c.out = &q
	}
}

func (c *c18) wfailed(r *hRemote, m []byte) {
	if len(m) >= 17 && m[4] == 6 {
		q := hReq{hU32(m[5:]), hU32(m[9:]), hU32(m[13:])}
		vs.Assert(c.interested, "request-before-interest")
		vs.Assert(!c.choked, "request-while-choked")
		vs.Assert(c.out == nil, "second-request-outstanding")
		c.retry, _ = take(c.retry, q)
		c.lost, _ = take(c.lost, q)
		c.retry = append(c.retry, q)
	}
}

func (c *c18) piece(i uint32) []byte {
	e := int(i+1) * c.pl
	if e > len(c.content) {
		e = len(c.content)
	}
	return c.content[int(i)*c.pl : e]
}

func (c *c18) event(r *hRemote) ([]byte, error) {
	if c.over {
		c.overReads++
		vs.Assert(c.overReads <= 2, "reads-after-end")
		return nil, fk.ErrIO
	}
	// whoever waits for a message while it may ask for a block has asked
	if c.interested && !c.choked && c.out == nil && !c.over && c.src.given < c.n {
		vs.Fail("no-request-made")
	}
	if c.events == 0 {
		c.cancel()
		c.over = true
		c.requeue()
		return nil, fk.ErrTimeout
	}
	c.events--
	switch vs.Choose("event", 8) {
	case 0:
		c.requeue()
		return nil, fk.ErrTimeout
	case 1:
		c.choked = false
		return []byte{1}, nil
	case 2:
		c.choked = true
		c.requeue()
		return []byte{0}, nil
	case 3: // the block asked for
		if c.out == nil {
			return []byte{}, nil
		}
		q := *c.out
		c.out = nil
		c.answered++
		return hPieceMsg(q.i, q.o, c.piece(q.i)), nil
	case 4: // bad data for the block asked for
		if c.out == nil {
			return []byte{2}, nil
		}
		q := *c.out
		c.out = nil
		c.lost = append(c.lost, q)
		return hPieceMsg(q.i, q.o, []byte{1, 2, 3}), nil
	case 6: // the connection is lost
		c.over, c.overReqs, c.overReads = true, 1, 1
		c.requeue()
		if vs.Choose("how", 2) == 1 {
			return nil, io.EOF
		}
		return nil, fk.ErrIO
	case 5: // something else
		return append([]byte{4}, hBE(uint32(c.n-1))...), nil
	default: // data nobody asked for
		i, o := uint32(0), uint32(4096)
		if c.out != nil {
			switch vs.Choose("which", 2) {
			case 0:
				o = c.out.o
				if c.out.i == 0 {
					i = 1
				}
			default:
				i = c.out.i
			}
		}
		return hPieceMsg(i, o, []byte{9}), nil
	}
}

func c18new(n int) *c18 {
	c := &c18{n: n, pl: 4, choked: true}
	c.content = []byte("abcdefghijklmnopqrstuvwxyz")[:4*n-1]
	c.t = hTorrent(4, c.content)
	c.ch = make(chan *util.PeerMessage, 16)
	c.p, c.q = hPeer(c.t, c.ch)
	for i := 0; i < n; i++ {
		c.p.Bitset.Set(uint(i))
	}
	return c
}

func (c *c18) run(r *hRemote) {
	ctx, cancel := context.WithCancel(context.Background())
	c.cancel = func() { cancel(); c.over = true }
	c.src = &hSource{t: c.t, max: 2, cancel: c.cancel}
	c.p.piecesSource = c.src
	hConnect(c.p, c.t, r)
	c.p.Run(ctx)
	vs.Assert(vs.Or(c.over, c.dead), "session-ended-early")
	cancel()
	c.requeue()
	// the retry queue holds exactly what failed
	for {
		m := c.q.FailedPieceMessage()
		if m == nil {
			break
		}
		q := hReq{m.Index(), m.Offset(), m.BlockLength()}
		var ok bool
		if c.retry, ok = take(c.retry, q); !ok {
			c.lost, ok = take(c.lost, q)
			vs.Assert(ok, "retry-not-failed")
		}
	}
	vs.Assert(len(c.retry) == 0, "failed-request-lost")
}

// A session against a remote side that does anything.
func VerifC18_Session() {
	vs.FreezeClock(true)
	c := c18new(2 + vs.Choose("pieces", 2))
	c.events = vs.Bound("incoming events", 5, 6)
	wf := vs.Bound("failing writes", 1, 2)
	r := &hRemote{event: c.event, sent: c.sent, wfailed: c.wfailed}
	if vs.Choose("writeerror", 2) == 1 {
		r.failErr = fk.ErrTimeout
		c.events--
	}
	r.failWrite = func(*hRemote) bool {
		if wf > 0 {
			if vs.Choose("writefails", 2) == 1 {
				wf--
				if r.failErr == nil {
					c.dead = true
				}
				return true
			}
		}
		return false
	}
	c.run(r)
	if c.answered > 0 {
		vs.Reach("answered")
	}
	vs.Reach("ended")
}

// Completing the torrent ends the session.
func VerifC18_Complete() {
	vs.FreezeClock(true)
	n := 1 + vs.Choose("pieces", 3)
	c := c18new(n)
	c.events = 100
	r := &hRemote{sent: c.sent, wfailed: c.wfailed}
	slow := vs.Choose("slow", 2) == 1
	step := 0
	r.event = func(r *hRemote) ([]byte, error) {
		if !slow || c.answered < n {
			c.drain()
		}
		step++
		if c.over {
			c.overReads++
			vs.Assert(c.overReads <= 2, "reads-after-end")
			return nil, fk.ErrTimeout
		}
		if c.choked {
			c.choked = false
			return []byte{1}, nil
		}
		vs.Assert(step < 40, "session-goes-on")
		if c.out == nil {
			vs.Assert(c.src.given == n, "no-request-made")
			c.drain()
			return []byte{}, nil
		}
		q := *c.out
		c.out = nil
		c.answered++
		return hPieceMsg(q.i, q.o, c.piece(q.i)), nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	c.cancel = cancel
	// the writer is done when the session looks for another piece
	c.src = &hSource{t: c.t, max: 3, cancel: func() { c.drain() }}
	c.p.piecesSource = c.src
	hConnect(c.p, c.t, r)
	c.p.Run(ctx)
	cancel()
	vs.Assert(c.answered == n, "session-ended-early")
	c.drain()
	vs.Assert(c.t.Done(), "pieces-not-passed-on")
	vs.Assert(c.q.FailedPieceMessage() == nil, "retry-not-failed")
	vs.Reach("complete")
}

// Cancelling before the session starts, or at any write or read.
func VerifC18_Cancel() {
	vs.FreezeClock(true)
	c := c18new(3)
	c.events = 100
	at := vs.Choose("at", vs.Bound("operations", 9, 16))
	ops := 0
	tick := func() {
		if ops == at {
			c.cancel()
		}
		ops++
	}
	r := &hRemote{sent: c.sent, wfailed: c.wfailed}
	r.beforeOut = func(*hRemote) { tick() }
	mode := vs.Choose("mode", 3)
	r.event = func(r *hRemote) ([]byte, error) {
		tick()
		if c.over {
			c.overReads++
			vs.Assert(c.overReads <= 2, "reads-after-end")
		}
		if c.choked {
			if mode == 2 {
				return nil, fk.ErrTimeout // never unchoked
			}
			c.choked = false
			return []byte{1}, nil
		}
		if c.out == nil || mode == 1 {
			c.requeue()
			return nil, fk.ErrTimeout
		}
		q := *c.out
		c.out = nil
		return hPieceMsg(q.i, q.o, c.piece(q.i)), nil
	}
	c.run(r)
	vs.Reach("cancelled")
}

// A peer that lacks a piece another peer failed to deliver is not asked for it.
func VerifC18_RetryOfAnother() {
	vs.FreezeClock(true)
	c := c18new(2)
	c.p.Bitset.Clear(0)
	c.t.Next(hOnly(0)) // by the other peer
	c.q.RequestFailed(util.CreatePieceMessage(0, 0, 4))
	c.retry = append(c.retry, hReq{0, 0, 4})
	c.events = 4
	r := &hRemote{event: c.event, wfailed: c.wfailed}
	r.sent = func(r *hRemote, m []byte) {
		if len(m) == 13 && m[0] == 6 {
			vs.Assert(c.p.Bitset.Test(uint(hU32(m[1:]))), "request-of-missing-piece")
		}
		c.sent(r, m)
	}
	c.n = 1
	c.run(r)
	vs.Reach("ended")
}

func hOnly(i uint) *bitset.BitSet {
	b := bitset.New(2)
	return b.Set(i)
}
