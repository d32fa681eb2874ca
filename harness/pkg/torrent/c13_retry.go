package torrent

import (
	"bytes"

	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/util"
)

type c13req struct {
	i, o, l uint32
	out     bool // reported as failed, not yet retried
}

// c13take checks a request taken from the queue against those reported.
func c13take(rs []*c13req, m *util.PeerMessage) {
	if m == nil {
		for _, r := range rs {
			vs.Assert(!r.out, "failed-request-lost")
		}
		vs.Reach("empty")
		return
	}
	k := vs.Concrete(int(m.Index()))
	vs.Assert(k < len(rs), "request-from-nowhere")
	r := rs[k]
	vs.Assert(r.out, "retried-twice")
	r.out = false
	vs.Assert(m.Type == util.RequestMessageType, "retry-changed-type")
	vs.Assert(m.Offset() == r.o, "retry-changed-offset")
	vs.Assert(m.BlockLength() == r.l, "retry-changed-length")
	var b bytes.Buffer
	m.Send(&b)
	x := b.Bytes()
	vs.Assert(len(x) == 17, "retry-changed-bytes")
	want := []byte{0, 0, 0, 13, 6, 0, 0, 0, byte(k), byte(r.o >> 24), byte(r.o >> 16), byte(r.o >> 8), byte(r.o),
		byte(r.l >> 24), byte(r.l >> 16), byte(r.l >> 8), byte(r.l)}
	vs.Assert(vs.EqBytes(x, want), "retry-changed-bytes")
	vs.Reach("retry")
}

// A sequence of failures and retries.
func VerifC13_History() {
	q := NewPiecesQueue()
	var rs []*c13req
	for k := vs.Bound("operations", 7, 10); k > 0; k-- {
		if vs.Choose("fail", 2) == 1 {
			r := &c13req{i: uint32(len(rs)), o: vs.U32("offset"), l: vs.U32("length"), out: true}
			rs = append(rs, r)
			q.RequestFailed(util.CreatePieceMessage(r.i, r.o, r.l))
		} else {
			c13take(rs, q.FailedPieceMessage())
		}
	}
	for range rs {
		c13take(rs, q.FailedPieceMessage())
	}
	c13take(rs, q.FailedPieceMessage())
	c13take(rs, q.FailedPieceMessage())
}

// More failures than the queue starts with room for.
func VerifC13_Many() {
	q := NewPiecesQueue()
	var rs []*c13req
	n := vs.Bound("failures", 130, 1100)
	for k := 0; k < n; k++ {
		r := &c13req{i: uint32(k), o: uint32(k * 3), l: uint32(k + 1), out: true}
		rs = append(rs, r)
		q.RequestFailed(util.CreatePieceMessage(r.i, r.o, r.l))
	}
	for k := 0; k < n; k++ {
		m := q.FailedPieceMessage()
		vs.Assert(m != nil, "failed-request-lost")
		r := rs[m.Index()]
		vs.Assert(r.out, "retried-twice")
		r.out = false
		vs.Assert(m.Offset() == r.o && m.BlockLength() == r.l, "retry-changed-offset")
	}
	vs.Assert(q.FailedPieceMessage() == nil, "request-from-nowhere")
	vs.Reach("drained")
}

// Peers failing and retrying at the same time.
func VerifC13_Concurrent() {
	vs.Races(true)
	vs.Preemptions(vs.Bound("preemptions", 4, 6))
	q := NewPiecesQueue()
	g := vs.Bound("peers", 2, 3)
	var rs []*c13req
	for k := 0; k < 2*g; k++ {
		rs = append(rs, &c13req{i: uint32(k), o: vs.U32("offset"), l: 7})
	}
	left := 0
	fin := make(chan bool, g)
	for k := 0; k < g; k++ {
		mine := rs[2*k : 2*k+2]
		go func() {
			for j := 0; j < 2; j++ {
				r := mine[j]
				vs.Atomically(func() { r.out = true })
				q.RequestFailed(util.CreatePieceMessage(r.i, r.o, r.l))
				vs.Atomically(func() { left++ })
				// its own failure is in the queue, so there is something
				// unless someone else took it
				m := q.FailedPieceMessage()
				if m != nil {
					vs.Atomically(func() {
						left--
						c13take(rs, m)
					})
				}
			}
			fin <- true
		}()
	}
	for k := 0; k < g; k++ {
		<-fin
	}
	for ; left > 0; left-- {
		m := q.FailedPieceMessage()
		vs.Assert(m != nil, "failed-request-lost")
		c13take(rs, m)
	}
	c13take(rs, q.FailedPieceMessage())
	vs.Reach("end")
}

type c13key struct{ i, o, l uint32 }

func c13count(ks []c13key, k c13key) int {
	n := 0
	for _, x := range ks {
		n += vs.IteInt(vs.And(x.i == k.i, vs.And(x.o == k.o, x.l == k.l)), 1, 0)
	}
	return n
}

// Requests of any piece, offset and length, the same one possibly failing
// again and several of the same piece failing.
func VerifC13_AnyRequests() {
	q := NewPiecesQueue()
	var in, out []c13key
	takeOne := func() {
		m := q.FailedPieceMessage()
		if m == nil {
			for _, k := range in {
				vs.Assert(c13count(in, k) == c13count(out, k), "failed-request-lost")
			}
			return
		}
		k := c13key{m.Index(), m.Offset(), m.BlockLength()}
		out = append(out, k)
		vs.Assert(c13count(out, k) <= c13count(in, k), "retried-twice")
		vs.Assert(m.Type == util.RequestMessageType, "retry-changed-type")
		vs.Reach("retry")
	}
	for j := vs.Bound("operations", 6, 8); j > 0; j-- {
		if vs.Choose("fail", 2) == 1 {
			k := c13key{vs.U32("index"), vs.U32("offset"), vs.U32("length")}
			in = append(in, k)
			q.RequestFailed(util.CreatePieceMessage(k.i, k.o, k.l))
		} else {
			takeOne()
		}
	}
	for range in {
		takeOne()
	}
	takeOne()
	vs.Assert(len(in) == len(out), "failed-request-lost")
}
