package download

//verif:use help.go

import (
	"bytes"
	"context"
	"net/netip"
	"net/url"
	"strconv"
	"time"

	"github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"go.uber.org/zap"
)

// c33bytes is how many bytes are stored.
func (w *hWorld) c33bytes() (all uint64) {
	for _, f := range ffs.Files {
		for _, x := range f.Writes {
			all += uint64(len(x.Data))
		}
	}
	return
}

func c33be(b []byte) uint64 {
	r := uint64(0)
	for _, x := range b[:8] {
		r = r<<8 | uint64(x)
	}
	return r
}

// Whatever was counted before, the first announce of a UDP tracker says so.
func VerifC33_Counts() {
	w := hNew(2, "udp://u1:99/announce")
	vs.DistinctRand(true)
	// not the torrent of the harness but one of any length
	total := int(vs.I64("total"))
	vs.Assume(total > 0)
	w.t.Length = total
	down, more, up := vs.U64("down"), vs.U64("more"), vs.U64("up")
	port := int(vs.U64("port") & 0xffff)
	m := NewMng(w.t, zap.NewNop(), 3, port)
	m.UpdateStatus(down, up)
	m.UpdateStatus(more, 0)
	ctx, cancel := context.WithCancel(context.Background())
	seen := 0
	w.udp = func(host string, n int) hUdp { return hUdp{} }
	w.announce = func(p []byte) {
		seen++
		d := down + more
		left := vs.IteU64(d >= uint64(total), 0, uint64(total)-d)
		ok := bytes.Equal(p[16:36], w.t.Hash)
		ok = vs.And(ok, c33be(p[56:]) == d)
		vs.Assert(ok, "downloaded")
		vs.Assert(c33be(p[64:]) == left, "left")
		vs.Assert(c33be(p[72:]) == up, "uploaded")
		vs.Assert(vs.And(p[96] == byte(port>>8), p[97] == byte(port)), "port")
		cancel2(cancel)
	}
	vs.Delays(0)
	w.run(m, ctx)
	vs.Assert(seen == 1, "not-announced")
	vs.Reach("announced")
}

// cancel2 cancels once the datagram was sent.
func cancel2(cancel func()) { go cancel() }

// Every announce of a whole download tells what is stored by then.
func VerifC33_History() {
	pieces := 2 + vs.Choose("pieces", vs.Bound("pieces", 2, 3))
	w := hNew(pieces, "http://t1/a?key=1", "http://t2/b")
	w.limit = 7
	a, b := hAddr(1, 6881), hAddr(2, 6881)
	w.kind[a.String()] = []int{hGood, hSlow, hFades, hChokes, hOneOnly}[vs.Choose("kind", 5)]
	w.kind[b.String()] = hOneOnly
	// one tracker, or both, answer some attempts with nothing
	fails, often := vs.Choose("attempt that fails", 4), 1+vs.Choose("more that fail", 2)
	both := vs.Choose("both", 2) == 1
	total := uint64(len(w.content))
	// what was stored when, as far as it is known; time passes only while all
	// goroutines wait
	vs.VirtualTime(true)
	type stored struct {
		at  time.Time
		all uint64
	}
	var log []stored
	note := func() (time.Time, uint64) {
		now := time.Now()
		all := w.c33bytes()
		if n := len(log); n == 0 || log[n-1].all != all {
			log = append(log, stored{now, all})
		}
		return now, all
	}
	m := NewMng(w.t, zap.NewNop(), w.limit, 51413)
	w.asking = func(u *url.URL) {
		q := u.Query()
		num := func(k string) uint64 {
			n, err := strconv.ParseUint(q.Get(k), 10, 64)
			vs.Assert(err == nil, "not-a-number")
			return n
		}
		vs.Assert(q.Get("info_hash") == string(w.t.Hash), "hash")
		vs.Assert(q.Get("port") == "51413", "port")
		vs.Assert(num("uploaded") == 9, "uploaded")
		now, all := note()
		var old uint64
		for _, x := range log {
			if now.Sub(x.at) >= 300*time.Millisecond {
				old = x.all
			}
		}
		d, l := num("downloaded"), num("left")
		// a block is counted just before or just after it is stored, and what
		// is left is read after what was downloaded
		vs.Assert(d >= 1 && d <= 1+all+4, "more-than-stored")
		vs.Assert(d >= 1+old, "less-than-stored")
		vs.Assert(l <= total-min(d, total), "too-much-left")
		vs.Assert(l+min(1+old, total) <= total, "too-much-left")
		vs.Assert(l+1+all+4 >= total, "too-little-left")
		if all > 0 {
			vs.Reach("later announce")
		}
	}
	w.answer = func(u string, n int) []byte {
		if n >= fails && n < fails+often && (both || u == "t2") {
			return nil
		}
		return hAnswer(1, []netip.AddrPort{a, b}...)
	}
	m.UpdateStatus(1, 9)
	vs.Delays(vs.Bound("delays", 0, 1))
	ops := vs.Bound("environment steps", 100, 200)
	ctx, cancel := context.WithCancel(context.Background())
	w.step = func() {
		note()
		ops--
		if ops == 0 {
			cancel2(cancel)
		}
	}
	w.run(m, ctx)
	cancel()
	vs.Reach("returned")
}
