package download

//verif:use help.go

import (
	"context"
	"net/netip"
	"net/url"
	"time"

	"github.com/anivanovic/gotit/internal/verif/vs"
)

// c34 watches when trackers are asked.
type c34 struct {
	asked  map[string]time.Time // when last
	wait   map[string]time.Duration
	failed map[string]int // attempts that failed since
	ops    int
	cancel func()
}

// slack is how much later than due a tracker may be asked.
const c34slack = 4 * time.Second

func (c *c34) ask(u string) {
	now := time.Now()
	last, again := c.asked[u]
	c.asked[u] = now
	if again {
		d := now.Sub(last)
		w := c.wait[u]
		if c.failed[u] > 0 {
			vs.Assert(d >= time.Second, "failed-attempts-in-a-row")
			vs.Reach("after failure")
		} else {
			vs.Assert(d >= w, "asked-too-early")
			vs.Assert(d <= w+c34slack, "asked-too-late")
			vs.Reach("after answer")
		}
	}
	c.ops--
	if c.ops == 0 {
		vs.Reach("enough")
		go c.cancel()
	}
}

func c34new(trackers ...string) (*hWorld, *c34, context.Context) {
	w := hNew(2, trackers...)
	vs.VirtualTime(true)
	vs.Delays(vs.Bound("delays", 0, 1))
	vs.MaxSteps(20000000)
	ctx, cancel := context.WithCancel(context.Background())
	c := &c34{asked: map[string]time.Time{}, wait: map[string]time.Duration{}, failed: map[string]int{}, cancel: cancel}
	return w, c, ctx
}

func (w *hWorld) c34run(ctx context.Context) {
	m := w.mng()
	w.run(m, ctx)
	m.Stop()
}

// An HTTP tracker that states any interval, then another.
func VerifC34_Http() {
	w, c, ctx := c34new("http://t1/a")
	c.ops = vs.Bound("announces", 4, 6)
	max := uint64(vs.Bound("seconds", 6, 20))
	a := hAddr(1, 6881)
	w.kind[a.String()] = []int{hRefuse, hOneOnly, hIdle}[vs.Choose("kind", 3)]
	w.asking = func(u *url.URL) { c.ask(u.Host) }
	w.answer = func(u string, n int) []byte {
		s := vs.U64("interval")
		vs.Assume(s >= 1)
		vs.Assume(s <= max)
		k := 1
		for uint64(k) < s {
			k++
		}
		c.wait[u] = time.Duration(k) * time.Second
		if n%2 == 1 {
			return hAnswer(k, []netip.AddrPort{a}...)
		}
		return hAnswer(k)
	}
	w.c34run(ctx)
}

// A UDP tracker that states any interval; what the datagram says is symbolic.
func VerifC34_Udp() {
	vs.DistinctRand(true)
	w, c, ctx := c34new("udp://u1:99/a")
	c.ops = vs.Bound("udp announces", 3, 5)
	max := uint32(vs.Bound("seconds", 6, 20))
	asking := false
	w.announce = func(p []byte) {
		c.ask("u1")
		asking = true
	}
	w.udp = func(host string, n int) hUdp {
		if !asking {
			return hUdp{} // connecting
		}
		asking = false
		s := vs.U32("interval")
		vs.Assume(s >= 1)
		vs.Assume(s <= max)
		c.wait["u1"] = time.Duration(s) * time.Second
		return hUdp{interval: s}
	}
	w.c34run(ctx)
}

// Two trackers, one of which fails between its answers: each keeps its pace.
func VerifC34_Failures() {
	w, c, ctx := c34new("http://t1/a", "http://t2/a")
	c.ops = vs.Bound("announces", 14, 24)
	good := 1 + vs.Choose("answers", 2)
	bad := vs.Choose("failures", 7)
	how := vs.Choose("how", 3)
	w.asking = func(u *url.URL) { c.ask(u.Host) }
	w.answer = func(u string, n int) []byte {
		k := 2
		if u == "t2" {
			k = 3
		}
		if u == "t2" && n%(good+bad) >= good {
			c.failed[u]++
			return [][]byte{nil, []byte("d14:failure reason4:busye"), []byte("<html>")}[how]
		}
		c.failed[u] = 0
		c.wait[u] = time.Duration(k) * time.Second
		return hAnswer(k)
	}
	w.c34run(ctx)
}
