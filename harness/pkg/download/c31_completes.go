package download

//verif:use help.go

import (
	"context"
	"net/netip"

	"github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
)

var c31bad = []int{hDies, hStalls, hChokes, hFades, hSlow, hIdle, hRefuse, hWrong, hSilent, hOneOnly}

// c31go downloads; it has to get everything before too much has happened.
func (w *hWorld) c31go(label string) {
	ops := vs.Bound("environment steps", 150, 300)
	if !vs.Symbolic() {
		ops *= 4 // there the steps of the peers do not alternate
	}
	vs.MaxSteps(20000000)
	w.step = func() {
		ops--
		if ops == 0 {
			vs.Fail(label)
		}
	}
	shows := vs.Bound("seconds", 500, 1000)
	w.shown = func([]byte) { // once a second
		shows--
		if shows == 0 {
			vs.Fail(label)
		}
	}
	m := w.mng()
	w.run(m, context.Background())
	vs.Assert(w.allStored(), "returned-before-complete")
	vs.Reach("complete")
	w.step = nil
	m.Stop()
	vs.Assert(w.opens == 0, "connection-left-open")
}

// A good peer beside one that is not.
func VerifC31_Beside() {
	w := hNew(1+vs.Choose("pieces", vs.Bound("pieces", 2, 3)), "http://t1/a")
	a, b := hAddr(1, 6881), hAddr(2, 6881)
	w.kind[a.String()] = c31bad[vs.Choose("kind", len(c31bad))]
	both := []netip.AddrPort{a, b}
	if vs.Choose("order", 2) == 1 {
		both = []netip.AddrPort{b, a}
	}
	w.answer = func(u string, n int) []byte { return hAnswer(1, both...) }
	vs.Delays(vs.Bound("delays", 1, 2))
	w.c31go("download-does-not-complete")
}

// The good peer is reported later, or by another tracker.
func VerifC31_Later() {
	n := 1 + vs.Choose("pieces", vs.Bound("pieces", 2, 3))
	two := vs.Choose("trackers", 2) == 1
	var w *hWorld
	if two {
		w = hNew(n, "http://t1/a", "http://t2/a")
	} else {
		w = hNew(n, "http://t1/a")
	}
	a, b := hAddr(1, 6881), hAddr(2, 6881)
	w.kind[a.String()] = c31bad[vs.Choose("kind", len(c31bad))]
	w.answer = func(u string, n int) []byte {
		switch {
		case two && u == "t1":
			return hAnswer(1, a)
		case two:
			return hAnswer(1, b)
		case n == 1:
			return hAnswer(1, a)
		}
		return hAnswer(1, a, b)
	}
	vs.Delays(vs.Bound("delays", 1, 2))
	w.c31go("download-does-not-complete")
}

// The pool has room for one: whoever is not connected makes room, and the
// same address may be good the next time.
func VerifC31_Room() {
	w := hNew(2, "http://t1/a")
	w.limit = 1
	a, b := hAddr(1, 6881), hAddr(2, 6881)
	k := []int{hDies, hFades, hRefuse, hWrong, hSilent}[vs.Choose("kind", 5)]
	same := vs.Choose("same", 2) == 1
	w.kindAt = func(addr string, n int) int {
		if addr == a.String() && (!same || n <= 1) {
			return k
		}
		return hGood
	}
	w.answer = func(u string, n int) []byte {
		if n == 1 || same {
			return hAnswer(1, a)
		}
		return hAnswer(1, b)
	}
	vs.Delays(vs.Bound("delays", 1, 2))
	w.c31go("download-does-not-complete")
}

// Two peers that leave and a third.
func VerifC31_Three() {
	w := hNew(2, "http://t1/a")
	a, b, c := hAddr(1, 6881), hAddr(2, 6881), hAddr(3, 6881)
	kinds := []int{hDies, hStalls, hChokes, hFades, hOneOnly}
	w.kind[a.String()] = kinds[vs.Choose("kind", len(kinds))]
	w.kind[b.String()] = kinds[vs.Choose("kind", len(kinds))]
	w.answer = func(u string, n int) []byte { return hAnswer(1, a, b, c) }
	vs.Delays(vs.Bound("delays", 0, 1))
	w.c31go("download-does-not-complete")
}

// A peer sends wrong data for a piece.
func VerifC31_Corrupt() {
	w := hNew(2, "http://t1/a")
	a, b := hAddr(1, 6881), hAddr(2, 6881)
	w.kind[a.String()] = hCorrupt
	w.answer = func(u string, n int) []byte { return hAnswer(1, a, b) }
	vs.Delays(0)
	w.c31go("corrupt-piece-given-up")
}

// A write fails once.
func VerifC31_WriteFails() {
	w := hNew(2, "http://t1/a")
	a := hAddr(1, 6881)
	w.answer = func(u string, n int) []byte { return hAnswer(1, a) }
	ffs.WriteFails = 1
	vs.Delays(0)
	w.c31go("unwritten-piece-given-up")
}

// The tracker fails for a while, in any way.
func VerifC31_Tracker() {
	w := hNew(1+vs.Choose("pieces", 2), "http://t1/a")
	a := hAddr(1, 6881)
	k := []int{1, 4, 5, 6, 11}[vs.Choose("failures", 5)]
	bad := [][]byte{nil, []byte("<html>"), []byte("d14:failure reason4:busye"), hAnswer(1), []byte("de"), []byte("d5:peersle8:intervali-1ee"), []byte("d8:interval")}
	how := vs.Choose("how", len(bad)+2)
	w.answer = func(u string, n int) []byte {
		switch {
		case n > k:
			return hAnswer(1, a)
		case how < len(bad):
			return bad[how]
		case how == len(bad): // another way each time
			return bad[(n-1)%4]
		}
		hStatus = 503
		return []byte("busy")
	}
	vs.Delays(vs.Bound("delays", 0, 1))
	w.c31go("download-does-not-complete")
}

// A UDP tracker that cannot be reached, does not answer or answers late for a
// while.
func VerifC31_Udp() {
	w := hNew(1+vs.Choose("pieces", 2), "udp://u1:99/announce")
	a := hAddr(1, 6881)
	vs.DistinctRand(true)
	how := vs.Choose("how", 5)
	k := []int{1, 4, 5, 6}[vs.Choose("failures", 4)]
	if how == 0 {
		w.unreach = k
		k = 0
	}
	w.udp = func(host string, n int) hUdp {
		if n > k {
			return hUdp{peers: []netip.AddrPort{a}}
		}
		return []hUdp{{}, {mute: true}, {late: true}, {fail: true}, {mute: n%2 == 0, late: n%2 == 1}}[how]
	}
	vs.Delays(vs.Bound("delays", 0, 1))
	w.c31go("download-does-not-complete")
	vs.Assert(w.trackers == 0, "socket-left-open")
}
