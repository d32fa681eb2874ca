package download

//verif:use help.go

import (
	"context"
	"net/netip"

	"github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
)

// c21end checks what must hold once the download has returned.
func (w *hWorld) c21end() {
	for i := range w.passed {
		vs.Assert(w.stored(i), "verified-block-not-stored")
	}
	vs.Assert(w.trackers == 0, "socket-left-open")
}

func c21world(n int) *hWorld {
	w := hNew(n, "http://t1/a")
	a, b := hAddr(1, 6881), hAddr(2, 6881)
	w.answer = func(u string, n int) []byte { return hAnswer(1, a, b) }
	return w
}

// c21udp is the same with a UDP tracker.
func c21udp(n int) *hWorld {
	w := hNew(n, "udp://u1:99/announce")
	vs.DistinctRand(true)
	a, b := hAddr(1, 6881), hAddr(2, 6881)
	w.udp = func(u string, n int) hUdp { return hUdp{peers: []netip.AddrPort{a, b}, late: n == 1, mute: n == 2} }
	return w
}

// Everything arrives: the download returns by itself.
func VerifC21_Complete() {
	n := 1 + vs.Choose("pieces", vs.Bound("pieces", 2, 3))
	w := c21world(n)
	w.kind[hAddr(2, 6881).String()] = vs.Choose("other", 5)
	m := w.mng()
	vs.Delays(vs.Bound("delays", 1, 2))
	w.run(m, context.Background())
	vs.Assert(w.allStored(), "returned-before-complete")
	w.c21end()
	vs.Reach("complete")
	if vs.Choose("stop", 2) == 1 {
		m.Stop()
		vs.Assert(w.opens == 0, "connection-left-open")
		m.Stop()
	}
}

// Cancelling or stopping at any point of what happens outside.
func VerifC21_AnyMoment() {
	w := c21world(2)
	c21moment(w, vs.Choose("other", 5), false)
}

// The same with a UDP tracker.
func VerifC21_AnyMomentUdp() {
	w := c21udp(2)
	w.unreach = vs.Choose("unreachable", 2)
	c21moment(w, vs.Choose("other", vs.Bound("other peers", 2, 5)), false)
}

// One of the goroutines starts late.
func VerifC21_LateStart() {
	w := c21world(2)
	c21moment(w, vs.Choose("other", 5), true)
}

func c21moment(w *hWorld, other int, late bool) {
	w.kind[hAddr(2, 6881).String()] = other
	stop := vs.Choose("stop", 2) == 1
	at := vs.Choose("at", vs.Bound("environment steps", 14, 24))
	ctx, cancel := context.WithCancel(context.Background())
	m := w.mng()
	fin := make(chan bool)
	ops, asked := 0, false
	ask := func() {
		asked = true
		go func() {
			if stop {
				m.Stop()
			} else {
				cancel()
			}
			close(fin)
		}()
	}
	w.step = func() {
		if ops == at && !asked {
			ask()
		}
		ops++
	}
	if late {
		vs.Delays(0)
		vs.LateStarts(vs.Bound("late starts", 1, 2))
	} else {
		vs.Delays(vs.Bound("delays", 1, 2))
	}
	w.run(m, ctx)
	w.c21end()
	if !asked {
		ask()
	}
	<-fin
	if stop {
		vs.Assert(w.opens == 0, "connection-left-open")
	}
	vs.Reach("end")
}

// Stopping while starting.
func VerifC21_Start() {
	w := c21world(1)
	w.kind[hAddr(2, 6881).String()] = hIdle
	ctx, cancel := context.WithCancel(context.Background())
	m := w.mng()
	mode := vs.Choose("mode", 5)
	vs.Delays(vs.Bound("delays", 2, 3))
	fin := make(chan bool, 2)
	switch mode {
	case 0: // cancelled before it starts
		cancel()
		fin <- true
		fin <- true
	case 1: // stopped before it starts
		m.Stop()
		fin <- true
		fin <- true
	case 2:
		go func() { m.Stop(); fin <- true }()
		fin <- true
	case 3:
		go func() { m.Stop(); fin <- true }()
		go func() { m.Stop(); fin <- true }()
	case 4:
		go func() { m.Stop(); fin <- true }()
		go func() { cancel(); fin <- true }()
	}
	w.run(m, ctx)
	w.c21end()
	<-fin
	<-fin
	if mode != 0 {
		vs.Assert(w.opens == 0, "connection-left-open")
	}
	cancel()
	vs.Reach("end")
}

// A slow disk: blocks wait to be written when the download is stopped.
func VerifC21_SlowDisk() {
	w := c21world(3)
	w.kind[hAddr(2, 6881).String()] = hGood
	ctx, cancel := context.WithCancel(context.Background())
	m := w.mng()
	gate := make(chan bool)
	ffs.Before = func() { <-gate }
	ffs.WriteFails = 1
	at := vs.Choose("at", 3)
	got := 0
	w.delivered = func() {
		if got == at {
			go func() {
				cancel()
				close(gate)
			}()
		}
		got++
	}
	vs.Delays(vs.Bound("delays", 1, 2))
	w.run(m, ctx)
	lost := 0
	for i := range w.passed {
		if !w.stored(i) {
			lost++
		}
	}
	vs.Assert(lost <= ffs.Failed, "verified-block-not-stored")
	vs.Reach("end")
}
