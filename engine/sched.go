package main

// Scheduler for interpreted goroutines: one runs at a time; switches happen
// at synchronisation operations, each choice explored. Happens-before is
// tracked with vector clocks, so unsynchronised conflicting accesses (which a
// switch elsewhere could expose) are reported as races.

import (
	"fmt"
	"sort"
)

type Gor struct {
	id        int
	p         *Path
	wake      chan bool
	dead      bool
	enabled   func() bool // nil: runnable
	timer     bool        // waiting on a timer that may fire
	fired     bool
	lastFired int   // when its timer last fired
	due       *Term // when it will fire, if time is virtual
	vc        []uint32
	name      string
	depth     int
	where     string
	daemon    bool
	late      bool // has not started, and does not while others can go on
}

type shadow struct {
	wg   int
	wc   uint32
	wpos string
	rd   map[int]uint32
	rpos map[int]string
}

type syncState struct {
	locked  bool
	readers int
	n       int64 // waitgroup counter
	vc      []uint32
	rvc     []uint32
	waiters int
	conds   []*Gor
	val     Value
}

func (p *Path) newGor(name string) *Gor {
	g := &Gor{id: len(p.gors), p: p, wake: make(chan bool, 1), name: name}
	g.vc = make([]uint32, g.id+1)
	if p.cur != nil {
		g.vc = joinVC(g.vc, p.cur.vc)
		p.cur.tick()
	}
	g.tick()
	p.gors = append(p.gors, g)
	if len(p.gors) > 1 {
		p.multi = true
	}
	return g
}

func (g *Gor) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func joinVC(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func copyVC(a []uint32) []uint32 { return append([]uint32(nil), a...) }

func (p *Path) syncOf(a *Value) *syncState {
	s := p.sync[a]
	if s == nil {
		s = &syncState{}
		p.sync[a] = s
	}
	return s
}

func (g *Gor) acquire(vc []uint32) { g.vc = joinVC(g.vc, vc) }

func (g *Gor) release(vc []uint32) []uint32 {
	r := joinVC(copyVC(vc), g.vc)
	g.tick()
	return r
}

// schedPoint is called before a synchronisation operation that can proceed
// when enabled() holds.
func (p *Path) schedPoint(g *Gor, enabled func() bool, timer bool) {
	if !p.multi {
		if enabled == nil || enabled() {
			return
		}
		if timer {
			g.fired = true
			return
		}
		p.deadlock()
	}
	g.enabled = enabled
	g.timer = timer
	g.fired = false
	p.pick(g)
	g.enabled = nil
	g.timer = false
}

func (p *Path) runnable(g *Gor) bool {
	return !g.dead && (g.enabled == nil || g.enabled())
}

func (p *Path) deadlock() {
	msg := "deadlock:"
	for _, g := range p.gors {
		if !g.dead {
			msg += fmt.Sprintf(" [g%d %s blocked at %s]", g.id, g.name, g.where)
		}
	}
	if !p.noDead {
		p.violation("deadlock", msg, "", "")
	}
	panic(pathEnd{"deadlock"})
}

// pick chooses who runs next; called by the running goroutine g.
func (p *Path) pick(g *Gor) {
	var cand []*Gor
	self := !g.dead && p.runnable(g)
	if p.delayMode {
		p.pickDelay(g, self)
		return
	}
	if self {
		cand = append(cand, g)
	}
	if !self || p.preempt < p.maxPre {
		for _, o := range p.gors {
			if o != g && p.runnable(o) {
				cand = append(cand, o)
			}
		}
	}
	// timers may also fire early, within a budget
	nrun := len(cand)
	if nrun == 0 || p.timerBud > 0 {
		for _, o := range p.gors {
			if !o.dead && o.timer && !p.runnable(o) {
				cand = append(cand, o)
			}
		}
	}
	if len(cand) == 0 {
		p.deadlock()
	}
	c := 0
	if len(cand) > 1 {
		c = p.choose("sched", len(cand))
	}
	t := cand[c]
	if c >= nrun {
		t.fired = true
		if nrun > 0 {
			p.timerBud--
		}
	}
	if self && t != g {
		p.preempt++
	}
	p.switchTo(g, t)
}

// pickDelay is delay-bounded scheduling: the running goroutine goes on while
// it can, then the next in turn runs; when nobody can, the timer that has not
// fired for longest does. Every deviation from this costs one delay. Within
// a budget of their own, new goroutines start only when no other can go on.
func (p *Path) pickDelay(g *Gor, self bool) {
	var cand, timers []*Gor
	if self {
		cand = append(cand, g)
	}
	var late []*Gor
	for k := 1; k <= len(p.gors); k++ {
		o := p.gors[(g.id+k)%len(p.gors)]
		if o == g || !p.runnable(o) {
			continue
		}
		if o.late {
			late = append(late, o)
		} else {
			cand = append(cand, o)
		}
	}
	if len(cand) == 0 {
		cand = late
	}
	for _, o := range p.gors {
		if !o.dead && o.timer && !p.runnable(o) {
			timers = append(timers, o)
		}
	}
	sort.SliceStable(timers, func(i, j int) bool { return timers[i].lastFired < timers[j].lastFired })
	if p.virtual && len(timers) > 0 {
		if len(cand) > 0 {
			timers = nil // time passes only when all wait
		} else {
			first := timers[0]
			for _, o := range timers[1:] {
				if o.due != first.due && p.fork(p.w.tb.Slt(o.due, first.due)) {
					first = o
				}
			}
			timers = []*Gor{first}
		}
	}
	nrun := len(cand)
	cand = append(cand, timers...)
	if len(cand) == 0 {
		p.deadlock()
	}
	c := 0
	if len(cand) > 1 && p.delayBud > 0 {
		if c = p.choose("sched", len(cand)); c > 0 {
			p.delayBud--
		}
	}
	t := cand[c]
	t.late = false
	if c >= nrun {
		t.fired = true
		p.fires++
		t.lastFired = p.fires
	}
	p.switchTo(g, t)
}

func (p *Path) switchTo(g, t *Gor) {
	p.sched = append(p.sched, t.id)
	if t == g {
		return
	}
	p.cur = t
	t.wake <- false
	if g.dead {
		return
	}
	if <-g.wake {
		g.dead = true
		panic(pathKill{})
	}
}

func (p *Path) gorExit(g *Gor) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case pathEnd:
			p.finish()
		case pathKill:
		case unsupportedErr:
			p.e.addInconc(r.msg)
			p.finish()
		default:
			p.e.addInconc(fmt.Sprint("internal: ", r))
			p.finish()
		}
	}()
	g.dead = true
	p.pick(g)
}

// --- races

func (fr *Frame) access(c *Value, write bool) {
	p := fr.p
	if !p.multi || !p.races || c == nil {
		return
	}
	switch v := (*c).(type) {
	case Struct:
		for i := range v {
			fr.access(&v[i], write)
		}
		return
	case Array:
		for i := range v {
			fr.access(&v[i], write)
		}
		return
	}
	g := fr.g
	s := p.shadow[c]
	if s == nil {
		s = &shadow{wg: -1}
		p.shadow[c] = s
	}
	report := func(og int, pos string, kind string) {
		p.violation("race", fmt.Sprintf("data race: g%d at %s and g%d at %s (%s)", g.id, fr.pos(), og, pos, kind), fr.pos(), "")
		panic(pathEnd{"race"})
	}
	if s.wg >= 0 && s.wg != g.id && (s.wg >= len(g.vc) || g.vc[s.wg] < s.wc) {
		report(s.wg, s.wpos, "earlier write")
	}
	if write {
		for og, c := range s.rd {
			if og != g.id && (og >= len(g.vc) || g.vc[og] < c) {
				report(og, s.rpos[og], "earlier read")
			}
		}
		s.wg, s.wc, s.wpos = g.id, g.vc[g.id], fr.pos()
		s.rd, s.rpos = nil, nil
	} else {
		if s.rd == nil {
			s.rd, s.rpos = map[int]uint32{}, map[int]string{}
		}
		s.rd[g.id] = g.vc[g.id]
		s.rpos[g.id] = fr.pos()
	}
}

// --- channels

type chanMsg struct {
	v  Value
	vc []uint32
}

type ChanObj struct {
	cap    int
	buf    []chanMsg
	closed bool
	cvc    []uint32
	sendq  []*sendWait
	recvW  int // receivers blocked on an unbuffered channel
	timer  bool
	id     int
	slots  [][]uint32 // release clocks of receives (for buffered capacity)
	sent   int
	reqs   []*recvReq
	due    *Term
	period *Term
	afn    Value
}

type sendWait struct {
	v    Value
	vc   []uint32
	done bool
	dvc  []uint32
}

type recvReq struct {
	g    *Gor
	done bool
	v    chanMsg
	ok   bool
}

// Unbuffered channels are modelled as rendezvous: a send completes when a
// receiver takes the value. A sender publishes its value in sendq and waits
// until it is taken (or the channel is closed: panic).

func (fr *Frame) chanSend(c *ChanObj, v Value) {
	p, g := fr.p, fr.g
	g.where = "send at " + fr.pos()
	if c == nil {
		p.schedPoint(g, func() bool { return false }, false)
		return
	}
	if c.cap > 0 {
		p.schedPoint(g, func() bool { return c.closed || len(c.buf) < c.cap }, false)
		if c.closed {
			fr.rtPanic("send on closed channel")
		}
		// k-th receive happens before the (k+cap)-th send completes
		if i := c.sent - c.cap; i >= 0 && i < len(c.slots) {
			g.acquire(c.slots[i])
		}
		c.sent++
		c.buf = append(c.buf, chanMsg{copyVal(v), g.release(nil)})
		return
	}
	p.schedPoint(g, nil, false)
	if c.closed {
		fr.rtPanic("send on closed channel")
	}
	sw := &sendWait{v: copyVal(v), vc: g.release(nil)}
	c.sendq = append(c.sendq, sw)
	p.schedPoint(g, func() bool { return sw.done || c.closed }, false)
	if !sw.done {
		fr.rtPanic("send on closed channel")
	}
	g.acquire(sw.dvc)
}

func (c *ChanObj) canRecv() bool {
	return c != nil && (len(c.buf) > 0 || c.closed || len(c.sendq) > 0)
}

// take performs an enabled receive.
func (fr *Frame) chanTake(c *ChanObj) (Value, bool) {
	g := fr.g
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf = c.buf[1:]
		g.acquire(m.vc)
		c.slots = append(c.slots, g.release(nil))
		return m.v, true
	}
	if len(c.sendq) > 0 {
		sw := c.sendq[0]
		c.sendq = c.sendq[1:]
		g.acquire(sw.vc)
		sw.dvc = g.release(nil)
		sw.done = true
		return sw.v, true
	}
	g.acquire(c.cvc)
	return nil, false
}

func (fr *Frame) chanRecv(c *ChanObj, zero Value) (Value, bool) {
	p, g := fr.p, fr.g
	g.where = "receive at " + fr.pos()
	if c == nil {
		p.schedPoint(g, func() bool { return false }, false)
	}
	c.recvW++
	g.due = c.due
	p.schedPoint(g, func() bool { return c.canRecv() }, c.timer)
	c.recvW--
	if c.timer && !c.canRecv() {
		p.timerFired(fr, c)
		return fr.timeNow(), true
	}
	v, ok := fr.chanTake(c)
	if !ok {
		return zero, false
	}
	return v, true
}

func (fr *Frame) chanClose(c *ChanObj) {
	p, g := fr.p, fr.g
	p.schedPoint(g, nil, false)
	if c == nil {
		fr.rtPanic("close of nil channel")
	}
	if c.closed {
		fr.rtPanic("close of closed channel")
	}
	c.closed = true
	c.cvc = g.release(c.cvc)
}
