package main

// Path exploration: every path is an execution of the harness from the start
// that follows a prefix of recorded decisions; beyond the prefix each
// symbolic branch asks the solver whether the other side is feasible and, if
// so, queues it.

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

// pathEnd unwinds a path that is finished early (infeasible assumption, ...).
type pathEnd struct{ why string }

type pathKill struct{}

type Decision struct {
	K     uint8 // 0 fork, 1 concretize, 2 choose, 3 forced fork (other side infeasible)
	V     uint64
	N     int32 // choose: number of options
	Taken bool
	Note  string // debugging (GOSYM_NONDET)
}

type WorkItem struct {
	dec   []Decision
	model Model
}

type Violation struct {
	Harness string
	Label   string
	Msg     string
	Pos     string
	Values  map[string]uint64 // by harness-visible name
	Sched   []int
	Multi   bool // more than one goroutine existed
	Dec     []Decision
	Stack   string
}

type Harness struct {
	Name string
	Fn   *ssa.Function
}

type Engine struct {
	prog     *ssa.Program
	ld       *Loaded
	harness  *Harness
	thorough bool
	deadline time.Time
	workers  int

	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*WorkItem
	busy     int
	stop     bool
	timedOut bool
	short    bool

	viol      map[string][]*Violation
	maxPer    int
	inconc    map[string]int
	reach     map[string]int
	paths     int64
	infeas    int64
	queriesA  int64 // assertion queries
	steps     int64
	funcs     sync.Map // *ssa.Function -> bool
	bounds    map[string]string
	sampleErr string
	maxPaths  int64
	trace     bool
	knownLbl  map[string]bool
	models    []*Violation // models of some completed paths, for native cross-checking
	completed int64
}

// sample keeps the model of a completed path now and then.
func (p *Path) sample() {
	n := atomic.AddInt64(&p.e.completed, 1)
	if n > 8 && n&(n-1) != 0 && n%97 != 0 {
		return
	}
	v := &Violation{Harness: p.e.harness.Name, Values: map[string]uint64{}, Multi: len(p.gors) > 1}
	for _, nv := range p.named {
		v.Values[nv.name] = p.eval(nv.t)
	}
	p.e.mu.Lock()
	if len(p.e.models) < 24 {
		p.e.models = append(p.e.models, v)
	}
	p.e.mu.Unlock()
}

func NewEngine(ld *Loaded, h *Harness, thorough bool) *Engine {
	e := &Engine{prog: ld.prog, ld: ld, harness: h, thorough: thorough, workers: 8,
		viol: map[string][]*Violation{}, inconc: map[string]int{}, reach: map[string]int{}, bounds: map[string]string{},
		maxPer: 6, maxPaths: 2_000_000}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Engine) push(it *WorkItem) {
	e.mu.Lock()
	e.stack = append(e.stack, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) pop() *WorkItem {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) || atomic.LoadInt64(&e.paths) > e.maxPaths {
			if !e.stop && (len(e.stack) > 0 || e.busy > 0) {
				e.timedOut = true
			}
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		if n := len(e.stack); n > 0 {
			it := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.busy++
			return it
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) release() {
	e.mu.Lock()
	e.busy--
	if e.busy == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Engine) addViolation(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.viol[v.Label]) < e.maxPer {
		e.viol[v.Label] = append(e.viol[v.Label], v)
	}
	n := 0
	for l, vs := range e.viol {
		if !e.knownLbl[l] {
			n += len(vs)
		}
	}
	if n >= 12 {
		e.stop = true
		e.cond.Broadcast()
	} else if n > 0 && !e.short {
		// a violation: look a little further, for a clearer one, but not long
		e.short = true
		if d := time.Now().Add(afterViolation); d.Before(e.deadline) {
			e.deadline = d
			atomic.StoreInt64(&queryLimit, d.Add(3*time.Second).UnixNano())
			time.AfterFunc(afterViolation, func() { e.cond.Broadcast() })
		}
	}
}

const afterViolation = 20 * time.Second

func (e *Engine) addInconc(msg string) {
	e.mu.Lock()
	e.inconc[msg]++
	e.mu.Unlock()
}

func (e *Engine) Run() {
	e.stack = []*WorkItem{{model: Model{}}}
	var wg sync.WaitGroup
	tick := time.AfterFunc(time.Until(e.deadline), func() { e.cond.Broadcast() })
	defer tick.Stop()
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := NewWorker(e)
			if w == nil {
				e.addInconc("solver did not start")
				return
			}
			defer func() { w.solver.Close() }()
			for {
				it := e.pop()
				if it == nil {
					return
				}
				if w.tb.nextID > 4_000_000 {
					w.solver.Close()
					w = NewWorker(e)
				}
				w.runPath(it)
				e.release()
			}
		}()
	}
	// a worker caught in something long is left behind
	fin := make(chan bool)
	go func() {
		wg.Wait()
		close(fin)
	}()
	for {
		select {
		case <-fin:
			return
		case <-time.After(time.Second):
			e.mu.Lock()
			late := time.Since(e.deadline) > 30*time.Second
			if late {
				e.timedOut, e.stop = true, true
			}
			e.mu.Unlock()
			if late {
				return
			}
		}
	}
}

type Worker struct {
	e       *Engine
	tb      *TermBuilder
	solver  *Solver
	consts  map[*ssa.Const]Value
	globals map[*ssa.Global]*Value // non-repo packages, kept across paths
	inited  map[*ssa.Package]int
	methods map[string]*ssa.Function
	ev      Evaluator
	natID   int
	uniq    map[string]*Value
	vcache  map[*Term][]*Term
	qcache  map[string]qres
	divMemo map[int]bool
}

func NewWorker(e *Engine) *Worker {
	s, err := NewSolver("z3", 5000)
	if err != nil {
		return nil
	}
	w := &Worker{e: e, tb: NewTB(), solver: s, consts: map[*ssa.Const]Value{}, globals: map[*ssa.Global]*Value{},
		inited: map[*ssa.Package]int{}, methods: map[string]*ssa.Function{}, uniq: map[string]*Value{},
		vcache: map[*Term][]*Term{}, divMemo: map[int]bool{}, qcache: map[string]qres{}}
	w.ev.tb = w.tb
	return w
}

type namedVar struct {
	name string
	t    *Term
}

type hashApp struct {
	segs []hashSeg // of symbolic length
	in   []*Term
	big  []Value // for big inputs: *BigSlice segments
	out  []*Term
	key  string
}

type Path struct {
	w      *Worker
	e      *Engine
	prefix []Decision
	pos    int
	trace  []Decision
	pc     []*Term
	pcSet  map[*Term]bool
	byVar  map[*Term][]*Term
	vars   []*Term
	named  []namedVar
	names  map[string]int
	steps  int64
	maxSt  int64

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int

	// scheduler
	gors         []*Gor
	cur          *Gor
	multi        bool
	sched        []int
	preempt      int
	maxPre       int
	doneCh       chan struct{}
	ended        bool
	endMu        sync.Mutex
	killWG       sync.WaitGroup
	shadow       map[*Value]*shadow
	races        bool
	mapOrder     bool
	clock        *Term
	minClock     *Term
	lastTimer    *Term // duration of the timer made last
	distinctRand bool
	rands        []*Term
	frozen       bool
	timerBud     int
	virtual      bool // timers fire in the order they are due
	delayMode    bool
	lateBud      int
	delayBud     int
	fires        int
	noDead       bool

	sync    map[*Value]*syncState
	atomVal map[*Value]*Value
	hashes  []*hashApp
	defs    map[*Term]*Term // variables with a known value

	bigSeq  int
	alloc   int64 // allocation limit (0: none)
	lastPos func() string
	extra   map[string]Value
	depth   int
	fresh   int
}

func (w *Worker) runPath(it *WorkItem) {
	e := w.e
	p := &Path{w: w, e: e, prefix: it.dec, names: map[string]int{}, globals: map[*ssa.Global]*Value{},
		inited: map[*ssa.Package]int{}, doneCh: make(chan struct{}), sync: map[*Value]*syncState{},
		shadow: map[*Value]*shadow{}, maxSt: 3_000_000, maxPre: 1 << 30, extra: map[string]Value{}, pcSet: map[*Term]bool{}, byVar: map[*Term][]*Term{}}
	m := make(Model, len(it.model))
	for k, v := range it.model {
		m[k] = v
	}
	w.ev.setModel(m)
	atomic.AddInt64(&e.paths, 1)
	main := p.newGor("main")
	p.cur = main
	p.killWG.Add(1)
	go p.gorMain(main, e.harness.Fn, nil)
	main.wake <- false
	<-p.doneCh
	// unwind the others
	for _, g := range p.gors {
		if !g.dead {
			g.wake <- true
		}
	}
	p.killWG.Wait()
	atomic.AddInt64(&e.steps, p.steps)
	if os.Getenv("GOSYM_PATHS") != "" {
		fmt.Fprintf(os.Stderr, "path %d: dec=%d pc=%d steps=%d vars=%d terms=%d\n", atomic.LoadInt64(&e.paths), len(p.trace), len(p.pc), p.steps, len(p.vars), w.tb.nextID)
	}
}

// finish ends the path (called by the running goroutine, once).
func (p *Path) finish() {
	p.endMu.Lock()
	defer p.endMu.Unlock()
	if !p.ended {
		p.ended = true
		close(p.doneCh)
	}
}

func (p *Path) gorMain(g *Gor, fnv Value, args []Value) {
	defer p.killWG.Done()
	kill := <-g.wake
	if kill {
		g.dead = true
		return
	}
	func() {
		defer func() {
			r := recover()
			g.dead = true
			switch r := r.(type) {
			case nil:
				return
			case pathKill:
				return
			case pathEnd:
				p.finish()
			case targetPanic:
				p.violation("panic", "panic: "+p.panicString(g, r), r.pos, r.stack)
				p.finish()
			case unsupportedErr:
				p.e.addInconc(r.msg)
				p.finish()
			default:
				msg := fmt.Sprint(r)
				if re, ok := r.(runtime.Error); ok {
					msg = re.Error()
				}
				st := string(debug.Stack())
				p.e.mu.Lock()
				if p.e.sampleErr == "" {
					p.e.sampleErr = msg + "\n" + st
				}
				p.e.mu.Unlock()
				p.e.addInconc("internal: " + msg)
				p.finish()
			}
		}()
		fr := &Frame{p: p, w: p.w, g: g}
		p.call(fr, fnv, args, nil)
		if g.id == 0 {
			p.sample()
			p.finish()
			return
		}
	}()
	if p.ended {
		return
	}
	// goroutine finished normally: hand over
	p.gorExit(g)
}

func (p *Path) panicString(g *Gor, tp targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	if i, ok := tp.v.(Iface); ok && i.t != nil {
		if st, ok := i.v.(Str); ok {
			return st.s
		}
		return i.t.String()
	}
	return "nil"
}

func (p *Path) eval(t *Term) uint64 { return p.w.ev.eval(t) }

func (p *Path) addPC(t *Term) {
	if t.isTrue() || p.pcSet[t] {
		return
	}
	p.pcSet[t] = true
	p.pc = append(p.pc, t)
	p.index(t)
}

// newVar introduces a symbolic variable, named for replay.
func (p *Path) newVar(name string, wd uint8, lo, hi uint64) *Term {
	k := p.names[name]
	p.names[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	return p.newVarExact(full, wd, lo, hi)
}

func (p *Path) newVarExact(full string, wd uint8, lo, hi uint64) *Term {
	t := p.w.tb.VarRange(full, wd, lo, hi)
	p.vars = append(p.vars, t)
	p.named = append(p.named, namedVar{full, t})
	if isBV(wd) {
		if lo > 0 {
			p.addRaw(p.w.tb.raw(OUle, SBool, 0, p.w.tb.BV(wd, lo), t, nil))
			if p.w.ev.m[t.name] < lo {
				p.w.ev.m[t.name] = lo
				p.w.ev.setModel(p.w.ev.m)
			}
		}
		if hi < mask(wd) {
			p.addRaw(p.w.tb.raw(OUle, SBool, 0, t, p.w.tb.BV(wd, hi), nil))
		}
	}
	return t
}

func (p *Path) addRaw(t *Term) {
	if !p.pcSet[t] {
		p.pcSet[t] = true
		p.pc = append(p.pc, t)
		p.index(t)
	}
}

// feasible asks the solver for pc ∧ c.
func (p *Path) check(c *Term) (SatResult, Model) {
	w := p.w
	if v, ok := p.linear(c); ok && !v {
		return Unsat, nil
	}
	// only the conjuncts connected with c through shared variables matter:
	// the others are satisfied by the current model
	need := map[*Term]bool{}
	var todo []*Term
	add := func(t *Term) {
		for _, v := range w.varsOf(t) {
			if !need[v] {
				need[v] = true
				todo = append(todo, v)
			}
		}
	}
	add(c)
	inc := map[*Term]bool{}
	for len(todo) > 0 {
		v := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, t := range p.byVar[v] {
			if !inc[t] {
				inc[t] = true
				add(t)
			}
		}
	}
	rel := make([]*Term, 0, len(inc))
	key := make([]byte, 0, 8*len(inc)+8)
	for _, t := range p.pc {
		if inc[t] {
			rel = append(rel, t)
			key = appendID(key, t.id)
		}
	}
	key = appendID(key, c.id)
	if r, ok := w.qcache[string(key)]; ok {
		atomic.AddInt64(&solverStats.Cached, 1)
		return r.r, p.mergeModel(r.m)
	}
	vars := make([]*Term, 0, len(need))
	for _, v := range p.vars {
		if need[v] {
			vars = append(vars, v)
			delete(need, v)
		}
	}
	for v := range need {
		vars = append(vars, v)
	}
	r, m := p.checkDiv(rel, c, vars)
	if r == Unknown {
		r, m = w.solver.Check(rel, c, vars)
	}
	if r != Unknown {
		if len(w.qcache) > 200000 {
			w.qcache = map[string]qres{}
		}
		w.qcache[string(key)] = qres{r, m}
	}
	if r == Sat {
		m = p.mergeModel(m)
	}
	return r, m
}

type qres struct {
	r SatResult
	m Model
}

func appendID(b []byte, id int) []byte {
	return append(b, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
}

func (p *Path) mergeModel(m Model) Model {
	if m == nil {
		return nil
	}
	n := make(Model, len(p.w.ev.m)+len(m))
	for k, v := range p.w.ev.m {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// varsOf lists the variables of a term (cached for the terms asked about).
func (w *Worker) varsOf(t *Term) []*Term {
	if v, ok := w.vcache[t]; ok {
		return v
	}
	var out []*Term
	seen := map[*Term]bool{}
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x == nil || x.op == OConst || seen[x] {
			continue
		}
		seen[x] = true
		if x.op == OVar {
			out = append(out, x)
			continue
		}
		if vs, ok := w.vcache[x]; ok && x != t {
			for _, v := range vs {
				if !seen[v] {
					seen[v] = true
					out = append(out, v)
				}
			}
			continue
		}
		stack = append(stack, x.a, x.b, x.c)
	}
	w.vcache[t] = out
	return out
}

func (p *Path) index(t *Term) {
	for _, v := range p.w.varsOf(t) {
		p.byVar[v] = append(p.byVar[v], t)
	}
}

func (p *Path) snapshotTrace(d Decision) []Decision {
	n := make([]Decision, len(p.trace)+1)
	copy(n, p.trace)
	n[len(p.trace)] = d
	return n
}

func (p *Path) fork(cond *Term) bool {
	tb := p.w.tb
	if cond.isConst() {
		return cond.val == 1
	}
	if p.pcSet[cond] {
		return true
	}
	if p.pcSet[tb.Not(cond)] {
		return false
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		if d.K != 0 && d.K != 3 {
			panic(unsupported(fmt.Sprintf("nondeterministic re-execution (fork vs %d)", d.K)))
		}
		p.trace = append(p.trace, d)
		if d.K == 0 {
			if d.Taken {
				p.addPC(cond)
			} else {
				p.addPC(tb.Not(cond))
			}
		}
		return d.Taken
	}
	v := p.eval(cond) == 1
	other := cond
	taken := tb.Not(cond)
	if v {
		other, taken = tb.Not(cond), cond
	}
	r, m := p.check(other)
	d := Decision{K: 0, Taken: v}
	switch r {
	case Sat:
		p.e.push(&WorkItem{dec: p.snapshotTrace(Decision{K: 0, Taken: !v}), model: m})
		p.trace = append(p.trace, d)
		p.addPC(taken)
	case Unsat:
		d.K = 3
		p.trace = append(p.trace, d)
	default:
		p.e.addInconc("solver undecided on a branch")
		p.trace = append(p.trace, d)
		p.addPC(taken)
	}
	return v
}

// concretize fixes t to a value, forking over the alternatives.
func (p *Path) concretize(t *Term, what string) uint64 {
	tb := p.w.tb
	if t.isConst() {
		return t.val
	}
	for n := 0; ; n++ {
		if n > 300 {
			panic(unsupported("too many values to enumerate for " + what))
		}
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			if d.K != 1 {
				panic(unsupported("nondeterministic re-execution (conc)"))
			}
			p.trace = append(p.trace, d)
			c := tb.Eq(t, tb.BV(t.w, d.V))
			if d.Taken {
				p.addPC(c)
				return d.V
			}
			p.addPC(tb.Not(c))
			continue
		}
		v := p.eval(t)
		c := tb.Eq(t, tb.BV(t.w, v))
		r, m := p.check(tb.Not(c))
		switch r {
		case Sat:
			p.e.push(&WorkItem{dec: p.snapshotTrace(Decision{K: 1, V: v, Taken: false}), model: m})
		case Unknown:
			p.e.addInconc("solver undecided on " + what)
		}
		p.trace = append(p.trace, Decision{K: 1, V: v, Taken: true})
		p.addPC(c)
		return v
	}
}

// choose picks one of n alternatives (all feasible), exploring every one. The
// choice is a symbolic variable fixed per path.
var debugNondet = os.Getenv("GOSYM_NONDET") != ""

func (p *Path) note(name string) string {
	if !debugNondet {
		return ""
	}
	s := fmt.Sprintf("%s@%d", name, p.steps)
	for _, g := range p.gors {
		s += fmt.Sprintf(" [g%d %v %v %s]", g.id, !g.dead && p.runnable(g), g.timer, g.where)
	}
	return s
}

func (p *Path) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	k := p.names[name]
	p.names[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	t := p.newVarExact(full, 16, 0, uint64(n-1))
	var c int
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		if d.K != 2 || int(d.N) != n || d.Note != p.note(name) {
			panic(unsupported(fmt.Sprintf("nondeterministic re-execution (choose %s of %d) %s | %s", name, n, d.Note, p.note(name))))
		}
		p.trace = append(p.trace, d)
		c = int(d.V)
	} else {
		for i := n - 1; i >= 1; i-- {
			m := make(Model, len(p.w.ev.m)+1)
			for k, v := range p.w.ev.m {
				m[k] = v
			}
			m[t.name] = uint64(i)
			p.e.push(&WorkItem{dec: p.snapshotTrace(Decision{K: 2, V: uint64(i), N: int32(n), Note: p.note(name)}), model: m})
		}
		p.trace = append(p.trace, Decision{K: 2, V: 0, N: int32(n), Note: p.note(name)})
	}
	p.addPC(p.w.tb.Eq(t, p.w.tb.BV(16, uint64(c))))
	if p.w.ev.m[t.name] != uint64(c) {
		p.w.ev.m[t.name] = uint64(c)
		p.w.ev.setModel(p.w.ev.m)
	}
	return c
}

// assume restricts the path; ends it when infeasible.
func (p *Path) assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			atomic.AddInt64(&p.e.infeas, 1)
			panic(pathEnd{"assume"})
		}
		return
	}
	if p.eval(c) == 1 {
		p.addPC(c)
		return
	}
	r, m := p.check(c)
	switch r {
	case Sat:
		p.w.ev.setModel(m)
		p.addPC(c)
	case Unsat:
		atomic.AddInt64(&p.e.infeas, 1)
		panic(pathEnd{"assume"})
	default:
		panic(unsupported("solver undecided on an assumption"))
	}
}

// assert decides pc ⇒ c.
func (p *Path) assert(c *Term, label, msg, pos string) {
	atomic.AddInt64(&p.e.queriesA, 1)
	if c.isTrue() {
		return
	}
	neg := p.w.tb.Not(c)
	if p.eval(c) == 0 {
		p.violationModel(label, msg, pos, p.w.ev.m, "")
	} else {
		r, m := p.check(neg)
		switch r {
		case Sat:
			p.violationModel(label, msg, pos, m, "")
		case Unknown:
			p.e.addInconc("solver undecided on assertion " + label)
		}
	}
	// continue under the assumption that it holds
	p.assume(c)
}

func (p *Path) violation(label, msg, pos, stack string) {
	p.violationModel(label, msg, pos, p.w.ev.m, stack)
}

func (p *Path) violationModel(label, msg, pos string, m Model, stack string) {
	v := &Violation{Harness: p.e.harness.Name, Label: label, Msg: msg, Pos: pos, Values: map[string]uint64{}, Multi: len(p.gors) > 1, Stack: stack}
	ev := Evaluator{tb: p.w.tb}
	old := p.w.ev
	ev.setModel(m)
	for _, nv := range p.named {
		v.Values[nv.name] = ev.eval(nv.t)
	}
	p.w.ev = old
	p.w.ev.setModel(old.m)
	v.Sched = append([]int(nil), p.sched...)
	v.Dec = append([]Decision(nil), p.trace...)
	p.e.addViolation(v)
}

func (e *Engine) inconcList() []string {
	var l []string
	for k, n := range e.inconc {
		l = append(l, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(l)
	return l
}

func shortPos(e *Engine, s string) string {
	return strings.TrimPrefix(s, repoDir+"/")
}

// late tells that a path still running should give up.
func (e *Engine) late() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return time.Since(e.deadline) > 5*time.Second
}
