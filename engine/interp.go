package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v     Value // Iface
	pos   string
	stack string
	exit  bool
}

type fnInfo struct {
	idx   map[ssa.Value]int
	nregs int
}

var fnInfos sync.Map // *ssa.Function -> *fnInfo

func infoOf(fn *ssa.Function) *fnInfo {
	if x, ok := fnInfos.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fnInfos.Store(fn, fi)
	return fi
}

type deferred struct {
	fn   Value
	args []Value
	pos  token.Pos
}

type Frame struct {
	p         *Path
	w         *Worker
	g         *Gor
	caller    *Frame
	fn        *ssa.Function
	info      *fnInfo
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	instr     ssa.Instruction
	defers    []deferred
	result    Value
	panicking bool
	panicV    interface{}
	lenient   bool
	depth     int
	nat       string // name of the intrinsic being run, for diagnostics
}

func (fr *Frame) pos() string {
	for f := fr; f != nil; f = f.caller {
		if f.instr != nil && f.instr.Pos().IsValid() {
			p := f.p.e.prog.Fset.Position(f.instr.Pos())
			return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
		}
	}
	return "?"
}

func (fr *Frame) stack() string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 25; f = f.caller {
		if f.fn != nil {
			pos := ""
			if f.instr != nil {
				p := f.p.e.prog.Fset.Position(f.instr.Pos())
				pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
			}
			fmt.Fprintf(&sb, "%s %s\n", f.fn.String(), pos)
			n++
		}
	}
	return sb.String()
}

// rtPanic raises a Go runtime error panic in the interpreted program.
func (fr *Frame) rtPanic(msg string) {
	v := Iface{t: fr.p.e.ld.runtimeErrT, v: Str{s: msg}}
	panic(targetPanic{v: v, pos: fr.pos(), stack: fr.stack()})
}

func (fr *Frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.w.constVal(x)
	case *ssa.Global:
		return fr.p.global(fr, x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(unsupported("no register for " + v.String()))
	}
	return fr.regs[i]
}

func (fr *Frame) set(v ssa.Value, x Value) { fr.regs[fr.info.idx[v]] = x }

func (w *Worker) constVal(c *ssa.Const) Value {
	if v, ok := w.consts[c]; ok {
		return copyVal(v)
	}
	v := w.constVal1(c)
	w.consts[c] = v
	return copyVal(v)
}

func (w *Worker) constVal1(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		// type parameter constants etc.
		panic(unsupported("constant of type " + c.Type().String()))
	}
	if t.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		return Str{s: string(rune(c.Int64()))}
	}
	if t.Kind() == types.UnsafePointer {
		return (*Value)(nil)
	}
	wd := basicWidth(t)
	switch {
	case wd == SBool:
		return w.tb.Bool(constant.BoolVal(c.Value))
	case isFP(wd):
		return w.tb.fconst(wd, c.Float64())
	}
	if t.Info()&types.IsUnsigned != 0 {
		return w.tb.BV(wd, c.Uint64())
	}
	return w.tb.BV(wd, uint64(c.Int64()))
}

// --- globals and package initialisation

func (e *Engine) isRepoPkg(p *ssa.Package) bool {
	if p == nil || p.Pkg == nil {
		return false
	}
	path := p.Pkg.Path()
	return path == e.ld.module || strings.HasPrefix(path, e.ld.module+"/")
}

func (p *Path) global(fr *Frame, g *ssa.Global) *Value {
	var tab map[*ssa.Global]*Value
	var ini map[*ssa.Package]int
	if p.e.isRepoPkg(g.Pkg) {
		tab, ini = p.globals, p.inited
	} else {
		tab, ini = p.w.globals, p.w.inited
	}
	if ini[g.Pkg] == 0 {
		ini[g.Pkg] = 1
		p.initPkg(fr, g.Pkg)
		ini[g.Pkg] = 2
	}
	c := tab[g]
	if c == nil {
		c = new(Value)
		*c = p.w.zero(g.Type().(*types.Pointer).Elem())
		tab[g] = c
	}
	return c
}

// initPkg runs a package's initialiser. Dependencies are initialised when one
// of their own globals is touched.
func (p *Path) initPkg(fr *Frame, pkg *ssa.Package) {
	p.e.ld.build(pkg)
	fn := pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	g := fr.g
	repo := p.e.isRepoPkg(pkg)
	nf := &Frame{p: p, w: p.w, g: g, caller: fr, fn: fn, lenient: !repo}
	nf.info = infoOf(fn)
	nf.regs = make([]Value, nf.info.nregs)
	// initialisers run before everything else: no switches inside
	saveRaces, saveMulti := p.races, p.multi
	p.races, p.multi = false, false
	defer func() { p.races, p.multi = saveRaces, saveMulti }()
	if repo {
		nf.runAll()
		return
	}
	savedSteps := p.steps
	defer func() {
		p.steps = savedSteps
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupportedErr, targetPanic:
				// lenient: globals not reached keep their zero value
			default:
				panic(r)
			}
		}
	}()
	nf.runAll()
}

// --- calls

func (p *Path) call(fr *Frame, fnv Value, args []Value, site ssa.Instruction) Value {
	switch f := fnv.(type) {
	case *ssa.Function:
		if f == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p.callSSA(fr, f, args, nil)
	case *Closure:
		if f == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p.callSSA(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return fr.builtin(f, args, site)
	case *NativeFn:
		if f == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return f.f(fr, args)
	case nil:
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("call of %T", fnv)))
}

func (p *Path) callSSA(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	e := p.e
	if fn.Synthetic == "package initializer" {
		return nil // run lazily
	}
	if h := e.ld.hookFor(fn); h != nil {
		// a stub may itself call the original only through vs; avoid self recursion
		if !callerIs(caller, h) {
			return p.callSSA(caller, h, args, nil)
		}
	}
	if in := intrinsicFor(fn); in != nil {
		caller.nat = fn.Name()
		return in(caller, fn, args)
	}
	return p.runSSA(caller, fn, args, env)
}

// runSSA interprets the body of fn.
func (p *Path) runSSA(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	e := p.e
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + fn.String()))
	}
	if _, ok := e.funcs.Load(fn); !ok {
		e.funcs.Store(fn, true)
	}
	fr := &Frame{p: p, w: p.w, g: caller.g, caller: caller, fn: fn, lenient: false}
	fr.info = infoOf(fn)
	fr.regs = make([]Value, fr.info.nregs)
	for i, prm := range fn.Params {
		fr.regs[fr.info.idx[prm]] = copyVal(args[i])
	}
	for i, fv := range fn.FreeVars {
		fr.regs[fr.info.idx[fv]] = env[i]
	}
	g := fr.g
	g.depth++
	fr.depth = g.depth
	if g.depth > 3000 {
		// counts if the compiled code runs out of stack as well
		fr.p.violation("panic", "recursion without limit in "+fn.String(), fr.pos(), "")
		panic(pathEnd{"depth"})
	}
	fr.runAll()
	g.depth = fr.depth - 1
	return fr.result
}

func callerIs(fr *Frame, fn *ssa.Function) bool {
	for f, n := fr, 0; f != nil && n < 6; f, n = f.caller, n+1 {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (fr *Frame) runAll() {
	fr.block = fr.fn.Blocks[0]
	for fr.block != nil {
		fr.run()
	}
}

func (fr *Frame) run() {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok || tp.exit {
			panic(r)
		}
		fr.g.depth = fr.depth
		fr.panicking = true
		fr.panicV = tp
		fr.runDefers()
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// no recover block: results are zero
			fr.result = fr.w.zero(fr.fn.Signature.Results())
		}
	}()
	for {
		var next *ssa.BasicBlock
		b := fr.block
		for _, in := range b.Instrs {
			fr.instr = in
			fr.p.steps++
			if fr.p.steps > fr.p.maxSt {
				fr.stepLimit()
			}
			if fr.p.steps&0x3fff == 0 && fr.p.e.late() {
				panic(unsupported("budget exhausted"))
			}
			var nb *ssa.BasicBlock
			var ret bool
			if fr.lenient {
				nb, ret = fr.execLenient(in)
			} else {
				nb, ret = fr.exec(in)
			}
			if ret {
				fr.block = nil
				return
			}
			if nb != nil {
				next = nb
				break
			}
		}
		fr.prev = b
		fr.block = next
	}
}

func (fr *Frame) stepLimit() {
	fr.p.violation("nontermination", "step limit exceeded (suspected non-termination) in "+fr.fn.String(), fr.pos(), fr.stack())
	panic(pathEnd{"steps"})
}

func (fr *Frame) execLenient(in ssa.Instruction) (nb *ssa.BasicBlock, ret bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case pathEnd, pathKill:
				panic(r)
			}
			if v, ok := in.(ssa.Value); ok {
				fr.set(v, Poison{fmt.Sprint(r)})
				return
			}
			if _, ok := in.(*ssa.If); ok {
				panic(unsupported("poisoned branch in init"))
			}
		}
	}()
	if c, ok := in.(*ssa.Call); ok {
		for _, a := range c.Call.Args {
			if _, bad := fr.get(a).(Poison); bad {
				fr.set(c, Poison{"poison arg"})
				return nil, false
			}
		}
	}
	return fr.exec(in)
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		n := len(fr.defers) - 1
		d := fr.defers[n]
		fr.defers = fr.defers[:n]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *Frame) runDefer(d deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if tp, is := r.(targetPanic); is && !tp.exit {
				fr.panicking = true
				fr.panicV = tp
				return
			}
			panic(r)
		}
	}()
	fr.p.call(fr, d.fn, d.args, nil)
	ok = true
}

// doRecover implements the recover builtin (called by a deferred function).
func (fr *Frame) doRecover() Value {
	if fr.caller != nil && fr.caller.panicking && fr.caller.fn != nil {
		c := fr.caller
		c.panicking = false
		tp := c.panicV.(targetPanic)
		c.panicV = nil
		if i, ok := tp.v.(Iface); ok {
			return i
		}
		return Iface{t: types.Typ[types.String], v: Str{s: "panic"}}
	}
	return Iface{}
}

func (fr *Frame) deref(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		if po, is := v.(Poison); is {
			panic(unsupported("poison pointer: " + po.why))
		}
		panic(unsupported(fmt.Sprintf("dereference of %T", v)))
	}
	if p == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (fr *Frame) load(v Value, t types.Type) Value {
	switch p := v.(type) {
	case *SymPtr:
		r, ok := fr.symLoad(p)
		if ok {
			return r
		}
		i := fr.p.concretize(p.idx, "index")
		return fr.load(&p.elems[i], t)
	case *BigPtr:
		return fr.bigRead(p.big, p.idx)
	case *SliceData:
		if p.str != nil {
			return fr.w.strByte(*p.str, 0)
		}
		return copyVal(p.sl[0])
	}
	p := fr.deref(v)
	fr.access(p, false)
	x := *p
	if po, ok := x.(Poison); ok {
		panic(unsupported("use of a package variable that could not be initialised: " + po.why))
	}
	// unsafe reinterpretation []byte -> string
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
		switch sl := x.(type) {
		case []Value:
			return sliceToStr(sl)
		case *BigSlice:
			return fr.bigToStr(sl)
		}
	}
	return copyVal(x)
}

func (fr *Frame) symLoad(p *SymPtr) (Value, bool) {
	ts := make([]*Term, len(p.elems))
	for i, e := range p.elems {
		t, ok := e.(*Term)
		if !ok {
			return nil, false
		}
		ts[i] = t
	}
	if len(ts) == 0 {
		return nil, false
	}
	return fr.w.tb.table(p.idx, ts), true
}

// table is ts[idx], idx being in range. A table of constants becomes a
// decision tree over its runs of equal entries.
func (tb *TermBuilder) table(idx *Term, ts []*Term) *Term {
	n := len(ts)
	flat := n >= 12
	for _, t := range ts {
		if !t.isConst() {
			flat = false
			break
		}
	}
	if !flat {
		r := ts[n-1]
		for k := n - 2; k >= 0; k-- {
			r = tb.Ite(tb.Eq(idx, tb.BV(idx.w, uint64(k))), ts[k], r)
		}
		return r
	}
	var starts []int
	lo, hi := 0, n
	if idx.lo < uint64(n) {
		lo = int(idx.lo)
	}
	if idx.hi < uint64(n) {
		hi = int(idx.hi) + 1
	}
	for k := lo; k < hi; k++ {
		if k == lo || ts[k] != ts[k-1] {
			starts = append(starts, k)
		}
	}
	var tree func(a, b int) *Term
	tree = func(a, b int) *Term {
		if b-a == 1 {
			return ts[starts[a]]
		}
		m := (a + b) / 2
		return tb.Ite(tb.Ult(idx, tb.BV(idx.w, uint64(starts[m]))), tree(a, m), tree(m, b))
	}
	return tree(0, len(starts))
}

func (fr *Frame) store(pv Value, v Value) {
	switch p := pv.(type) {
	case *SymPtr:
		t, ok := v.(*Term)
		if ok {
			all := true
			for _, e := range p.elems {
				if _, is := e.(*Term); !is {
					all = false
				}
			}
			if all {
				tb := fr.w.tb
				for i := range p.elems {
					p.elems[i] = tb.Ite(tb.Eq(p.idx, tb.BV(p.idx.w, uint64(i))), t, p.elems[i].(*Term))
				}
				return
			}
		}
		i := fr.p.concretize(p.idx, "index")
		fr.store(&p.elems[i], v)
		return
	case *BigPtr:
		p.big.log = append(p.big.log, bigWrite{idx: p.idx, val: v.(*Term)})
		return
	}
	p := fr.deref(pv)
	fr.access(p, true)
	assignInto(p, v)
}

func (fr *Frame) exec(instr ssa.Instruction) (*ssa.BasicBlock, bool) {
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, fr.unop(in))
	case *ssa.BinOp:
		fr.set(in, fr.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Call:
		fn, args := fr.prepare(&in.Call)
		fr.set(in, fr.p.call(fr, fn, args, in))
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, fr.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, fr.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		fr.set(in, fr.sliceToArrayPtr(in.Type(), fr.get(in.X)))
	case *ssa.MakeInterface:
		fr.set(in, Iface{t: in.X.Type(), v: fr.get(in.X)})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, fr.slice(in))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			t := make(Tuple, len(in.Results))
			for i, r := range in.Results {
				t[i] = fr.get(r)
			}
			fr.result = t
		}
		return nil, true
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		panic(targetPanic{v: fr.get(in.X), pos: fr.pos(), stack: fr.stack()})
	case *ssa.Send:
		c, _ := fr.get(in.Chan).(*ChanObj)
		fr.chanSend(c, fr.get(in.X))
	case *ssa.Store:
		fr.store(fr.get(in.Addr), fr.get(in.Val))
	case *ssa.If:
		c, ok := fr.get(in.Cond).(*Term)
		if !ok {
			panic(unsupported("branch on a poisoned value"))
		}
		if fr.p.fork(c) {
			return fr.block.Succs[0], false
		}
		return fr.block.Succs[1], false
	case *ssa.Jump:
		return fr.block.Succs[0], false
	case *ssa.Defer:
		fn, args := fr.prepare(&in.Call)
		fr.defers = append(fr.defers, deferred{fn, args, in.Pos()})
	case *ssa.Go:
		fn, args := fr.prepare(&in.Call)
		name := "goroutine"
		switch f := fn.(type) {
		case *ssa.Function:
			name = f.Name()
		case *Closure:
			name = f.fn.Name()
		}
		fr.p.spawn(name, fn, args)
	case *ssa.MakeChan:
		n := fr.get(in.Size).(*Term)
		c := fr.p.concretize(n, "channel size")
		if int64(c) < 0 {
			fr.rtPanic("makechan: size out of range")
		}
		fr.set(in, &ChanObj{cap: int(c)})
	case *ssa.Alloc:
		c := new(Value)
		*c = fr.w.zero(in.Type().(*types.Pointer).Elem())
		fr.set(in, c)
	case *ssa.MakeSlice:
		fr.set(in, fr.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), fr.asInt(fr.get(in.Len), in.Len.Type()), fr.asInt(fr.get(in.Cap), in.Cap.Type())))
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		fr.set(in, newMap(mt.Key(), mt.Elem()))
	case *ssa.Range:
		fr.set(in, fr.rangeIter(fr.get(in.X), in.X.Type()))
	case *ssa.Next:
		fr.set(in, fr.get(in.Iter).(iter).next(fr))
	case *ssa.FieldAddr:
		x := fr.get(in.X)
		p := fr.deref(x)
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field address in %T", *p)))
		}
		fr.set(in, &s[in.Field])
	case *ssa.Field:
		s, ok := fr.get(in.X).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T", fr.get(in.X))))
		}
		fr.set(in, s[in.Field])
	case *ssa.IndexAddr:
		fr.set(in, fr.indexAddr(fr.get(in.X), fr.asInt(fr.get(in.Index), in.Index.Type())))
	case *ssa.Index:
		fr.set(in, fr.index(fr.get(in.X), fr.asInt(fr.get(in.Index), in.Index.Type())))
	case *ssa.Lookup:
		fr.set(in, fr.lookup(in))
	case *ssa.MapUpdate:
		m, _ := fr.get(in.Map).(*MapObj)
		if m == nil {
			fr.rtPanic("assignment to entry in nil map")
		}
		fr.mapSet(m, fr.get(in.Key), fr.get(in.Value))
	case *ssa.TypeAssert:
		fr.set(in, fr.typeAssert(in))
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = fr.get(b)
		}
		fr.set(in, &Closure{in.Fn.(*ssa.Function), env})
	case *ssa.Phi:
		// all phis of a block read their operands before any is written
		fr.phis(in)
	case *ssa.Select:
		fr.set(in, fr.selectStmt(in))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", instr)))
	}
	return nil, false
}

func (fr *Frame) phis(first *ssa.Phi) {
	b := fr.block
	if b.Instrs[0] != ssa.Instruction(first) {
		return // handled with the first phi
	}
	k := -1
	for i, pr := range b.Preds {
		if pr == fr.prev {
			k = i
			break
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, fr.get(ph.Edges[k]))
	}
	for i, ph := range phis {
		fr.set(ph, vals[i])
	}
}

func (p *Path) spawn(name string, fn Value, args []Value) *Gor {
	if len(p.gors) > 60 {
		panic(unsupported("too many goroutines"))
	}
	g := p.newGor(name)
	if p.delayMode && p.lateBud > 0 && p.choose("late start", 2) == 1 {
		p.lateBud--
		g.late = true
	}
	p.killWG.Add(1)
	go p.gorMain(g, fn, args)
	return g
}

func (fr *Frame) prepare(call *ssa.CallCommon) (Value, []Value) {
	v := fr.get(call.Value)
	var args []Value
	var fn Value
	if call.Method == nil {
		fn = v
	} else {
		recv, ok := v.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", v)))
		}
		if recv.t == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn = fr.findMethod(recv, call.Method)
		args = append(args, recv.v)
	}
	for _, a := range call.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

func (fr *Frame) findMethod(recv Iface, m *types.Func) Value {
	if _, ok := recv.v.(*RType); ok {
		name := m.Name()
		return &NativeFn{name: "reflect.Type." + name, f: func(fr *Frame, args []Value) Value {
			return fr.rtypeMethod(name, args)
		}}
	}
	return fr.methodOf(recv.t, m.Pkg(), m.Name())
}

func (fr *Frame) methodOf(t types.Type, pkg *types.Package, name string) *ssa.Function {
	key := name
	if pkg != nil && !token.IsExported(name) {
		key = pkg.Path() + "." + name
	}
	key = types.TypeString(t, nil) + "\x00" + key
	if f, ok := fr.w.methods[key]; ok {
		// distinct local types may print alike; verify
		return f
	}
	f := fr.p.e.prog.LookupMethod(t, pkg, name)
	if f == nil {
		panic(unsupported("method " + name + " of " + t.String()))
	}
	fr.w.methods[key] = f
	return f
}

// asInt widens an integer value to 64 bits by its static signedness.
func (fr *Frame) asInt(v Value, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("integer expected, got %T", v)))
	}
	return fr.w.tb.Resize(x, 64, isSigned(t))
}

func (fr *Frame) unop(in *ssa.UnOp) Value {
	x := fr.get(in.X)
	tb := fr.w.tb
	switch in.Op {
	case token.MUL:
		return fr.load(x, in.Type())
	case token.ARROW:
		c, _ := x.(*ChanObj)
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		v, ok := fr.chanRecv(c, fr.w.zero(et))
		if in.CommaOk {
			return Tuple{v, tb.Bool(ok)}
		}
		return v
	case token.SUB:
		t := x.(*Term)
		if isFP(t.w) {
			return tb.FNeg(t)
		}
		return tb.Neg(t)
	case token.NOT:
		return tb.Not(x.(*Term))
	case token.XOR:
		return tb.BvNot(x.(*Term))
	}
	panic(unsupported("unary " + in.Op.String()))
}

func (fr *Frame) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	tb := fr.w.tb
	switch op {
	case token.EQL:
		return fr.eqVal(x, y)
	case token.NEQ:
		return tb.Not(fr.eqVal(x, y))
	}
	if a, ok := x.(Str); ok {
		b := y.(Str)
		switch op {
		case token.ADD:
			return fr.w.strConcat(a, b)
		case token.LSS:
			return fr.w.strLess(a, b)
		case token.GTR:
			return fr.w.strLess(b, a)
		case token.LEQ:
			return tb.Not(fr.w.strLess(b, a))
		case token.GEQ:
			return tb.Not(fr.w.strLess(a, b))
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("%T %s %T", x, op, y)))
	}
	if isFP(a.w) {
		switch op {
		case token.ADD:
			return tb.FBin(OFAdd, a, b)
		case token.SUB:
			return tb.FBin(OFSub, a, b)
		case token.MUL:
			return tb.FBin(OFMul, a, b)
		case token.QUO:
			return tb.FBin(OFDiv, a, b)
		case token.LSS:
			return tb.FCmp(OFLt, a, b)
		case token.LEQ:
			return tb.FCmp(OFLe, a, b)
		case token.GTR:
			return tb.FCmp(OFLt, b, a)
		case token.GEQ:
			return tb.FCmp(OFLe, b, a)
		}
		panic(unsupported("float op " + op.String()))
	}
	signed := isSigned(t)
	switch op {
	case token.ADD:
		return tb.Add(a, b)
	case token.SUB:
		return tb.Sub(a, b)
	case token.MUL:
		return tb.Mul(a, b)
	case token.QUO, token.REM:
		if fr.p.fork(tb.Eq(b, tb.BV(b.w, 0))) {
			fr.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return tb.SDiv(a, b)
		case op == token.QUO:
			return tb.UDiv(a, b)
		case signed:
			return tb.SRem(a, b)
		default:
			return tb.URem(a, b)
		}
	case token.AND:
		return tb.BvAnd(a, b)
	case token.OR:
		return tb.BvOr(a, b)
	case token.XOR:
		return tb.BvXor(a, b)
	case token.AND_NOT:
		return tb.BvAnd(a, tb.BvNot(b))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if fr.p.fork(tb.Slt(b, tb.BV(b.w, 0))) {
				fr.rtPanic("negative shift amount")
			}
		}
		var s *Term
		if b.w > a.w {
			big := tb.Ule(tb.BV(b.w, uint64(a.w)), b)
			s = tb.Ite(big, tb.BV(a.w, uint64(a.w)), tb.Extract(b, a.w-1, 0))
			if a.w <= 8 && uint64(a.w) > mask(a.w) {
				panic(unsupported("narrow shift"))
			}
		} else {
			s = tb.Zext(b, a.w)
		}
		if op == token.SHL {
			return tb.Shl(a, s)
		}
		if signed {
			return tb.Ashr(a, s)
		}
		return tb.Lshr(a, s)
	case token.LSS:
		if signed {
			return tb.Slt(a, b)
		}
		return tb.Ult(a, b)
	case token.LEQ:
		if signed {
			return tb.Sle(a, b)
		}
		return tb.Ule(a, b)
	case token.GTR:
		if signed {
			return tb.Slt(b, a)
		}
		return tb.Ult(b, a)
	case token.GEQ:
		if signed {
			return tb.Sle(b, a)
		}
		return tb.Ule(b, a)
	}
	panic(unsupported("binary " + op.String()))
}

func (fr *Frame) convert(dst, src types.Type, x Value) Value {
	tb := fr.w.tb
	du, su := dst.Underlying(), src.Underlying()
	if tp, ok := dst.(*types.TypeParam); ok {
		panic(unsupported("conversion to type parameter " + tp.String()))
	}
	switch d := du.(type) {
	case *types.Pointer:
		return x
	case *types.Slice:
		if s, ok := su.(*types.Basic); ok && s.Info()&types.IsString != 0 {
			eb, _ := d.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return fr.w.bytesToSlice(x.(Str))
			}
			// []rune(string)
			var out []Value
			it := &strIter{s: x.(Str)}
			for {
				t := it.next(fr).(Tuple)
				if t[0].(*Term).isFalse() {
					break
				}
				out = append(out, t[2])
			}
			if out == nil {
				out = []Value{}
			}
			return out
		}
		return x
	case *types.Basic:
		if d.Kind() == types.UnsafePointer {
			return x
		}
		if d.Info()&types.IsString != 0 {
			switch s := su.(type) {
			case *types.Basic:
				if s.Info()&types.IsString != 0 {
					return x
				}
				// string(rune)
				r := tb.Resize(x.(*Term), 32, isSigned(src))
				if r.isConst() {
					return Str{s: string(rune(r.val))}
				}
				return fr.runeToStr(r)
			case *types.Slice:
				eb := s.Elem().Underlying().(*types.Basic)
				if eb.Kind() == types.Uint8 {
					switch sl := x.(type) {
					case []Value:
						for i := range sl {
							fr.access(&sl[i], false)
						}
						return sliceToStr(sl)
					case *BigSlice:
						return fr.bigToStr(sl)
					}
				} else {
					r := Str{}
					for _, v := range x.([]Value) {
						r = fr.w.strConcat(r, fr.runeToStr(v.(*Term)))
					}
					return r
				}
			}
			panic(unsupported("string conversion from " + src.String()))
		}
		t, ok := x.(*Term)
		if !ok {
			if _, isptr := x.(*Value); isptr && d.Kind() == types.Uintptr {
				return Poison{"uintptr of pointer"}
			}
			panic(unsupported(fmt.Sprintf("conversion %s -> %s of %T", src, dst, x)))
		}
		wd := basicWidth(d)
		switch {
		case isFP(t.w) && isFP(wd):
			return tb.FConv(t, wd)
		case isFP(t.w):
			return tb.FToInt(t, d.Info()&types.IsUnsigned == 0, wd)
		case isFP(wd):
			return tb.FFromInt(t, isSigned(src), wd)
		}
		return tb.Resize(t, wd, isSigned(src))
	}
	return x
}

func (fr *Frame) runeToStr(r *Term) Str {
	if r.isConst() {
		return Str{s: string(rune(r.val))}
	}
	tb := fr.w.tb
	if fr.p.fork(tb.Ult(r, tb.BV(32, 0x80))) {
		return mkStr([]*Term{tb.Extract(r, 7, 0)})
	}
	fn := fr.p.e.ld.fn("unicode/utf8", "AppendRune")
	res := fr.p.callSSA(fr, fn, []Value{[]Value(nil), r}, nil)
	return sliceToStr(res.([]Value))
}

func (fr *Frame) sliceToArrayPtr(t types.Type, x Value) Value {
	n := int(t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	sl, ok := x.([]Value)
	if !ok {
		panic(unsupported("slice to array pointer of big slice"))
	}
	if len(sl) < n {
		fr.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(sl), n))
	}
	c := new(Value)
	*c = Array(sl[:n:n])
	return c
}

// boundsOK forks on 0 <= i < n.
func (fr *Frame) checkIndex(i *Term, n *Term) {
	tb := fr.w.tb
	if !fr.p.fork(tb.Ult(i, n)) {
		fr.rtPanic("index out of range")
	}
}

func (fr *Frame) indexAddr(x Value, i *Term) Value {
	tb := fr.w.tb
	var elems []Value
	switch v := x.(type) {
	case []Value:
		elems = v
	case *Value:
		p := fr.deref(v)
		a, ok := (*p).(Array)
		if !ok {
			panic(unsupported(fmt.Sprintf("index address in %T", *p)))
		}
		elems = a
	case *BigSlice:
		fr.checkIndex(i, v.len)
		return &BigPtr{v.big, tb.Add(v.off, i)}
	default:
		panic(unsupported(fmt.Sprintf("index address of %T", x)))
	}
	fr.checkIndex(i, tb.BV(64, uint64(len(elems))))
	if i.isConst() {
		return &elems[i.val]
	}
	return fr.symElem(elems, i)
}

func (fr *Frame) symElem(elems []Value, i *Term) Value {
	if len(elems) > 0 && len(elems) <= 512 {
		all := true
		for _, e := range elems {
			if _, ok := e.(*Term); !ok {
				all = false
				break
			}
		}
		if all {
			return &SymPtr{elems, i}
		}
	}
	return &elems[fr.p.concretize(i, "index")]
}

func (fr *Frame) index(x Value, i *Term) Value {
	tb := fr.w.tb
	switch v := x.(type) {
	case Array:
		fr.checkIndex(i, tb.BV(64, uint64(len(v))))
		if i.isConst() {
			return copyVal(v[i.val])
		}
		return fr.load(fr.symElem(v, i), types.Typ[types.Int])
	case Str:
		n := v.length()
		fr.checkIndex(i, tb.BV(64, uint64(n)))
		if i.isConst() {
			return fr.w.strByte(v, int(i.val))
		}
		ts := make([]*Term, n)
		for k := range ts {
			ts[k] = fr.w.strByte(v, k)
		}
		return tb.table(i, ts)
	case []Value:
		return fr.load(fr.indexAddr(v, i), types.Typ[types.Int])
	}
	panic(unsupported(fmt.Sprintf("index of %T", x)))
}

func (fr *Frame) slice(in *ssa.Slice) Value {
	tb := fr.w.tb
	x := fr.get(in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return fr.asInt(fr.get(v), v.Type())
	}
	return fr.sliceVal(x, opt(in.Low), opt(in.High), opt(in.Max), tb)
}

func (fr *Frame) sliceVal(x Value, lo, hi, max *Term, tb *TermBuilder) Value {
	if lo == nil {
		lo = tb.BV(64, 0)
	}
	switch v := x.(type) {
	case Str:
		n := v.length()
		if hi == nil {
			hi = tb.BV(64, uint64(n))
		}
		ok := tb.And(tb.Ule(hi, tb.BV(64, uint64(n))), tb.Ule(lo, hi))
		if !fr.p.fork(ok) {
			fr.rtPanic("slice bounds out of range")
		}
		l := fr.p.concretize(lo, "slice low bound")
		h := fr.p.concretize(hi, "slice high bound")
		return fr.w.strSlice(v, int(l), int(h))
	case []Value:
		return fr.sliceElems(v, lo, hi, max, tb)
	case *Value:
		p := fr.deref(v)
		a, ok := (*p).(Array)
		if !ok {
			panic(unsupported(fmt.Sprintf("slice of pointer to %T", *p)))
		}
		return fr.sliceElems(a, lo, hi, max, tb)
	case *BigSlice:
		if hi == nil {
			hi = v.len
		}
		mx := max
		if mx == nil {
			mx = v.cap
		}
		ok := tb.And(tb.Ule(mx, v.cap), tb.And(tb.Ule(hi, mx), tb.Ule(lo, hi)))
		if !fr.p.fork(ok) {
			fr.rtPanic("slice bounds out of range")
		}
		return &BigSlice{v.big, tb.Add(v.off, lo), tb.Sub(hi, lo), tb.Sub(mx, lo)}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

func (fr *Frame) sliceElems(v []Value, lo, hi, max *Term, tb *TermBuilder) Value {
	c := uint64(cap(v))
	if hi == nil {
		hi = tb.BV(64, uint64(len(v)))
	}
	mx := max
	if mx == nil {
		mx = tb.BV(64, c)
	}
	ok := tb.And(tb.Ule(mx, tb.BV(64, c)), tb.And(tb.Ule(hi, mx), tb.Ule(lo, hi)))
	if !fr.p.fork(ok) {
		fr.rtPanic("slice bounds out of range")
	}
	l := fr.p.concretize(lo, "slice low bound")
	h := fr.p.concretize(hi, "slice high bound")
	m := fr.p.concretize(mx, "slice max")
	if v == nil {
		return []Value(nil)
	}
	r := v[l:h:m]
	return []Value(r)
}

func (fr *Frame) elemSize(t types.Type) int64 {
	return fr.p.e.ld.sizes.Sizeof(t)
}

func (fr *Frame) allocCheck(n *Term, et types.Type) {
	p := fr.p
	if p.alloc <= 0 {
		return
	}
	sz := fr.elemSize(et)
	if sz == 0 {
		return
	}
	lim := fr.w.tb.BV(64, uint64(p.alloc/sz))
	p.assert(fr.w.tb.Ule(n, lim), "alloc", fmt.Sprintf("allocation beyond %d bytes at %s", p.alloc, fr.pos()), fr.pos())
}

func (fr *Frame) makeSlice(et types.Type, n, c *Term) Value {
	tb := fr.w.tb
	lim := tb.BV(64, uint64(1)<<47)
	if !fr.p.fork(tb.And(tb.Ule(n, c), tb.Ult(c, lim))) {
		fr.rtPanic("makeslice: len out of range")
	}
	fr.allocCheck(c, et)
	isByte := false
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		isByte = true
	}
	big := func() Value {
		fr.p.bigSeq++
		return &BigSlice{&Big{id: fr.p.bigSeq, zero: true}, tb.BV(64, 0), n, c}
	}
	if !n.isConst() || !c.isConst() {
		if isByte && c.hi > 64 {
			return big()
		}
	}
	nn := fr.p.concretize(n, "make length")
	cc := fr.p.concretize(c, "make capacity")
	if cc > 1<<16 {
		if isByte {
			return &BigSlice{&Big{id: func() int { fr.p.bigSeq++; return fr.p.bigSeq }(), zero: true}, tb.BV(64, 0), tb.BV(64, nn), tb.BV(64, cc)}
		}
		if cc > 1<<20 {
			panic(unsupported("large slice"))
		}
	}
	s := make([]Value, cc)
	z := fr.w.zero(et)
	agg := false
	switch z.(type) {
	case Struct, Array:
		agg = true
	}
	for i := range s {
		if agg && i > 0 {
			z = fr.w.zero(et)
		}
		s[i] = z
	}
	return s[:nn]
}

func (fr *Frame) typeAssert(in *ssa.TypeAssert) Value {
	x, ok := fr.get(in.X).(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("type assertion on %T", fr.get(in.X))))
	}
	tb := fr.w.tb
	res := false
	var v Value
	at := in.AssertedType
	if it, isI := at.Underlying().(*types.Interface); isI {
		if x.t != nil {
			if _, isR := x.v.(*RType); isR {
				res = true
			} else {
				res = types.Implements(x.t, it) || fr.p.e.implements(x.t, it)
			}
		}
		v = x
		if !res {
			v = Iface{}
		}
	} else {
		if x.t != nil && types.Identical(x.t, at) {
			res = true
			v = x.v
		} else {
			v = fr.w.zero(at)
		}
	}
	if in.CommaOk {
		return Tuple{v, tb.Bool(res)}
	}
	if !res {
		have := "nil"
		if x.t != nil {
			have = x.t.String()
		}
		fr.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", have, at))
	}
	return v
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool { return false }

// --- maps

func newMap(k, v types.Type) *MapObj {
	return &MapObj{kt: k, vt: v, conc: map[string]*mapEntry{}}
}

// find returns the entry equal to k on this path, forking on symbolic keys.
func (fr *Frame) mapFind(m *MapObj, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		fr.rtPanic("hash of unhashable type " + i.t.String())
	}
	ck, conc := canonKey(k)
	if conc {
		if e, ok := m.conc[ck]; ok {
			return e
		}
		if m.symKeys == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := canonKey(e.k); c2 {
				continue
			}
		}
		if fr.p.fork(fr.eqVal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (fr *Frame) mapSet(m *MapObj, k, v Value) {
	fr.access(&m.cell, true)
	if e := fr.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	m.entries = append(m.entries, e)
	m.n++
	if ck, ok := canonKey(k); ok {
		m.conc[ck] = e
	} else {
		m.symKeys++
	}
}

func (fr *Frame) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	fr.access(&m.cell, true)
	e := fr.mapFind(m, k)
	if e == nil {
		return
	}
	fr.mapKill(m, e)
}

func (fr *Frame) mapKill(m *MapObj, e *mapEntry) {
	e.dead = true
	m.n--
	if ck, ok := canonKey(e.k); ok {
		delete(m.conc, ck)
	} else {
		m.symKeys--
	}
}

func (fr *Frame) lookup(in *ssa.Lookup) Value {
	x := fr.get(in.X)
	if s, ok := x.(Str); ok {
		return fr.index(s, fr.asInt(fr.get(in.Index), in.Index.Type()))
	}
	m, ok := x.(*MapObj)
	if !ok {
		panic(unsupported(fmt.Sprintf("lookup in %T", x)))
	}
	if m != nil {
		fr.access(&m.cell, false)
	}
	e := fr.mapFind(m, fr.get(in.Index))
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = fr.w.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return Tuple{v, fr.w.tb.Bool(e != nil)}
	}
	return v
}

type iter interface{ next(fr *Frame) Value }

type mapIter struct {
	m    *MapObj
	seen map[*mapEntry]bool
}

func (it *mapIter) next(fr *Frame) Value {
	tb := fr.w.tb
	if it.m == nil {
		return Tuple{tb.False, nil, nil}
	}
	fr.access(&it.m.cell, false)
	var rest []*mapEntry
	for _, e := range it.m.entries {
		if !e.dead && !it.seen[e] {
			rest = append(rest, e)
		}
	}
	if len(rest) == 0 {
		return Tuple{tb.False, fr.w.zero(it.m.kt), fr.w.zero(it.m.vt)}
	}
	i := 0
	if fr.p.mapOrder && len(rest) > 1 {
		i = fr.p.choose("maporder", len(rest))
	}
	e := rest[i]
	it.seen[e] = true
	return Tuple{tb.True, copyVal(e.k), copyVal(e.v)}
}

type strIter struct {
	s   Str
	pos int
}

func (it *strIter) next(fr *Frame) Value {
	tb := fr.w.tb
	if it.pos >= it.s.length() {
		return Tuple{tb.False, tb.BV(64, 0), tb.BV(32, 0)}
	}
	b := fr.w.strByte(it.s, it.pos)
	p := it.pos
	if fr.p.fork(tb.Ult(b, tb.BV(8, 0x80))) {
		it.pos++
		return Tuple{tb.True, tb.BV(64, uint64(p)), tb.Zext(b, 32)}
	}
	rest := fr.w.strSlice(it.s, it.pos, it.s.length())
	fn := fr.p.e.ld.fn("unicode/utf8", "DecodeRuneInString")
	res := fr.p.callSSA(fr, fn, []Value{rest}, nil).(Tuple)
	n := fr.p.concretize(res[1].(*Term), "rune size")
	it.pos += int(n)
	return Tuple{tb.True, tb.BV(64, uint64(p)), res[0]}
}

func (fr *Frame) rangeIter(x Value, t types.Type) iter {
	switch v := x.(type) {
	case *MapObj:
		return &mapIter{m: v, seen: map[*mapEntry]bool{}}
	case Str:
		return &strIter{s: v}
	}
	panic(unsupported(fmt.Sprintf("range over %T", x)))
}

// --- select

func (fr *Frame) selectStmt(in *ssa.Select) Value {
	p, g, tb := fr.p, fr.g, fr.w.tb
	type st struct {
		c    *ChanObj
		send bool
		v    Value
		et   types.Type
	}
	var sts []st
	timer := false
	for _, s := range in.States {
		c, _ := fr.get(s.Chan).(*ChanObj)
		x := st{c: c, send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.send {
			x.v = fr.get(s.Send)
		} else if c != nil {
			if c.timer {
				if !timer || p.virtual && p.fork(tb.Slt(c.due, g.due)) {
					g.due = c.due
				}
				timer = true
			}
		}
		sts = append(sts, x)
	}
	ready := func(x st) bool {
		if x.c == nil {
			return false
		}
		if x.send {
			if x.c.closed {
				return true
			}
			if x.c.cap > 0 {
				return len(x.c.buf) < x.c.cap
			}
			return x.c.recvW > len(x.c.sendq)
		}
		return x.c.canRecv()
	}
	anyReady := func() bool {
		for _, x := range sts {
			if ready(x) {
				return true
			}
		}
		return false
	}
	g.where = "select at " + fr.pos()
	chosen := -1
	if !in.Blocking {
		p.schedPoint(g, nil, false)
		if !anyReady() {
			chosen = len(sts)
		}
	} else {
		for _, x := range sts {
			if !x.send && x.c != nil {
				x.c.recvW++
			}
		}
		p.schedPoint(g, anyReady, timer)
		for _, x := range sts {
			if !x.send && x.c != nil {
				x.c.recvW--
			}
		}
	}
	fired := g.fired
	g.fired = false
	var idx int
	var recv Value
	recvOK := false
	if chosen < 0 {
		var cands []int
		for i, x := range sts {
			if ready(x) {
				cands = append(cands, i)
			}
		}
		if fired || (len(cands) > 0 && timer && p.timerBud > 0) {
			for i, x := range sts {
				if x.c != nil && x.c.timer && !ready(x) && (!p.virtual || x.c.due == g.due) {
					cands = append(cands, i)
				}
			}
		}
		k := 0
		if len(cands) > 1 {
			k = p.choose("select", len(cands))
		}
		idx = cands[k]
		x := sts[idx]
		switch {
		case x.send:
			fr.chanSendNow(x.c, x.v)
		case x.c.timer && !x.c.canRecv():
			if !fired {
				p.timerBud--
			}
			p.timerFired(fr, x.c)
			recv, recvOK = fr.timeNow(), true
		default:
			v, ok := fr.chanTake(x.c)
			recv, recvOK = v, ok
			if !ok {
				recv = nil
			}
		}
	} else {
		idx = -1
	}
	res := Tuple{tb.BV(64, uint64(int64(idx))), tb.Bool(recvOK)}
	for i, x := range sts {
		if !x.send {
			if i == idx && recvOK {
				res = append(res, recv)
			} else {
				res = append(res, fr.w.zero(x.et))
			}
		}
	}
	return res
}

func (fr *Frame) chanSendNow(c *ChanObj, v Value) {
	if c.closed {
		fr.rtPanic("send on closed channel")
	}
	if c.cap > 0 {
		if i := c.sent - c.cap; i >= 0 && i < len(c.slots) {
			fr.g.acquire(c.slots[i])
		}
		c.sent++
		c.buf = append(c.buf, chanMsg{copyVal(v), fr.g.release(nil)})
		return
	}
	sw := &sendWait{v: copyVal(v), vc: fr.g.release(nil)}
	c.sendq = append(c.sendq, sw)
	fr.p.schedPoint(fr.g, func() bool { return sw.done || c.closed }, false)
	if !sw.done {
		fr.rtPanic("send on closed channel")
	}
	fr.g.acquire(sw.dvc)
}

// --- builtins

func (fr *Frame) builtin(b *ssa.Builtin, args []Value, site ssa.Instruction) Value {
	tb := fr.w.tb
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case Str:
			return tb.BV(64, uint64(v.length()))
		case []Value:
			if b.Name() == "cap" {
				return tb.BV(64, uint64(cap(v)))
			}
			return tb.BV(64, uint64(len(v)))
		case *BigSlice:
			if b.Name() == "cap" {
				return v.cap
			}
			return v.len
		case Array:
			return tb.BV(64, uint64(len(v)))
		case *Value:
			a := (*fr.deref(v)).(Array)
			return tb.BV(64, uint64(len(a)))
		case *MapObj:
			if v == nil {
				return tb.BV(64, 0)
			}
			fr.access(&v.cell, false)
			return tb.BV(64, uint64(v.n))
		case *ChanObj:
			if v == nil {
				return tb.BV(64, 0)
			}
			fr.p.schedPoint(fr.g, nil, false)
			if b.Name() == "cap" {
				return tb.BV(64, uint64(v.cap))
			}
			return tb.BV(64, uint64(len(v.buf)))
		}
		panic(unsupported(fmt.Sprintf("len of %T", args[0])))
	case "append":
		return fr.appendVal(args[0], args[1], b)
	case "copy":
		return fr.copyBuiltin(args[0], args[1])
	case "close":
		c, _ := args[0].(*ChanObj)
		fr.chanClose(c)
		return nil
	case "delete":
		m, _ := args[0].(*MapObj)
		fr.mapDelete(m, args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapObj:
			if v != nil {
				fr.access(&v.cell, true)
				for _, e := range v.entries {
					if !e.dead {
						fr.mapKill(v, e)
					}
				}
			}
			return nil
		case []Value:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range v {
				fr.store(&v[i], fr.w.zero(et))
			}
			return nil
		}
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0], pos: fr.pos(), stack: fr.stack()})
	case "recover":
		return fr.doRecover()
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = fr.minmax(b, r, a)
		}
		return r
	case "String": // unsafe.String
		return fr.unsafeString(args[0], args[1].(*Term))
	case "StringData":
		s := args[0].(Str)
		return &SliceData{str: &s}
	case "SliceData":
		switch sl := args[0].(type) {
		case []Value:
			if sl == nil {
				return (*Value)(nil)
			}
			return &SliceData{sl: sl}
		}
	case "Slice": // unsafe.Slice
		n := int(fr.p.concretize(args[1].(*Term), "unsafe.Slice"))
		switch p := args[0].(type) {
		case *SliceData:
			if p.str != nil {
				return fr.w.bytesToSlice(fr.w.strSlice(*p.str, 0, n))
			}
			return p.sl[:n:n]
		case *Value:
			if p == nil && n == 0 {
				return []Value(nil)
			}
			if n == 1 {
				s := make([]Value, 1)
				_ = s
			}
		}
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return (*Value)(nil)
	}
	panic(unsupported("builtin " + b.Name()))
}

func (fr *Frame) unsafeString(p Value, n *Term) Value {
	k := int(fr.p.concretize(n, "unsafe.String length"))
	switch p := p.(type) {
	case *SliceData:
		if p.str != nil {
			return fr.w.strSlice(*p.str, 0, k)
		}
		return sliceToStr(p.sl[:k])
	case *Value:
		if k == 0 {
			return Str{}
		}
		if k == 1 {
			return sliceToStr([]Value{*p})
		}
	}
	panic(unsupported(fmt.Sprintf("unsafe.String of %T", p)))
}

func (fr *Frame) minmax(b *ssa.Builtin, x, y Value) Value {
	t := b.Type().(*types.Signature).Params().At(0).Type()
	var less *Term
	op := token.LSS
	if b.Name() == "max" {
		op = token.GTR
	}
	less = fr.binop(op, t, x, y, t).(*Term)
	if a, ok := x.(*Term); ok && !isFP(a.w) {
		return fr.w.tb.Ite(less, a, y.(*Term))
	}
	if fr.p.fork(less) {
		return x
	}
	return y
}

func (fr *Frame) appendVal(dst, src Value, b *ssa.Builtin) Value {
	if s, ok := src.(Str); ok {
		src = fr.w.bytesToSlice(s)
	}
	if bs, ok := src.(*BigSlice); ok {
		if bs.len.isConst() && bs.len.val <= 4096 {
			src = fr.bigElems(bs)
		} else {
			return fr.bigAppend(dst, bs)
		}
	}
	ss := src.([]Value)
	if bd, ok := dst.(*BigSlice); ok {
		if bd.len.isConst() && bd.len.val <= 4096 {
			dst = fr.bigElems(bd)
		} else {
			return fr.bigAppendElems(bd, ss)
		}
	}
	d := dst.([]Value)
	for i := range ss {
		fr.access(&ss[i], false)
	}
	if len(ss) == 0 {
		return d
	}
	if fr.p.alloc > 0 && len(d)+len(ss) > cap(d) {
		if sl, ok := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice); ok {
			fr.allocCheck(fr.w.tb.BV(64, uint64(len(d)+len(ss))), sl.Elem())
		}
	}
	n := len(d) + len(ss)
	var r []Value
	if n <= cap(d) {
		r = d[:n]
		for i := range ss {
			fr.access(&r[len(d)+i], true)
		}
	} else {
		c := 2 * cap(d)
		if c < n {
			c = n
		}
		if c < 8 && n > 1 {
			c = 8
		}
		r = make([]Value, n, c)
		for i := range d {
			fr.access(&d[i], false)
			r[i] = copyVal(d[i])
		}
		// the spare capacity must hold typed zero values
		if c > n {
			z := zeroLike(fr.w, ss[0], b)
			full := r[:c]
			for i := n; i < c; i++ {
				full[i] = copyVal(z)
			}
		}
	}
	if n <= cap(d) {
		tmp := make([]Value, len(ss))
		for i := range ss {
			tmp[i] = copyVal(ss[i])
		}
		for i := range tmp {
			assignInto(&r[len(d)+i], tmp[i])
		}
	} else {
		for i := range ss {
			r[len(d)+i] = copyVal(ss[i])
		}
	}
	return r
}

func zeroLike(w *Worker, v Value, b *ssa.Builtin) Value {
	if b != nil {
		if sig, ok := b.Type().(*types.Signature); ok && sig.Params().Len() > 0 {
			if sl, ok := sig.Params().At(0).Type().Underlying().(*types.Slice); ok {
				return w.zero(sl.Elem())
			}
		}
	}
	if t, ok := v.(*Term); ok {
		return w.tb.BV(t.w, 0)
	}
	return v
}

func (fr *Frame) copyBuiltin(dst, src Value) Value {
	tb := fr.w.tb
	if s, ok := src.(Str); ok {
		src = fr.w.bytesToSlice(s)
	}
	d, ok1 := dst.([]Value)
	s, ok2 := src.([]Value)
	if ok1 && ok2 {
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			fr.access(&s[i], false)
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			fr.access(&d[i], true)
			assignInto(&d[i], tmp[i])
		}
		return tb.BV(64, uint64(n))
	}
	return fr.bigCopy(dst, src)
}
