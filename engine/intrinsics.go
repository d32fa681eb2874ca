package main

// Functions that are not interpreted from source: the harness interface (vs),
// synchronisation, time, randomness, assembly helpers, formatting, logging.

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(fr *Frame, fn *ssa.Function, args []Value) Value

var intrinsics = map[string]intrinsic{}
var intrCache sync.Map

const vsPath = modPath + "/internal/verif/vs"

func reg(name string, f intrinsic) {
	if _, dup := intrinsics[name]; dup {
		panic("duplicate intrinsic " + name)
	}
	intrinsics[name] = f
}

var noopPkgs = map[string]bool{
	"go.uber.org/zap": true, "go.uber.org/zap/zapcore": true, "go.uber.org/zap/buffer": true,
	"github.com/gosuri/uilive": true, "log": true,
	"internal/race": true, "internal/msan": true, "internal/asan": true, "internal/godebug": true,
}

func intrinsicFor(fn *ssa.Function) intrinsic {
	if x, ok := intrCache.Load(fn); ok {
		f, _ := x.(intrinsic)
		return f
	}
	f := findIntrinsic(fn)
	intrCache.Store(fn, f)
	return f
}

func findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if o := fn.Origin(); o != nil && o != fn {
		if f, ok := intrinsics[o.String()]; ok {
			return f
		}
	}
	var pkg string
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance") {
		// wrappers and thunks are interpreted; they reach the real function
		if !noopPkgs[pkg] || len(fn.Blocks) > 0 {
			return nil
		}
	}
	if pkg == "reflect" {
		if r := fn.Signature.Recv(); r != nil {
			if isNamed(r.Type(), "reflect", "Value") {
				n := fn.Name()
				return func(fr *Frame, fn *ssa.Function, args []Value) Value { return fr.reflectValueMethod(n, fn, args) }
			}
			return nil
		}
		if fn.Parent() == nil {
			n := fn.Name()
			switch n {
			case "ValueOf", "TypeOf", "New", "Zero", "MakeSlice", "MakeMap", "MakeMapWithSize", "Append", "Indirect", "PointerTo", "PtrTo", "SliceOf", "DeepEqual":
				return func(fr *Frame, fn *ssa.Function, args []Value) Value { return fr.reflectFunc(n, fn, args) }
			}
		}
		return nil
	}
	if noopPkgs[pkg] {
		return noop
	}
	return nil
}

// noop stands for logging and display code: results are zero values,
// pointers to structures are fresh objects.
func noop(fr *Frame, fn *ssa.Function, args []Value) Value {
	if r := fn.Signature.Recv(); r != nil && len(args) > 0 {
		if p, ok := args[0].(*Value); ok && p == nil {
			if _, isp := r.Type().Underlying().(*types.Pointer); isp && !strings.Contains(fn.String(), "CheckedEntry") && !strings.Contains(fn.String(), "godebug") {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}
		}
	}
	n := fn.Name()
	if fn.Signature.Recv() != nil && (n == "Fatal" || n == "Fatalf" || n == "Fatalw" || n == "Fatalln") || (fn.Pkg != nil && fn.Pkg.Pkg.Path() == "log" && strings.HasPrefix(n, "Fatal")) {
		fr.exit(1)
	}
	if n == "Panic" || n == "Panicf" || n == "DPanic" || n == "Panicw" {
		if n != "DPanic" {
			fr.rpanic("log panic")
		}
	}
	res := fn.Signature.Results()
	mk := func(t types.Type) Value {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if _, st := p.Elem().Underlying().(*types.Struct); st {
				c := new(Value)
				*c = fr.w.zero(p.Elem())
				return c
			}
		}
		return fr.w.zero(t)
	}
	if n == "Write" && res.Len() == 2 && len(args) == 2 {
		return Tuple{fr.sliceLen(args[1]), Iface{}}
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(res.At(0).Type())
	}
	out := make(Tuple, res.Len())
	for i := range out {
		out[i] = mk(res.At(i).Type())
	}
	return out
}

func (fr *Frame) sliceLen(v Value) *Term {
	switch s := v.(type) {
	case []Value:
		return fr.w.tb.BV(64, uint64(len(s)))
	case *BigSlice:
		return s.len
	case Str:
		return fr.w.tb.BV(64, uint64(s.length()))
	}
	panic(unsupported(fmt.Sprintf("length of %T", v)))
}

func (fr *Frame) exit(code int) {
	p := fr.p
	p.e.mu.Lock()
	p.e.reach["exit"]++
	p.e.mu.Unlock()
	panic(pathEnd{"exit"})
}

func conc(v Value) string {
	s := v.(Str)
	if !s.isConc() {
		panic(unsupported("symbolic string where a constant is expected"))
	}
	return s.s
}

func (fr *Frame) cint(v Value) int {
	return int(int64(fr.p.concretize(v.(*Term), "argument")))
}

func constFn(f func(fr *Frame) Value) intrinsic {
	return func(fr *Frame, fn *ssa.Function, args []Value) Value { return f(fr) }
}

func zeroRes(fr *Frame, fn *ssa.Function, args []Value) Value {
	if fn.Signature.Results().Len() == 0 {
		return nil
	}
	return fr.w.zero(fn.Signature.Results())
}

func identity(fr *Frame, fn *ssa.Function, args []Value) Value { return args[0] }

func init() {
	regVS()
	regSync()
	regAtomic()
	regTime()
	regMath()
	regBytealg()
	regRand()
	regFmt()
	regStrconv()
	regMisc()
	regHash()
	regBinary()
}

// --- vs

func regVS() {
	v := func(name string, f intrinsic) { reg(vsPath+"."+name, f) }
	mkv := func(wd uint8) intrinsic {
		return func(fr *Frame, fn *ssa.Function, args []Value) Value {
			return fr.p.newVar(conc(args[0]), wd, 0, mask(wd))
		}
	}
	v("U8", mkv(8))
	v("U16", mkv(16))
	v("U32", mkv(32))
	v("U64", mkv(64))
	v("I32", mkv(32))
	v("I64", mkv(64))
	v("Int", mkv(64))
	v("Bool", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		t := fr.p.newVar(conc(args[0]), 8, 0, 1)
		return fr.w.tb.Eq(t, fr.w.tb.BV(8, 1))
	})
	v("IntRange", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		lo, hi := int64(fr.cint(args[1])), int64(fr.cint(args[2]))
		tb := fr.w.tb
		if lo >= 0 {
			if hi < lo {
				panic(pathEnd{"empty range"})
			}
			return fr.p.newVar(conc(args[0]), 64, uint64(lo), uint64(hi))
		}
		t := fr.p.newVar(conc(args[0]), 64, 0, mask(64))
		fr.p.assume(tb.And(tb.Sle(tb.BV(64, uint64(lo)), t), tb.Sle(t, tb.BV(64, uint64(hi)))))
		return t
	})
	v("Choose", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		n := fr.cint(args[1])
		if n <= 0 {
			panic(pathEnd{"empty choice"})
		}
		return fr.w.tb.BV(64, uint64(fr.p.choose(conc(args[0]), n)))
	})
	bytesOf := func(fr *Frame, name string, n int) []*Term {
		k := fr.p.names[name]
		fr.p.names[name] = k + 1
		out := make([]*Term, n)
		for i := range out {
			out[i] = fr.p.newVarExact(fmt.Sprintf("%s#%d[%d]", name, k, i), 8, 0, 255)
		}
		return out
	}
	v("Bytes", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		b := bytesOf(fr, conc(args[0]), fr.cint(args[1]))
		out := make([]Value, len(b))
		for i, t := range b {
			out[i] = t
		}
		return out
	})
	v("Str", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return mkStr(bytesOf(fr, conc(args[0]), fr.cint(args[1])))
	})
	v("BigBytes", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		n := args[1].(*Term)
		tb := fr.w.tb
		fr.p.bigSeq++
		name := conc(args[0])
		k := fr.p.names[name]
		fr.p.names[name] = k + 1
		return &BigSlice{&Big{id: fr.p.bigSeq, name: fmt.Sprintf("%s#%d", name, k)}, tb.BV(64, 0), n, n}
	})
	v("Assume", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.assume(args[0].(*Term))
		return nil
	})
	v("Assert", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		l := conc(args[1])
		fr.p.assert(args[0].(*Term), l, "assertion failed: "+l, fr.pos())
		return nil
	})
	v("Fail", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		l := conc(args[0])
		fr.p.assert(fr.w.tb.False, l, "assertion failed: "+l, fr.pos())
		return nil
	})
	v("Reach", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		e := fr.p.e
		e.mu.Lock()
		e.reach[conc(args[0])]++
		e.mu.Unlock()
		return nil
	})
	v("Thorough", func(fr *Frame, fn *ssa.Function, args []Value) Value { return fr.w.tb.Bool(fr.p.e.thorough) })
	v("Bound", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		q, t := fr.cint(args[1]), fr.cint(args[2])
		r := q
		if fr.p.e.thorough {
			r = t
		}
		e := fr.p.e
		e.mu.Lock()
		e.bounds[conc(args[0])] = fmt.Sprint(r)
		e.mu.Unlock()
		return fr.w.tb.BV(64, uint64(int64(r)))
	})
	v("Concrete", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.w.tb.BV(64, fr.p.concretize(args[0].(*Term), "vs.Concrete"))
	})
	v("AllocLimit", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.alloc = int64(fr.cint(args[0]))
		return nil
	})
	v("MapOrder", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.mapOrder = args[0].(*Term).isTrue()
		return nil
	})
	v("Races", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.races = args[0].(*Term).isTrue()
		return nil
	})
	v("Preemptions", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.maxPre = fr.p.preempt + fr.cint(args[0])
		return nil
	})
	v("Delays", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.delayMode, fr.p.delayBud = true, fr.cint(args[0])
		return nil
	})
	v("LateStarts", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.lateBud = fr.cint(args[0])
		return nil
	})
	v("Timers", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.timerBud = fr.cint(args[0])
		return nil
	})
	v("Scale", func(fr *Frame, fn *ssa.Function, args []Value) Value { return args[0] })
	v("MaxSteps", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.maxSt = fr.p.steps + int64(fr.cint(args[0]))
		return nil
	})
	v("And", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.w.tb.And(args[0].(*Term), args[1].(*Term))
	})
	v("Or", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.w.tb.Or(args[0].(*Term), args[1].(*Term))
	})
	v("Implies", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.w.tb.Implies(args[0].(*Term), args[1].(*Term))
	})
	v("IteInt", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.w.tb.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))
	})
	v("IteU64", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.w.tb.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))
	})
	v("IteU8", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.w.tb.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))
	})
	v("EqBytes", func(fr *Frame, fn *ssa.Function, args []Value) Value { return fr.bytesEq(args[0], args[1]) })
	v("EqStr", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.w.strEq(args[0].(Str), args[1].(Str))
	})
	v("LessStr", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.w.strLess(args[0].(Str), args[1].(Str))
	})
	v("At", func(fr *Frame, fn *ssa.Function, args []Value) Value { // b[i] or 0 without forking
		tb := fr.w.tb
		i := args[1].(*Term)
		switch b := args[0].(type) {
		case []Value:
			r := tb.BV(8, 0)
			for k := len(b) - 1; k >= 0; k-- {
				r = tb.Ite(tb.Eq(i, tb.BV(64, uint64(k))), b[k].(*Term), r)
			}
			return r
		case *BigSlice:
			return tb.Ite(tb.Ult(i, b.len), fr.bigRead(b.big, tb.Add(b.off, i)), tb.BV(8, 0))
		}
		panic(unsupported("vs.At"))
	})
	v("Yield", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.schedPoint(fr.g, nil, false)
		return nil
	})
	v("Atomically", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		// runs f without scheduling points or race checks
		sm, sr := fr.p.multi, fr.p.races
		fr.p.multi, fr.p.races = false, false
		fr.p.call(fr, args[0], nil, nil)
		fr.p.multi, fr.p.races = sm, sr
		return nil
	})
	v("Panics", func(fr *Frame, fn *ssa.Function, args []Value) (res Value) {
		d := fr.g.depth
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok && !tp.exit {
					fr.g.depth = d
					res = fr.w.tb.True
					return
				}
				panic(r)
			}
		}()
		fr.p.call(fr, args[0], nil, nil)
		return fr.w.tb.False
	})
	v("Symbolic", func(fr *Frame, fn *ssa.Function, args []Value) Value { return fr.w.tb.True })
	v("Live", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		n := 0
		for _, g := range fr.p.gors {
			if !g.dead && g != fr.g {
				n++
			}
		}
		return fr.w.tb.BV(64, uint64(n))
	})
	v("Advance", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.clockInit(fr)
		fr.p.clock = fr.w.tb.Add(fr.p.clock, args[0].(*Term))
		return nil
	})
	v("FreezeClock", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.frozen = args[0].(*Term).isTrue()
		return nil
	})
	v("VirtualTime", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.virtual = args[0].(*Term).isTrue()
		fr.p.clockInit(fr)
		return nil
	})
	v("LastTimer", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		d := fr.p.lastTimer
		fr.p.lastTimer = nil
		if d == nil {
			d = fr.w.tb.BV(64, 0)
		}
		return d
	})
	v("DistinctRand", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.distinctRand = args[0].(*Term).isTrue()
		return nil
	})
	v("Settle", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		// let every other goroutine run until it blocks or ends
		p, g := fr.p, fr.g
		if !p.multi {
			return nil
		}
		g.where = "vs.Settle"
		p.schedPoint(g, func() bool {
			for _, o := range p.gors {
				if o != g && p.runnable(o) {
					return false
				}
			}
			return true
		}, false)
		for _, o := range p.gors {
			if o.dead {
				g.acquire(o.vc)
			}
		}
		return nil
	})
}

func (fr *Frame) bytesEq(a, b Value) *Term {
	tb := fr.w.tb
	x, ok1 := a.([]Value)
	y, ok2 := b.([]Value)
	if !ok1 || !ok2 {
		// big slices: concrete small length only
		norm := func(v Value) []Value {
			switch s := v.(type) {
			case []Value:
				return s
			case *BigSlice:
				if s.len.isConst() && s.len.val <= 1<<16 {
					return fr.bigElems(s)
				}
				if s.len.hi <= 256 || fr.p.eval(s.len) <= 1<<16 {
					n := fr.p.concretize(s.len, "slice length")
					if n > 1<<16 {
						panic(unsupported("equality of byte slices with symbolic length"))
					}
					return fr.bigElems(&BigSlice{s.big, s.off, tb.BV(64, n), s.cap})
				}
			}
			panic(unsupported("equality of byte slices with symbolic length"))
		}
		if xb, ok := a.(*BigSlice); ok {
			if yb, ok := b.(*BigSlice); ok && xb.big == yb.big && xb.off == yb.off && xb.len == yb.len {
				return tb.True
			}
		}
		x, y = norm(a), norm(b)
	}
	if len(x) != len(y) {
		return tb.False
	}
	r := tb.True
	for i := range x {
		fr.access(&x[i], false)
		fr.access(&y[i], false)
		r = tb.And(r, tb.Eq(x[i].(*Term), y[i].(*Term)))
		if r.isFalse() {
			break
		}
	}
	return r
}

// --- sync

func regSync() {
	lock := func(fr *Frame, fn *ssa.Function, args []Value) Value {
		c := fr.deref(args[0])
		s := fr.p.syncOf(c)
		fr.g.where = "lock at " + fr.pos()
		fr.p.schedPoint(fr.g, func() bool { return !s.locked && s.readers == 0 }, false)
		s.locked = true
		fr.g.acquire(s.vc)
		fr.g.acquire(s.rvc)
		return nil
	}
	unlock := func(fr *Frame, fn *ssa.Function, args []Value) Value {
		c := fr.deref(args[0])
		s := fr.p.syncOf(c)
		if !s.locked {
			panic(targetPanic{v: Iface{t: types.Typ[types.String], v: Str{s: "fatal error: sync: unlock of unlocked mutex"}}, pos: fr.pos(), stack: fr.stack(), exit: true})
		}
		s.locked = false
		s.vc = fr.g.release(s.vc)
		return nil
	}
	try := func(fr *Frame, fn *ssa.Function, args []Value) Value {
		c := fr.deref(args[0])
		s := fr.p.syncOf(c)
		fr.p.schedPoint(fr.g, nil, false)
		if s.locked || s.readers > 0 {
			return fr.w.tb.False
		}
		s.locked = true
		fr.g.acquire(s.vc)
		fr.g.acquire(s.rvc)
		return fr.w.tb.True
	}
	for _, t := range []string{"sync.Mutex", "sync.RWMutex", "internal/sync.Mutex"} {
		reg("(*"+t+").Lock", lock)
		reg("(*"+t+").Unlock", unlock)
		reg("(*"+t+").TryLock", try)
	}
	reg("(*sync.RWMutex).RLock", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		s := fr.p.syncOf(fr.deref(args[0]))
		fr.g.where = "rlock at " + fr.pos()
		fr.p.schedPoint(fr.g, func() bool { return !s.locked }, false)
		s.readers++
		fr.g.acquire(s.vc)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		s := fr.p.syncOf(fr.deref(args[0]))
		if s.readers == 0 {
			panic(targetPanic{v: Iface{t: types.Typ[types.String], v: Str{s: "fatal error: sync: RUnlock of unlocked RWMutex"}}, pos: fr.pos(), stack: fr.stack(), exit: true})
		}
		s.readers--
		s.rvc = fr.g.release(s.rvc)
		return nil
	})
	add := func(fr *Frame, c *Value, d int64) {
		s := fr.p.syncOf(c)
		fr.p.schedPoint(fr.g, nil, false)
		s.n += d
		if s.n < 0 {
			fr.rpanic("sync: negative WaitGroup counter")
		}
		s.vc = fr.g.release(s.vc)
	}
	reg("(*sync.WaitGroup).Add", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		add(fr, fr.deref(args[0]), int64(fr.cint(args[1])))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		add(fr, fr.deref(args[0]), -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		s := fr.p.syncOf(fr.deref(args[0]))
		fr.g.where = "WaitGroup.Wait at " + fr.pos()
		fr.p.schedPoint(fr.g, func() bool { return s.n == 0 }, false)
		fr.g.acquire(s.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		c := fr.deref(args[0])
		add(fr, c, 1)
		f := args[1]
		fr.p.spawn("wg.Go", &NativeFn{name: "wg.Go", f: func(nf *Frame, _ []Value) Value {
			nf.p.call(nf, f, nil, nil)
			add(nf, c, -1)
			return nil
		}}, nil)
		return nil
	})
	reg("(*sync.Cond).Wait", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		c := fr.deref(args[0])
		s := fr.p.syncOf(c)
		L := (*c).(Struct)
		var lk Iface
		for _, f := range L {
			if i, ok := f.(Iface); ok {
				lk = i
			}
		}
		g := fr.g
		s.conds = append(s.conds, g)
		fr.p.call(fr, fr.methodOf(lk.t, nil, "Unlock"), []Value{lk.v}, nil)
		g.where = "Cond.Wait at " + fr.pos()
		fr.p.schedPoint(g, func() bool {
			for _, x := range s.conds {
				if x == g {
					return false
				}
			}
			return true
		}, false)
		g.acquire(s.vc)
		fr.p.call(fr, fr.methodOf(lk.t, nil, "Lock"), []Value{lk.v}, nil)
		return nil
	})
	sig := func(all bool) intrinsic {
		return func(fr *Frame, fn *ssa.Function, args []Value) Value {
			s := fr.p.syncOf(fr.deref(args[0]))
			fr.p.schedPoint(fr.g, nil, false)
			s.vc = fr.g.release(s.vc)
			if all {
				s.conds = nil
			} else if len(s.conds) > 0 {
				s.conds = s.conds[1:]
			}
			return nil
		}
	}
	reg("(*sync.Cond).Signal", sig(false))
	reg("(*sync.Cond).Broadcast", sig(true))
	reg("(*sync.Pool).Get", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		c := fr.deref(args[0])
		st := fr.p.syncOf(c)
		if free, _ := st.val.([]Value); len(free) > 0 {
			// the last one put back, as on a single processor
			fr.g.acquire(st.vc)
			st.val = free[: len(free)-1 : len(free)-1]
			return free[len(free)-1]
		}
		s := (*c).(Struct)
		nf := s[len(s)-1]
		if isNilFunc(nf) {
			return Iface{}
		}
		return fr.p.call(fr, nf, nil, nil)
	})
	reg("(*sync.Pool).Put", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		if i, ok := args[1].(Iface); ok && i.t == nil {
			return nil
		}
		st := fr.p.syncOf(fr.deref(args[0]))
		free, _ := st.val.([]Value)
		st.val = append(free, args[1])
		st.vc = fr.g.release(st.vc)
		return nil
	})
	reg("(*sync.Once).Do", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		s := fr.p.syncOf(fr.deref(args[0]))
		fr.g.where = "Once.Do at " + fr.pos()
		fr.p.schedPoint(fr.g, func() bool { return !s.locked }, false)
		if s.n > 0 {
			fr.g.acquire(s.vc)
			return nil
		}
		s.locked = true
		defer func() {
			s.n, s.locked = 1, false
			s.vc = fr.g.release(s.vc)
		}()
		fr.p.call(fr, args[1], nil, nil)
		return nil
	})
	// sync.Map over an ordinary map
	mp := func(fr *Frame, v Value) *MapObj {
		s := fr.p.syncOf(fr.deref(v))
		if s.val == nil {
			e := types.NewInterfaceType(nil, nil)
			s.val = newMap(e, e)
		}
		fr.p.schedPoint(fr.g, nil, false)
		fr.g.acquire(s.vc)
		s.vc = fr.g.release(s.vc)
		return s.val.(*MapObj)
	}
	quiet := func(fr *Frame, f func()) {
		r := fr.p.races
		fr.p.races = false
		f()
		fr.p.races = r
	}
	reg("(*sync.Map).Load", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		m := mp(fr, args[0])
		if e := fr.mapFind(m, args[1]); e != nil {
			return Tuple{e.v, fr.w.tb.True}
		}
		return Tuple{Iface{}, fr.w.tb.False}
	})
	reg("(*sync.Map).Store", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		m := mp(fr, args[0])
		quiet(fr, func() { fr.mapSet(m, args[1], args[2]) })
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		m := mp(fr, args[0])
		if e := fr.mapFind(m, args[1]); e != nil {
			return Tuple{e.v, fr.w.tb.True}
		}
		quiet(fr, func() { fr.mapSet(m, args[1], args[2]) })
		return Tuple{args[2], fr.w.tb.False}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		m := mp(fr, args[0])
		if e := fr.mapFind(m, args[1]); e != nil {
			fr.mapKill(m, e)
			return Tuple{e.v, fr.w.tb.True}
		}
		return Tuple{Iface{}, fr.w.tb.False}
	})
	reg("(*sync.Map).Delete", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		m := mp(fr, args[0])
		quiet(fr, func() { fr.mapDelete(m, args[1]) })
		return nil
	})
	reg("(*sync.Map).Range", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		m := mp(fr, args[0])
		var es []*mapEntry
		for _, e := range m.entries {
			if !e.dead {
				es = append(es, e)
			}
		}
		for _, e := range es {
			if !fr.p.fork(fr.p.call(fr, args[1], []Value{e.k, e.v}, nil).(*Term)) {
				break
			}
		}
		return nil
	})
}

// --- sync/atomic

func regAtomic() {
	at := func(fr *Frame, v Value) *Value {
		c := fr.deref(v)
		fr.p.schedPoint(fr.g, nil, false)
		s := fr.p.syncOf(c)
		fr.g.acquire(s.vc)
		s.vc = fr.g.release(s.vc)
		return c
	}
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+k, func(fr *Frame, fn *ssa.Function, args []Value) Value { return *at(fr, args[0]) })
		reg("sync/atomic.Store"+k, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			*at(fr, args[0]) = args[1]
			return nil
		})
		reg("sync/atomic.Swap"+k, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			c := at(fr, args[0])
			o := *c
			*c = args[1]
			return o
		})
		reg("sync/atomic.CompareAndSwap"+k, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			c := at(fr, args[0])
			if fr.p.fork(fr.eqVal(*c, args[1])) {
				*c = args[2]
				return fr.w.tb.True
			}
			return fr.w.tb.False
		})
		if k == "Pointer" {
			continue
		}
		reg("sync/atomic.Add"+k, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			c := at(fr, args[0])
			*c = fr.w.tb.Add((*c).(*Term), args[1].(*Term))
			return *c
		})
		reg("sync/atomic.And"+k, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			c := at(fr, args[0])
			o := *c
			*c = fr.w.tb.BvAnd(o.(*Term), args[1].(*Term))
			return o
		})
		reg("sync/atomic.Or"+k, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			c := at(fr, args[0])
			o := *c
			*c = fr.w.tb.BvOr(o.(*Term), args[1].(*Term))
			return o
		})
	}
	av := func(fr *Frame, v Value) *syncState {
		c := at(fr, v)
		return fr.p.syncOf(c)
	}
	reg("(*sync/atomic.Value).Load", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		s := av(fr, args[0])
		if s.val == nil {
			return Iface{}
		}
		return s.val
	})
	reg("(*sync/atomic.Value).Store", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		i := args[1].(Iface)
		if i.t == nil {
			fr.rpanic("sync/atomic: store of nil value into Value")
		}
		s := av(fr, args[0])
		if o, ok := s.val.(Iface); ok && o.t != nil && !types.Identical(o.t, i.t) {
			fr.rpanic("sync/atomic: store of inconsistently typed value into Value")
		}
		s.val = i
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		s := av(fr, args[0])
		o := s.val
		s.val = args[1].(Iface)
		if o == nil {
			return Iface{}
		}
		return o
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		s := av(fr, args[0])
		o, _ := s.val.(Iface)
		if fr.p.fork(fr.eqVal(o, args[1])) {
			s.val = args[2].(Iface)
			return fr.w.tb.True
		}
		return fr.w.tb.False
	})
}

// --- time

const (
	rndEven = iota
	rndAway
	rndCeil
	rndFloor
	rndTrunc
)

const clockBase = int64(1) << 40

func (p *Path) clockInit(fr *Frame) {
	if p.clock == nil {
		p.clock = p.w.tb.BV(64, uint64(clockBase))
	}
}

// timeNow returns a time.Time with monotonic reading: the previous reading
// plus an arbitrary non-negative amount.
func (fr *Frame) timeNow() Value {
	p, tb := fr.p, fr.w.tb
	p.clockInit(fr)
	if !p.frozen && !p.virtual {
		d := p.newVar("tick", 64, 0, 1<<43)
		p.clock = tb.Add(p.clock, d)
		if p.minClock != nil {
			p.assume(tb.Ule(p.minClock, p.clock))
			p.minClock = nil
		}
	}
	return fr.mkTime(p.clock)
}

func (fr *Frame) mkTime(ext *Term) Value {
	t := fr.w.zero(fr.rnamed("time", "Time")).(Struct)
	t[0] = fr.w.tb.BV(64, 1<<63|uint64(4_400_000_000)<<30)
	t[1] = ext
	t[2] = (*Value)(nil)
	return t
}

func isMono(t Struct) bool {
	w := t[0].(*Term)
	return w.isConst() && w.val>>63 == 1
}

type timerInfo struct {
	c       *ChanObj
	stopped bool
	fn      Value
	cell    *Value
	d       *Term
	gen     int
	tick    bool
}

func (fr *Frame) newTimerChan(d *Term) *ChanObj {
	p := fr.p
	p.clockInit(fr)
	p.lastTimer = d
	return &ChanObj{cap: 1, timer: true, due: fr.w.tb.Add(p.clock, d)}
}

func (p *Path) timerFired(fr *Frame, c *ChanObj) {
	if p.virtual {
		if c.due != nil && p.fork(p.w.tb.Slt(p.clock, c.due)) {
			p.clock = c.due
		}
	} else if c.due != nil && !p.frozen {
		tb := p.w.tb
		// the clock has reached the timer's due time
		if p.minClock == nil {
			p.minClock = c.due
		} else {
			p.minClock = tb.Ite(tb.Ult(p.minClock, c.due), c.due, p.minClock)
		}
	}
	if c.period != nil {
		c.due = p.w.tb.Add(c.due, c.period)
	} else {
		c.timer = false // one shot
	}
}

func (fr *Frame) mkTimer(tn string, c *ChanObj) *Value {
	cell := new(Value)
	st := fr.w.zero(fr.rnamed("time", tn)).(Struct)
	st[0] = c
	*cell = st
	return cell
}

func regTime() {
	reg("time.Now", constFn(func(fr *Frame) Value { return fr.timeNow() }))
	reg("time.Since", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		now := fr.timeNow()
		sub := fr.p.e.prog.LookupMethod(fr.rnamed("time", "Time"), nil, "Sub")
		return fr.p.callSSA(fr, sub, []Value{now, args[0]}, nil)
	})
	reg("time.Until", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		now := fr.timeNow()
		sub := fr.p.e.prog.LookupMethod(fr.rnamed("time", "Time"), nil, "Sub")
		return fr.p.callSSA(fr, sub, []Value{args[0], now}, nil)
	})
	reg("(time.Time).Sub", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		a, b := args[0].(Struct), args[1].(Struct)
		if isMono(a) && isMono(b) {
			return fr.w.tb.Sub(a[1].(*Term), b[1].(*Term))
		}
		return fr.interpret(fn, args)
	})
	reg("(time.Time).Add", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		a := args[0].(Struct)
		if isMono(a) {
			r := copyVal(a).(Struct)
			r[1] = fr.w.tb.Add(a[1].(*Term), args[1].(*Term))
			return r
		}
		return fr.interpret(fn, args)
	})
	for n, f := range map[string]func(time.Duration) float64{"Hours": time.Duration.Hours, "Minutes": time.Duration.Minutes, "Seconds": time.Duration.Seconds} {
		f := f
		reg("(time.Duration)."+n, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			d := args[0].(*Term)
			r := fr.interpret(fn, args).(*Term)
			fr.w.tb.setMono(r, d, true, func(x uint64) float64 { return f(time.Duration(x)) })
			return r
		})
	}
	reg("(time.Time).UnixNano", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		a := args[0].(Struct)
		if isMono(a) {
			return a[1]
		}
		return fr.interpret(fn, args)
	})
	reg("time.Sleep", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		c := fr.newTimerChan(args[0].(*Term))
		fr.chanRecv(c, nil)
		return nil
	})
	reg("time.After", func(fr *Frame, fn *ssa.Function, args []Value) Value { return fr.newTimerChan(args[0].(*Term)) })
	reg("time.NewTimer", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.mkTimer("Timer", fr.newTimerChan(args[0].(*Term)))
	})
	ticker := func(fr *Frame, d *Term) *ChanObj {
		c := fr.newTimerChan(d)
		c.period = d
		return c
	}
	reg("time.NewTicker", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		d := args[0].(*Term)
		if fr.p.fork(fr.w.tb.Sle(d, fr.w.tb.BV(64, 0))) {
			fr.rpanic("non-positive interval for NewTicker")
		}
		return fr.mkTimer("Ticker", ticker(fr, d))
	})
	reg("time.Tick", func(fr *Frame, fn *ssa.Function, args []Value) Value { return ticker(fr, args[0].(*Term)) })
	reg("(*time.Ticker).Stop", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		(*fr.deref(args[0])).(Struct)[0].(*ChanObj).timer = false
		return nil
	})
	reg("(*time.Ticker).Reset", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		c := (*fr.deref(args[0])).(Struct)[0].(*ChanObj)
		c.timer, c.period = true, args[1].(*Term)
		fr.p.clockInit(fr)
		c.due = fr.w.tb.Add(fr.p.clock, c.period)
		return nil
	})
	reg("(*time.Timer).Stop", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		c := (*fr.deref(args[0])).(Struct)[0].(*ChanObj)
		was := c.timer
		c.timer = false
		return fr.w.tb.Bool(was)
	})
	reg("(*time.Timer).Reset", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		c := (*fr.deref(args[0])).(Struct)[0].(*ChanObj)
		was := c.timer
		c.timer = true
		fr.p.clockInit(fr)
		c.due = fr.w.tb.Add(fr.p.clock, args[1].(*Term))
		fr.p.lastTimer = args[1].(*Term)
		if c.afn != nil && !was {
			fr.spawnTimerFn(c)
		}
		return fr.w.tb.Bool(was)
	})
	reg("time.AfterFunc", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		c := fr.newTimerChan(args[0].(*Term))
		c.afn = args[1]
		fr.spawnTimerFn(c)
		return fr.mkTimer("Timer", c)
	})
	reg("time.runtimeNow", zeroRes)
	reg("time.now", zeroRes)
	reg("time.runtimeNano", zeroRes)
}

func (fr *Frame) spawnTimerFn(c *ChanObj) {
	g := fr.p.spawn("AfterFunc", &NativeFn{name: "AfterFunc", f: func(nf *Frame, _ []Value) Value {
		nf.g.where = "timer"
		nf.g.daemon = true
		nf.g.due = c.due
		nf.p.schedPoint(nf.g, func() bool { return !c.timer }, true)
		if !c.timer {
			return nil // stopped
		}
		nf.g.daemon = false
		nf.p.timerFired(nf, c)
		nf.p.call(nf, c.afn, nil, nil)
		return nil
	}}, nil)
	g.daemon = true
}

// interpret runs the real body of an intercepted function.
func (fr *Frame) interpret(fn *ssa.Function, args []Value) Value {
	return fr.p.runSSA(fr, fn, args, nil)
}

// --- math

func regMath() {
	f1 := func(name string, g func(float64) float64, mode int) {
		reg("math."+name, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			t := args[0].(*Term)
			if t.isConst() {
				return fr.w.tb.F64(g(fval(t)))
			}
			if mode >= 0 {
				return fr.w.tb.FRound(t, uint64(mode))
			}
			return fr.interpret(fn, args)
		})
	}
	f1("Ceil", math.Ceil, rndCeil)
	f1("Floor", math.Floor, rndFloor)
	f1("Trunc", math.Trunc, rndTrunc)
	f1("Round", math.Round, rndAway)
	f1("RoundToEven", math.RoundToEven, rndEven)
	f1("Sqrt", math.Sqrt, -1)
	f1("Log", math.Log, -1)
	f1("Exp", math.Exp, -1)
	f1("Abs", math.Abs, -1)
	for name, g := range map[string]func(x, y float64) float64{"Min": math.Min, "Max": math.Max} {
		name, g := name, g
		reg("math."+name, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			a, b := args[0].(*Term), args[1].(*Term)
			tb := fr.w.tb
			if a.isConst() && b.isConst() {
				return tb.F64(g(fval(a), fval(b)))
			}
			less := tb.FCmp(OFLt, a, b)
			if name == "Max" {
				less = tb.FCmp(OFLt, b, a)
			}
			// NaN wins; signed zeros and NaN with infinity are not told apart
			t := tb.Ite(tb.FIsNaN(a), a, tb.Ite(tb.FIsNaN(b), b, tb.Ite(less, a, b)))
			return tb.minMono(t, a, b, g)
		})
	}
	reg("math.Pow", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		a, b := args[0].(*Term), args[1].(*Term)
		if a.isConst() && b.isConst() {
			return fr.w.tb.F64(math.Pow(fval(a), fval(b)))
		}
		return fr.interpret(fn, args)
	})
	for _, n := range []string{"archFloor", "archCeil", "archTrunc", "archLog", "archExp", "archMax", "archMin"} {
		n := n
		reg("math."+n, func(fr *Frame, fn *ssa.Function, args []Value) Value { panic(unsupported("math." + n)) })
	}
	reg("math.Float64bits", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		t := args[0].(*Term)
		if t.isConst() {
			return fr.w.tb.BV(64, t.val)
		}
		tb := fr.w.tb
		v := fr.p.newVar("fbits", 64, 0, mask(64))
		f := tb.FFromBits(v)
		fr.p.assume(tb.Or(tb.Eq(f, t), tb.And(tb.FIsNaN(t), tb.Eq(v, tb.BV(64, 0x7FF8000000000001)))))
		return v
	})
	reg("math.Float64frombits", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.w.tb.FFromBits(args[0].(*Term))
	})
	reg("math.IsNaN", func(fr *Frame, fn *ssa.Function, args []Value) Value { return fr.w.tb.FIsNaN(args[0].(*Term)) })
	reg("math.Float32bits", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		t := args[0].(*Term)
		if t.isConst() {
			return fr.w.tb.BV(32, uint64(math.Float32bits(float32(fval(t)))))
		}
		panic(unsupported("Float32bits of a symbolic value"))
	})
	// math/bits: pure functions with table or arithmetic bodies are interpreted;
	// the hot ones are given directly
	tz := func(wd uint8) intrinsic {
		return func(fr *Frame, fn *ssa.Function, args []Value) Value {
			tb := fr.w.tb
			x := args[0].(*Term)
			// which bit it is decides what happens next: one path each
			for i := 0; i < int(wd); i++ {
				if fr.p.fork(tb.Eq(tb.Extract(x, uint8(i), uint8(i)), tb.BV(1, 1))) {
					return tb.BV(64, uint64(i))
				}
			}
			return tb.BV(64, uint64(wd))
		}
	}
	lz := func(wd uint8, isLen bool) intrinsic {
		return func(fr *Frame, fn *ssa.Function, args []Value) Value {
			tb := fr.w.tb
			x := args[0].(*Term)
			r := tb.BV(64, 0) // Len
			for i := 0; i < int(wd); i++ {
				r = tb.Ite(tb.Eq(tb.Extract(x, uint8(i), uint8(i)), tb.BV(1, 1)), tb.BV(64, uint64(i+1)), r)
			}
			if isLen {
				return r
			}
			return tb.Sub(tb.BV(64, uint64(wd)), r)
		}
	}
	pc := func(wd uint8) intrinsic {
		return func(fr *Frame, fn *ssa.Function, args []Value) Value {
			tb := fr.w.tb
			x := args[0].(*Term)
			r := tb.BV(64, 0)
			for i := 0; i < int(wd); i++ {
				r = tb.Add(r, tb.Zext(tb.Extract(x, uint8(i), uint8(i)), 64))
			}
			return r
		}
	}
	rev := func(wd uint8) intrinsic {
		return func(fr *Frame, fn *ssa.Function, args []Value) Value {
			tb := fr.w.tb
			x := args[0].(*Term)
			r := tb.Extract(x, 0, 0)
			for i := 1; i < int(wd); i++ {
				r = tb.Concat(r, tb.Extract(x, uint8(i), uint8(i)))
			}
			return r
		}
	}
	for _, p := range []struct {
		s string
		w uint8
	}{{"", 64}, {"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}} {
		reg("math/bits.TrailingZeros"+p.s, tz(p.w))
		reg("math/bits.LeadingZeros"+p.s, lz(p.w, false))
		reg("math/bits.Len"+p.s, lz(p.w, true))
		reg("math/bits.OnesCount"+p.s, pc(p.w))
		reg("math/bits.Reverse"+p.s, rev(p.w))
	}
	reg("internal/runtime/sys.TrailingZeros64", tz(64))
	reg("internal/runtime/sys.Len64", lz(64, true))
	// popcount of bitset words (assembly-backed in the bitset package)
	for _, n := range []string{"popcntSlice", "popcntSliceGo"} {
		reg("github.com/bits-and-blooms/bitset."+n, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			tb := fr.w.tb
			r := tb.BV(64, 0)
			for _, v := range args[0].([]Value) {
				x := v.(*Term)
				for i := 0; i < 64; i++ {
					r = tb.Add(r, tb.Zext(tb.Extract(x, uint8(i), uint8(i)), 64))
				}
			}
			return r
		})
	}
}

// --- internal/bytealg and friends

func regBytealg() {
	find := func(fr *Frame, b []*Term, c *Term, last bool) Value {
		tb := fr.w.tb
		n := len(b)
		for k := 0; k < n; k++ {
			i := k
			if last {
				i = n - 1 - k
			}
			if fr.p.fork(tb.Eq(b[i], c)) {
				return tb.BV(64, uint64(i))
			}
		}
		return tb.BV(64, mask(64))
	}
	sl := func(fr *Frame, v Value) []*Term {
		switch s := v.(type) {
		case Str:
			return fr.w.strBytes(s)
		case []Value:
			out := make([]*Term, len(s))
			for i := range s {
				fr.access(&s[i], false)
				out[i] = s[i].(*Term)
			}
			return out
		case *BigSlice:
			return fr.w.strBytes(fr.bigToStr(s))
		}
		panic(unsupported(fmt.Sprintf("bytes of %T", v)))
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte"} {
		reg(n, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			return find(fr, sl(fr, args[0]), args[1].(*Term), false)
		})
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			return find(fr, sl(fr, args[0]), args[1].(*Term), true)
		})
	}
	idx := func(fr *Frame, fn *ssa.Function, args []Value) Value {
		a, b := sl(fr, args[0]), sl(fr, args[1])
		tb := fr.w.tb
		for i := 0; i+len(b) <= len(a); i++ {
			e := tb.True
			for j := range b {
				e = tb.And(e, tb.Eq(a[i+j], b[j]))
				if e.isFalse() {
					break
				}
			}
			if fr.p.fork(e) {
				return tb.BV(64, uint64(i))
			}
		}
		return tb.BV(64, mask(64))
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"} {
		reg(n, idx)
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		reg(n, func(fr *Frame, fn *ssa.Function, args []Value) Value {
			tb := fr.w.tb
			r := tb.BV(64, 0)
			for _, b := range sl(fr, args[0]) {
				r = tb.Add(r, tb.Ite(tb.Eq(b, args[1].(*Term)), tb.BV(64, 1), tb.BV(64, 0)))
			}
			return r
		})
	}
	eq := func(fr *Frame, fn *ssa.Function, args []Value) Value { return fr.bytesEq(args[0], args[1]) }
	reg("internal/bytealg.Equal", eq)
	reg("bytes.Equal", eq)
	cmp := func(fr *Frame, fn *ssa.Function, args []Value) Value {
		a, b := sl(fr, args[0]), sl(fr, args[1])
		tb := fr.w.tb
		x, y := mkStr(a), mkStr(b)
		lt, eqt := fr.w.strLess(x, y), fr.w.strEq(x, y)
		return tb.Ite(eqt, tb.BV(64, 0), tb.Ite(lt, tb.BV(64, mask(64)), tb.BV(64, 1)))
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("bytes.Compare", cmp)
	reg("strings.Compare", cmp)
	reg("cmp.CompareString", cmp)
	reg("internal/bytealg.MakeNoZero", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.makeSlice(types.Typ[types.Uint8], args[0].(*Term), args[0].(*Term))
	})
	reg("internal/bytealg.abigen_runtime_cmpstring", zeroRes)
	reg("internal/stringslite.Index", idx)
	reg("internal/stringslite.IndexByte", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return find(fr, sl(fr, args[0]), args[1].(*Term), false)
	})
	reg("strings.Clone", identity)
	reg("internal/stringslite.Clone", identity)
	reg("internal/abi.NoEscape", identity)
	reg("internal/abi.Escape", identity)
	reg("strings.noescape", identity)
	reg("crypto/subtle.ConstantTimeCompare", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		tb := fr.w.tb
		return tb.Ite(fr.bytesEq(args[0], args[1]), tb.BV(64, 1), tb.BV(64, 0))
	})
}

// --- randomness

// newRand is a random number: any value, or with vs.DistinctRand any value
// that differs from the earlier ones of its width.
func (p *Path) newRand(vn string, wd uint8, hi uint64) *Term {
	t := p.newVar(vn, wd, 0, hi)
	if p.distinctRand {
		tb := p.w.tb
		for _, o := range p.rands {
			if o.w == wd {
				p.assume(tb.Not(tb.Eq(o, t)))
			}
		}
		p.rands = append(p.rands, t)
	}
	return t
}

func regRand() {
	v := func(name, vn string, wd uint8, hi uint64) {
		reg(name, func(fr *Frame, fn *ssa.Function, args []Value) Value { return fr.p.newRand(vn, wd, hi) })
	}
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		v(p+".Uint32", "rand.Uint32", 32, mask(32))
		v(p+".Uint64", "rand.Uint64", 64, mask(64))
		v("(*"+p+".Rand).Uint32", "rand.Uint32", 32, mask(32))
		v("(*"+p+".Rand).Uint64", "rand.Uint64", 64, mask(64))
		v(p+".Int", "rand.Int", 64, mask(63))
		v("(*"+p+".Rand).Int", "rand.Int", 64, mask(63))
		for _, m := range []string{p + ".Float64", "(*" + p + ".Rand).Float64"} {
			reg(m, constFn(func(fr *Frame) Value { return fr.w.tb.F64(0.5) }))
		}
		for _, m := range []string{"Intn", "IntN", "Int63n", "Int64N", "Int31n", "Int32N"} {
			for _, q := range []string{p + "." + m, "(*" + p + ".Rand)." + m} {
				wd := uint8(64)
				if strings.Contains(m, "3") && strings.Contains(m, "1n") || m == "Int32N" {
					wd = 32
				}
				m := m
				reg(q, func(fr *Frame, fn *ssa.Function, args []Value) Value {
					tb := fr.w.tb
					n := args[len(args)-1].(*Term)
					if fr.p.fork(tb.Sle(n, tb.BV(wd, 0))) {
						fr.rpanic("invalid argument to " + m)
					}
					t := fr.p.newVar("rand."+m, wd, 0, mask(wd-1))
					fr.p.assume(tb.Ult(t, n))
					return t
				})
			}
		}
	}
	v("math/rand.Int31", "rand.Int31", 32, mask(31))
	v("math/rand.Int63", "rand.Int63", 64, mask(63))
	v("(*math/rand.Rand).Int31", "rand.Int31", 32, mask(31))
	v("(*math/rand.Rand).Int63", "rand.Int63", 64, mask(63))
	v("math/rand/v2.Int32", "rand.Int31", 32, mask(31))
	v("math/rand/v2.Int64", "rand.Int63", 64, mask(63))
	fill := func(fr *Frame, fn *ssa.Function, args []Value) Value {
		b := args[len(args)-1].([]Value)
		k := fr.p.names["rand.Read"]
		fr.p.names["rand.Read"] = k + 1
		for i := range b {
			fr.store(&b[i], fr.p.newVarExact(fmt.Sprintf("rand.Read#%d[%d]", k, i), 8, 0, 255))
		}
		return Tuple{fr.w.tb.BV(64, uint64(len(b))), Iface{}}
	}
	reg("math/rand.Read", fill)
	reg("(*math/rand.Rand).Read", fill)
	reg("crypto/rand.Read", fill)
	newR := func(fr *Frame, fn *ssa.Function, args []Value) Value { return noop(fr, fn, nil) }
	reg("math/rand.New", newR)
	reg("math/rand/v2.New", newR)
	reg("math/rand.NewSource", zeroRes)
	reg("math/rand/v2.NewPCG", newR)
	reg("math/rand.Seed", zeroRes)
	reg("github.com/google/uuid.NewString", constFn(func(fr *Frame) Value { return Str{s: "6ba7b810-9dad-41d1-80b4-00c04fd430c8"} }))
	reg("github.com/google/uuid.New", zeroRes)
}

// --- misc runtime support

func regMisc() {
	for _, n := range []string{"internal/syscall/unix.fcntl", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "internal/race.Acquire", "runtime.AddCleanup",
		"(*internal/godebug.Setting).IncNonDefault", "internal/poll.runtime_pollServerInit", "runtime.LockOSThread", "runtime.UnlockOSThread"} {
		if strings.HasPrefix(n, "internal/race") || strings.Contains(n, "godebug") {
			continue
		}
		reg(n, zeroRes)
	}
	reg("runtime.Gosched", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.p.schedPoint(fr.g, nil, false)
		return nil
	})
	reg("runtime.GOMAXPROCS", constFn(func(fr *Frame) Value { return fr.w.tb.BV(64, 8) }))
	reg("runtime.NumCPU", constFn(func(fr *Frame) Value { return fr.w.tb.BV(64, 8) }))
	reg("runtime.Caller", zeroRes)
	reg("runtime.Callers", zeroRes)
	reg("os.Exit", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		fr.exit(0)
		return nil
	})
	reg("runtime.Goexit", func(fr *Frame, fn *ssa.Function, args []Value) Value { panic(unsupported("Goexit")) })
	reg("os.Getenv", constFn(func(fr *Frame) Value { return Str{} }))
	reg("os.LookupEnv", func(fr *Frame, fn *ssa.Function, args []Value) Value { return Tuple{Str{}, fr.w.tb.False} })
	reg("syscall.Getpagesize", constFn(func(fr *Frame) Value { return fr.w.tb.BV(64, 4096) }))
	reg("unique.Make", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		k, ok := canonKey(args[0])
		if !ok {
			panic(unsupported("unique.Make of a symbolic value"))
		}
		k = fn.Signature.Results().At(0).Type().String() + "|" + k
		c := fr.w.uniq[k]
		if c == nil {
			c = new(Value)
			*c = copyVal(args[0])
			fr.w.uniq[k] = c
		}
		return Struct{c}
	})
	reg("errors.Is", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return fr.errIs(args[0].(Iface), args[1].(Iface), 0)
	})
	reg("errors.As", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		tgt := args[1].(Iface)
		if tgt.t == nil {
			fr.rpanic("errors: target cannot be nil")
		}
		pt, ok := tgt.t.Underlying().(*types.Pointer)
		if !ok || isNilVal(tgt.v) {
			fr.rpanic("errors: target must be a non-nil pointer")
		}
		return fr.w.tb.Bool(fr.errAs(args[0].(Iface), pt.Elem(), tgt.v, 0))
	})
	sortSlice := func(fr *Frame, fn *ssa.Function, args []Value) Value {
		s, ok := args[0].(Iface).v.([]Value)
		if !ok {
			panic(unsupported("sort.Slice argument"))
		}
		tb := fr.w.tb
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !fr.p.fork(fr.p.call(fr, args[1], []Value{tb.BV(64, uint64(j)), tb.BV(64, uint64(j-1))}, nil).(*Term)) {
					break
				}
				a, b := copyVal(s[j]), copyVal(s[j-1])
				fr.store(&s[j], b)
				fr.store(&s[j-1], a)
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
}

func (fr *Frame) unwrap(e Iface) []Iface {
	if m := fr.lookupMethod(e.t, "Unwrap"); m != nil {
		sig := m.Signature
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
			r := fr.p.callSSA(fr, m, []Value{e.v}, nil)
			switch x := r.(type) {
			case Iface:
				if x.t != nil {
					return []Iface{x}
				}
			case []Value:
				var out []Iface
				for _, v := range x {
					if i := v.(Iface); i.t != nil {
						out = append(out, i)
					}
				}
				return out
			}
		}
	}
	return nil
}

// lookupMethod finds an exported method in the method set of t, or nil.
func (fr *Frame) lookupMethod(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	sel := fr.p.e.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return fr.p.e.prog.MethodValue(sel)
}

func (fr *Frame) errIs(err, target Iface, d int) *Term {
	tb := fr.w.tb
	if d > 50 {
		panic(unsupported("error chain depth"))
	}
	if err.t == nil || target.t == nil {
		return tb.Bool(err.t == nil && target.t == nil)
	}
	if types.Comparable(target.t) && types.Identical(err.t, target.t) {
		if fr.p.fork(fr.eqVal(err.v, target.v)) {
			return tb.True
		}
	}
	if m := fr.lookupMethod(err.t, "Is"); m != nil && m.Signature.Params().Len() == 1 && m.Signature.Results().Len() == 1 {
		if fr.p.fork(fr.p.callSSA(fr, m, []Value{err.v, target}, nil).(*Term)) {
			return tb.True
		}
	}
	for _, u := range fr.unwrap(err) {
		if fr.errIs(u, target, d+1).isTrue() {
			return tb.True
		}
	}
	return tb.False
}

func (fr *Frame) errAs(err Iface, t types.Type, dst Value, d int) bool {
	if err.t == nil {
		return false
	}
	if d > 50 {
		panic(unsupported("error chain depth"))
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if types.Implements(err.t, it) {
			fr.store(dst, err)
			return true
		}
	} else if types.Identical(err.t, t) {
		fr.store(dst, err.v)
		return true
	}
	if m := fr.lookupMethod(err.t, "As"); m != nil && m.Signature.Params().Len() == 1 {
		if fr.p.fork(fr.p.callSSA(fr, m, []Value{err.v, Iface{t: types.NewPointer(t), v: dst}}, nil).(*Term)) {
			return true
		}
	}
	for _, u := range fr.unwrap(err) {
		if fr.errAs(u, t, dst, d+1) {
			return true
		}
	}
	return false
}

var _ = time.Now
