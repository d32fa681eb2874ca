package main

import "math"

// Monotone floating-point functions of one integer. A comparison of such a
// term with a constant is the same as a comparison of the integer with a
// threshold, found here by bisection on the concrete function, which spares
// the solver the floating-point reasoning. The rewriting is exact: rounding is
// monotone, so int-to-float conversion, addition of a constant and
// multiplication or division by a positive constant all keep the order.
type monoFn struct {
	arg    *Term
	signed bool
	f      func(uint64) float64
}

func (tb *TermBuilder) setMono(t, arg *Term, signed bool, f func(uint64) float64) {
	if t.isConst() || arg.isConst() {
		return
	}
	if t.w == SF32 {
		// rounding a double result of one operation on singles gives the
		// correctly rounded single
		g := f
		f = func(x uint64) float64 { return float64(float32(g(x))) }
	}
	if m := tb.mono[arg.id]; m != nil && arg.op == OFToS && signed && arg.w == 64 {
		// a function of a truncated monotone term
		outer := f
		f = func(x uint64) float64 { return outer(uint64(int64(m.f(x)))) }
		arg, signed = m.arg, m.signed
	}
	if tb.mono == nil {
		tb.mono = map[int]*monoFn{}
	}
	tb.mono[t.id] = &monoFn{arg, signed, f}
}

func (tb *TermBuilder) liftMono(t, a *Term, g func(float64) float64) *Term {
	if m := tb.mono[a.id]; m != nil && !a.isConst() {
		f := m.f
		tb.setMono(t, m.arg, m.signed, func(x uint64) float64 { return g(f(x)) })
	}
	return t
}

func (tb *TermBuilder) binMono(op Op, t, a, b *Term) *Term {
	switch {
	case b.isConst():
		c := fval(b)
		if math.IsNaN(c) || math.IsInf(c, 0) {
			return t
		}
		switch {
		case op == OFAdd:
			return tb.liftMono(t, a, func(x float64) float64 { return x + c })
		case op == OFSub:
			return tb.liftMono(t, a, func(x float64) float64 { return x - c })
		case op == OFMul && c > 0:
			return tb.liftMono(t, a, func(x float64) float64 { return x * c })
		case op == OFDiv && c > 0:
			return tb.liftMono(t, a, func(x float64) float64 { return x / c })
		}
	case a.isConst():
		c := fval(a)
		if math.IsNaN(c) || math.IsInf(c, 0) {
			return t
		}
		switch {
		case op == OFAdd:
			return tb.liftMono(t, b, func(x float64) float64 { return c + x })
		case op == OFMul && c > 0:
			return tb.liftMono(t, b, func(x float64) float64 { return c * x })
		}
	}
	return t
}

// atLeast is the condition that pred holds for m's function, pred being
// monotone: false below some value and true from there on.
func (tb *TermBuilder) atLeast(m *monoFn, pred func(float64) bool) *Term {
	w := m.arg.w
	// order the argument values 0..mask by bias
	bias := uint64(0)
	if m.signed {
		bias = uint64(1) << (w - 1)
	}
	val := func(k uint64) uint64 {
		v := (k ^ bias) & mask(w)
		if m.signed {
			return uint64(sx(v, w))
		}
		return v
	}
	lo, hi := uint64(0), mask(w)
	if !pred(m.f(val(hi))) {
		return tb.False
	}
	for lo < hi {
		mid := lo + (hi-lo)/2
		if pred(m.f(val(mid))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	if lo == 0 {
		return tb.True
	}
	c := tb.BV(w, (lo^bias)&mask(w))
	if m.signed {
		return tb.Sle(c, m.arg)
	}
	return tb.Ule(c, m.arg)
}

func (tb *TermBuilder) cmpMono(op Op, a, b *Term) *Term {
	if m := tb.mono[b.id]; m != nil && a.isConst() && !b.isConst() {
		c := fval(a)
		if math.IsNaN(c) {
			return tb.False
		}
		ge := func() *Term { return tb.atLeast(m, func(x float64) bool { return c <= x }) }
		gt := func() *Term { return tb.atLeast(m, func(x float64) bool { return c < x }) }
		switch op {
		case OFLt:
			return gt()
		case OFLe:
			return ge()
		case OFEq:
			return tb.And(ge(), tb.Not(gt()))
		}
	}
	if m := tb.mono[a.id]; m != nil && b.isConst() && !a.isConst() {
		c := fval(b)
		if math.IsNaN(c) {
			return tb.False
		}
		ge := func() *Term { return tb.atLeast(m, func(x float64) bool { return c <= x }) }
		gt := func() *Term { return tb.atLeast(m, func(x float64) bool { return c < x }) }
		switch op {
		case OFLt:
			return tb.Not(ge())
		case OFLe:
			return tb.Not(gt())
		case OFEq:
			return tb.And(ge(), tb.Not(gt()))
		}
	}
	return nil
}

// minMono is min or max of a monotone term and a constant.
func (tb *TermBuilder) minMono(t, a, b *Term, g func(x, y float64) float64) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && !a.isConst() {
		c := fval(b)
		if !math.IsNaN(c) {
			tb.liftMono(t, a, func(x float64) float64 { return g(x, c) })
		}
	}
	return t
}

// intMono makes t, the truncation of the monotone term a to a signed integer,
// a monotone integer term; false if a is none, or leaves the integer range.
func (tb *TermBuilder) intMono(t, a *Term) bool {
	m := tb.mono[a.id]
	if m == nil || a.isConst() {
		return false
	}
	lo, hi := m.arg.lo, m.arg.hi
	if m.signed {
		l, h := srange(m.arg)
		lo, hi = uint64(l), uint64(h)
	}
	l, h := m.f(lo), m.f(hi)
	if !(l >= -(1<<62) && h <= 1<<62) {
		return false
	}
	tb.mono[t.id] = m
	if l >= 0 {
		t.lo, t.hi = uint64(int64(l)), uint64(int64(h))
		t.signedRange()
	}
	return true
}

func (tb *TermBuilder) cmpIntMono(op Op, a, b *Term) *Term {
	if len(tb.mono) == 0 || a.isConst() == b.isConst() || a.w != 64 {
		return nil
	}
	t, c := a, b
	if a.isConst() {
		t, c = b, a
	}
	m := tb.mono[t.id]
	if m == nil || t.op != OFToS {
		return nil
	}
	if op == OUlt || op == OUle {
		// only where signed and unsigned order agree
		if t.hi >= 1<<63 || c.val >= 1<<63 {
			return nil
		}
	}
	v := int64(c.val)
	ge := func() *Term { return tb.atLeast(m, func(x float64) bool { return int64(x) >= v }) }
	gt := func() *Term { return tb.atLeast(m, func(x float64) bool { return int64(x) > v }) }
	switch op {
	case OEq:
		return tb.And(ge(), tb.Not(gt()))
	case OUlt, OSlt:
		if t == a {
			return tb.Not(ge())
		}
		return gt()
	default:
		if t == a {
			return tb.Not(gt())
		}
		return ge()
	}
}
