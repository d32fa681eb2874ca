package main

// Equalities of linear terms modulo 2^w are decided by comparing
// coefficients; what the path knows to be equal to a variable (the decimal
// digits of a number) is substituted. Exact: a sum with equal coefficients is
// the same sum.

type linForm struct {
	w    uint8 // modulo 2^w
	c    uint64
	coef map[*Term]uint64
}

const linLimit = 64

func (p *Path) lin(t *Term, k uint64, f *linForm, depth int) bool {
	if k == 0 {
		return true
	}
	if d := p.defs[t]; d != nil {
		if depth > 60 {
			return false
		}
		return p.lin(d, k, f, depth+1)
	}
	for t.op == OZext || t.op == OExtract && t.w >= f.w && t.val&0xff == 0 || t.op == OSext && t.a.w >= f.w {
		t = t.a
		if d := p.defs[t]; d != nil && t.w == 64 {
			return p.lin(d, k, f, depth+1)
		}
	}
	if t.op == OSext && t.w >= f.w {
		// a difference that is not too large or small keeps its value
		x, half := t.a, uint64(1)<<(t.a.w-1)
		if x.hi < half {
			return p.lin(x, k, f, depth)
		}
		if x.op == OBvSub && x.a.hi < half && x.b.hi <= half {
			return p.lin(x.a, k, f, depth) && p.lin(x.b, -k, f, depth)
		}
	}
	if t.w < f.w && !noWrap(t) {
		// its unsigned value is one unknown
		return f.add(t, k)
	}
	switch t.op {
	case OConst:
		f.c += k * t.val
		return true
	case OBvAdd:
		return p.lin(t.a, k, f, depth) && p.lin(t.b, k, f, depth)
	case OBvSub:
		return p.lin(t.a, k, f, depth) && p.lin(t.b, -k, f, depth)
	case OBvMul:
		if t.a.isConst() {
			return p.lin(t.b, k*t.a.val, f, depth)
		}
		if t.b.isConst() {
			return p.lin(t.a, k*t.b.val, f, depth)
		}
	case OBvShl:
		if t.b.isConst() && t.b.val < 64 {
			return p.lin(t.a, k<<t.b.val, f, depth)
		}
	}
	return f.add(t, k)
}

func (f *linForm) add(t *Term, k uint64) bool {
	f.coef[t] += k
	if f.coef[t]&mask(f.w) == 0 {
		delete(f.coef, t)
	}
	return len(f.coef) <= linLimit
}

// noWrap tells that an operation on narrow terms has the value it would have
// on wide ones.
func noWrap(t *Term) bool {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return true
	case OBvAdd:
		return t.a.hi <= m-t.b.hi
	case OBvSub:
		return t.a.lo >= t.b.hi
	case OBvMul:
		return t.a.hi == 0 || t.b.hi <= m/t.a.hi
	}
	return false
}

// define records that x equals d, if that gives a value for a variable.
func (p *Path) define(x, d *Term) {
	if x.w != 64 {
		return
	}
	f := &linForm{w: 64, coef: map[*Term]uint64{}}
	if !p.lin(x, 1, f, 0) || len(f.coef) != 1 {
		return
	}
	tb := p.w.tb
	for v, k := range f.coef {
		switch k {
		case 1:
			d = tb.Sub(d, tb.BV(64, f.c))
		case ^uint64(0):
			d = tb.Sub(tb.BV(64, f.c), d)
		default:
			return
		}
		g := &linForm{w: 64, coef: map[*Term]uint64{}}
		if !p.lin(d, 1, g, 0) || g.coef[v] != 0 {
			return
		}
		if p.defs == nil {
			p.defs = map[*Term]*Term{}
		}
		p.defs[v] = d
	}
}

// linear decides c if it is an equality, or the negation of one, that its
// coefficients settle; defs hold on the path.
func (p *Path) linear(c *Term) (val, ok bool) {
	neg := false
	for c.op == ONot {
		neg, c = !neg, c.a
	}
	if c.op != OEq || c.a.w < 8 || c.a.w > 64 {
		return false, false
	}
	f := &linForm{w: c.a.w, coef: map[*Term]uint64{}}
	if !p.lin(c.a, 1, f, 0) || !p.lin(c.b, ^uint64(0), f, 0) || len(f.coef) > 0 {
		return false, false
	}
	return (f.c&mask(f.w) == 0) != neg, true
}
