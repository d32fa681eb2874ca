package main

import (
	"fmt"
	"math"
)

// Divisions of one symbolic value by another are hard for bit-blasting. A
// query that contains one is first put to the solver with every such quotient
// and remainder replaced by an unknown, constrained by the definition of
// division for small quotients. Unsatisfiable then means unsatisfiable; a
// model counts only if it satisfies the original query. Otherwise the query is
// asked as it is.

const divLemmas = 9

func isDivOp(op Op) bool {
	return op == OBvUDiv || op == OBvURem || op == OBvSDiv || op == OBvSRem
}

func (w *Worker) hasDiv(t *Term) bool {
	if t == nil || t.op == OConst || t.op == OVar {
		return false
	}
	if r, ok := w.divMemo[t.id]; ok {
		return r
	}
	r := isDivOp(t.op) && !t.b.isConst() && t.w >= 16 || t.op == OFDiv && !t.b.isConst() && t.w == SF64
	if !r {
		r = w.hasDiv(t.a) || w.hasDiv(t.b) || w.hasDiv(t.c)
	}
	w.divMemo[t.id] = r
	return r
}

type divAbs struct {
	w     *Worker
	memo  map[int]*Term
	extra []*Term
	vars  []*Term
	seen  map[string]*Term
}

func (d *divAbs) rw(t *Term) *Term {
	if t == nil || !d.w.hasDiv(t) {
		return t
	}
	if r, ok := d.memo[t.id]; ok {
		return r
	}
	tb := d.w.tb
	a, b, c := d.rw(t.a), d.rw(t.b), d.rw(t.c)
	var r *Term
	if isDivOp(t.op) && !t.b.isConst() && t.w >= 16 {
		r = d.quot(t.op, t.w, a, b)
	} else if t.op == OFDiv && !t.b.isConst() && t.w == SF64 {
		r = d.fquot(a, b)
	} else {
		r = tb.raw(t.op, t.w, t.val, a, b, c)
	}
	d.memo[t.id] = r
	return r
}

func (d *divAbs) quot(op Op, w uint8, a, b *Term) *Term {
	tb := d.w.tb
	signed := op == OBvSDiv || op == OBvSRem
	k := fmt.Sprintf("%v.%d.%d", signed, a.id, b.id)
	qn, rn := "quot!"+k, "rem!"+k
	q, r := d.seen[qn], d.seen[rn]
	if q == nil {
		q, r = tb.Var(qn, w), tb.Var(rn, w)
		d.seen[qn], d.seen[rn] = q, r
		d.vars = append(d.vars, q, r)
		zero := tb.BV(w, 0)
		guard := tb.Not(tb.Eq(b, zero))
		max := mask(w)
		if signed {
			max >>= 1
			guard = tb.And(tb.Slt(zero, b), tb.Sle(zero, a))
			d.extra = append(d.extra, tb.Implies(guard, tb.And(tb.Sle(zero, q), tb.Sle(zero, r))))
		}
		d.extra = append(d.extra,
			tb.Implies(guard, tb.And(tb.Ule(q, a), tb.And(tb.Ult(r, b), tb.Ule(r, a)))))
		// times(k): k*b fits and is at most a
		times := func(k uint64) *Term {
			if k == 0 {
				return tb.True
			}
			kb := tb.Mul(tb.BV(w, k), b)
			return tb.And(tb.Ule(b, tb.BV(w, max/k)), tb.Ule(kb, a))
		}
		for k := uint64(0); k < divLemmas; k++ {
			is := tb.And(times(k), tb.Not(times(k+1)))
			d.extra = append(d.extra, tb.Implies(guard, tb.Eq(is, tb.Eq(q, tb.BV(w, k)))))
			d.extra = append(d.extra, tb.Implies(tb.And(guard, is), tb.Eq(r, tb.Sub(a, tb.Mul(tb.BV(w, k), b)))))
		}
	}
	if op == OBvUDiv || op == OBvSDiv {
		return q
	}
	return r
}

// fquot is the same for floating-point division of positive numbers, known to
// be monotone in the numerator and 1 for equal operands.
func (d *divAbs) fquot(a, b *Term) *Term {
	tb := d.w.tb
	k := fmt.Sprintf("fquot!%d.%d", a.id, b.id)
	q := d.seen[k]
	if q != nil {
		return q
	}
	v := tb.Var(k, 64)
	q = tb.FFromBits(v)
	d.seen[k] = q
	d.vars = append(d.vars, v)
	zero, one, inf := tb.F64(0), tb.F64(1), tb.F64(math.Inf(1))
	guard := tb.And(tb.FCmp(OFLe, zero, a), tb.And(tb.FCmp(OFLt, zero, b), tb.FCmp(OFLt, b, inf)))
	imp := func(c, r *Term) { d.extra = append(d.extra, tb.Implies(tb.And(guard, c), r)) }
	imp(tb.True, tb.FCmp(OFLe, zero, q))
	imp(tb.FCmp(OFLe, b, a), tb.FCmp(OFLe, one, q))
	imp(tb.FCmp(OFLe, a, b), tb.FCmp(OFLe, q, one))
	// conversion from integers keeps the order, and zero and one
	if a.op == OFFromU && b.op == OFFromU && a.a.w == b.a.w {
		d.extra = append(d.extra,
			tb.Implies(tb.Ule(b.a, a.a), tb.FCmp(OFLe, b, a)),
			tb.Implies(tb.Ule(a.a, b.a), tb.FCmp(OFLe, a, b)),
			tb.FCmp(OFLe, zero, a), tb.FCmp(OFLt, b, inf),
			tb.Implies(tb.Not(tb.Eq(b.a, tb.BV(b.a.w, 0))), tb.FCmp(OFLe, one, b)))
	}
	return q
}

// checkDiv decides the query by abstraction, or returns Unknown.
func (p *Path) checkDiv(rel []*Term, c *Term, vars []*Term) (SatResult, Model) {
	w := p.w
	has := w.hasDiv(c)
	for _, t := range rel {
		has = has || w.hasDiv(t)
	}
	if !has {
		return Unknown, nil
	}
	d := &divAbs{w: w, memo: map[int]*Term{}, seen: map[string]*Term{}}
	rel2 := make([]*Term, 0, len(rel)+16)
	for _, t := range rel {
		rel2 = append(rel2, d.rw(t))
	}
	c2 := d.rw(c)
	rel2 = append(rel2, d.extra...)
	r, m := w.solver.Check(rel2, c2, append(append([]*Term(nil), vars...), d.vars...))
	if r == Unsat {
		return Unsat, nil
	}
	if r != Sat {
		return Unknown, nil
	}
	for _, v := range d.vars {
		delete(m, v.name)
	}
	ev := &Evaluator{tb: w.tb}
	old := w.ev.m
	ev.setModel(m)
	ok := ev.eval(c) == 1
	for _, t := range rel {
		ok = ok && ev.eval(t) == 1
	}
	w.ev.setModel(old)
	if !ok {
		return Unknown, nil
	}
	return Sat, m
}
