package main

// Terms: hash-consed bit-vector / boolean / floating point expressions with
// on-the-fly simplification. One TermBuilder per worker; terms persist across
// the paths a worker explores, so re-executed prefixes share structure.

import (
	"fmt"
	"math"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OBvAdd
	OBvSub
	OBvMul
	OBvUDiv
	OBvURem
	OBvSDiv
	OBvSRem
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OBvShl
	OBvLshr
	OBvAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // val = hi<<8|lo
	OConcat
	// floating point
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFRound    // val: 0 RNE 1 RNA 2 RTP 3 RTN 4 RTZ
	OFFromS    // signed bv -> fp
	OFFromU    // unsigned bv -> fp
	OFToS      // fp -> signed bv (w), RTZ, unspecified out of range
	OFToU      // fp -> unsigned
	OFFromF    // fp -> fp (other width)
	OFIsNaN    // bool
	OFFromBits // bv -> fp reinterpret
)

const (
	SBool uint8 = 0
	SF64  uint8 = 200
	SF32  uint8 = 201
)

type Term struct {
	op       Op
	w        uint8
	val      uint64
	a, b, c  *Term
	name     string
	id       int
	lo, hi   uint64 // unsigned range (BV only)
	slo, shi int64  // signed interval, 64-bit terms
	epoch    int    // solver epoch in which a definition was emitted
	defName  string
	evGen    int
	evVal    uint64
	uses     int
}

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int
}

type TermBuilder struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	nextID int
	True   *Term
	False  *Term
	small  [65][257]*Term
	evGen  int
	mono   map[int]*monoFn
}

func NewTB() *TermBuilder {
	tb := &TermBuilder{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	tb.True = tb.raw(OConst, SBool, 1, nil, nil, nil)
	tb.False = tb.raw(OConst, SBool, 0, nil, nil, nil)
	return tb
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func isBV(w uint8) bool { return w >= 1 && w <= 64 }
func isFP(w uint8) bool { return w == SF64 || w == SF32 }

func (tb *TermBuilder) raw(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := tkey{op, w, val, tid(a), tid(b), tid(c)}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c, id: tb.nextID, epoch: -1}
	tb.nextID++
	tb.tab[k] = t
	if isBV(w) {
		t.lo, t.hi = tb.urange(t)
		t.signedRange()
	}
	return t
}

// signedRange computes a sound signed interval of a 64-bit term.
func (t *Term) signedRange() {
	if t.w != 64 {
		return
	}
	const min, max = math.MinInt64, math.MaxInt64
	t.slo, t.shi = min, max
	if t.hi <= max || t.lo > max {
		t.slo, t.shi = int64(t.lo), int64(t.hi)
		return
	}
	a, b := t.a, t.b
	add := func(x, y int64) (int64, bool) {
		z := x + y
		return z, (x >= 0) != (y >= 0) || (z >= 0) == (x >= 0)
	}
	mul := func(x, y int64) (int64, bool) {
		h, l := bits.Mul64(uint64(x), uint64(y))
		// signed high word
		sh := int64(h)
		if x < 0 {
			sh -= y
		}
		if y < 0 {
			sh -= x
		}
		return int64(l), sh == int64(l)>>63
	}
	lo, hi, ok := int64(min), int64(max), false
	switch t.op {
	case OIte:
		lo, hi, ok = t.b.slo, t.b.shi, true
		if t.c.slo < lo {
			lo = t.c.slo
		}
		if t.c.shi > hi {
			hi = t.c.shi
		}
	case OSext:
		lo, hi = srange(a)
		ok = true
	case OBvAdd:
		var o1, o2 bool
		lo, o1 = add(a.slo, b.slo)
		hi, o2 = add(a.shi, b.shi)
		ok = o1 && o2
	case OBvSub:
		if b.slo != min && b.shi != min {
			var o1, o2 bool
			lo, o1 = add(a.slo, -b.shi)
			hi, o2 = add(a.shi, -b.slo)
			ok = o1 && o2
		}
	case OBvMul:
		ok = true
		lo, hi = max, min
		for _, x := range []int64{a.slo, a.shi} {
			for _, y := range []int64{b.slo, b.shi} {
				z, o := mul(x, y)
				ok = ok && o
				if z < lo {
					lo = z
				}
				if z > hi {
					hi = z
				}
			}
		}
	case OBvSDiv:
		if b.op == OConst && int64(b.val) > 0 {
			lo, hi, ok = a.slo/int64(b.val), a.shi/int64(b.val), true
		}
	case OBvSRem:
		if b.op == OConst && int64(b.val) > 0 {
			lo, hi, ok = -int64(b.val)+1, int64(b.val)-1, true
		}
	}
	if !ok {
		return
	}
	t.slo, t.shi = lo, hi
	if lo >= 0 || hi < 0 {
		t.lo, t.hi = uint64(lo), uint64(hi)
	}
}

func (tb *TermBuilder) Var(name string, w uint8) *Term {
	return tb.VarRange(name, w, 0, mask(w))
}

// VarRange makes a variable whose unsigned range is known; the caller asserts
// that range on the path.
func (tb *TermBuilder) VarRange(name string, w uint8, lo, hi uint64) *Term {
	rk := fmt.Sprintf("%s:%d:%d:%d", name, w, lo, hi)
	if t, ok := tb.vars[rk]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: rk, id: tb.nextID, epoch: -1}
	tb.nextID++
	if isBV(w) {
		t.lo, t.hi = lo, hi
		t.signedRange()
	}
	tb.vars[rk] = t
	return t
}

// urange computes a sound unsigned interval of t.
func (tb *TermBuilder) urange(t *Term) (uint64, uint64) {
	m := mask(t.w)
	a, b := t.a, t.b
	switch t.op {
	case OConst:
		return t.val, t.val
	case OZext:
		return a.lo, a.hi
	case OIte:
		lo, hi := t.b.lo, t.b.hi
		if t.c.lo < lo {
			lo = t.c.lo
		}
		if t.c.hi > hi {
			hi = t.c.hi
		}
		return lo, hi
	case OBvAdd:
		hi, c1 := bits.Add64(a.hi, b.hi, 0)
		if c1 == 0 && hi <= m {
			return a.lo + b.lo, hi
		}
	case OBvSub:
		if a.lo >= b.hi {
			return a.lo - b.hi, a.hi - b.lo
		}
	case OBvMul:
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			return a.lo * b.lo, l
		}
	case OBvAnd:
		hi := a.hi
		if b.hi < hi {
			hi = b.hi
		}
		return 0, hi
	case OBvOr, OBvXor:
		x := a.hi | b.hi
		n := bits.Len64(x)
		hi := m
		if n < 64 {
			hi = (uint64(1) << n) - 1
		}
		lo := uint64(0)
		if t.op == OBvOr {
			lo = a.lo
			if b.lo > lo {
				lo = b.lo
			}
		}
		return lo, hi
	case OBvShl:
		if b.op == OConst && b.val < 64 && a.hi <= m>>b.val {
			return a.lo << b.val, a.hi << b.val
		}
	case OBvLshr:
		if b.op == OConst {
			if b.val >= 64 {
				return 0, 0
			}
			return a.lo >> b.val, a.hi >> b.val
		}
		return 0, a.hi
	case OBvUDiv:
		if b.op == OConst && b.val != 0 {
			return a.lo / b.val, a.hi / b.val
		}
	case OBvURem:
		if b.op == OConst && b.val != 0 {
			hi := b.val - 1
			if a.hi < hi {
				hi = a.hi
			}
			return 0, hi
		}
	case OExtract:
		if t.val&0xff == 0 && a.hi <= m {
			return a.lo, a.hi
		}
	case OConcat:
		if a.w+b.w <= 64 {
			return a.lo<<b.w | b.lo, a.hi<<b.w | b.hi
		}
	}
	return 0, m
}

func (tb *TermBuilder) BV(w uint8, v uint64) *Term {
	v &= mask(w)
	if v <= 256 {
		if t := tb.small[w][v]; t != nil {
			return t
		}
		t := tb.raw(OConst, w, v, nil, nil, nil)
		tb.small[w][v] = t
		return t
	}
	return tb.raw(OConst, w, v, nil, nil, nil)
}

func (tb *TermBuilder) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (tb *TermBuilder) F64(f float64) *Term {
	return tb.raw(OConst, SF64, math.Float64bits(f), nil, nil, nil)
}
func (tb *TermBuilder) F32(f float32) *Term {
	return tb.raw(OConst, SF32, uint64(math.Float32bits(f)), nil, nil, nil)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == SBool && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == SBool && t.val == 0 }

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func fval(t *Term) float64 {
	if t.w == SF32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

func (tb *TermBuilder) Not(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(a.val == 0)
	}
	switch a.op {
	case ONot:
		return a.a
	case OUlt:
		return tb.Ule(a.b, a.a)
	case OUle:
		return tb.Ult(a.b, a.a)
	case OSlt:
		return tb.Sle(a.b, a.a)
	case OSle:
		return tb.Slt(a.b, a.a)
	}
	return tb.raw(ONot, SBool, 0, a, nil, nil)
}

func (tb *TermBuilder) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tb.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.raw(OAnd, SBool, 0, a, b, nil)
}

func (tb *TermBuilder) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tb.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.raw(OOr, SBool, 0, a, b, nil)
}

func (tb *TermBuilder) Implies(a, b *Term) *Term { return tb.Or(tb.Not(a), b) }

func (tb *TermBuilder) Eq(a, b *Term) *Term {
	if a == b {
		if isFP(a.w) {
			panic("Eq on FP")
		}
		return tb.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val == b.val)
	}
	if r := tb.cmpIntMono(OEq, a, b); r != nil {
		return r
	}
	if a.w == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return tb.Not(a)
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return tb.False
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case OZext:
				if b.val > mask(a.a.w) {
					return tb.False
				}
				return tb.Eq(a.a, tb.BV(a.a.w, b.val))
			case OSext:
				lv := b.val & mask(a.a.w)
				if uint64(sx(lv, a.a.w))&mask(a.w) != b.val {
					return tb.False
				}
				return tb.Eq(a.a, tb.BV(a.a.w, lv))
			case OBvAdd:
				if a.b.isConst() {
					return tb.Eq(a.a, tb.BV(a.w, b.val-a.b.val))
				}
			case OBvXor:
				if a.b.isConst() {
					return tb.Eq(a.a, tb.BV(a.w, b.val^a.b.val))
				}
			case OBvNot:
				return tb.Eq(a.a, tb.BV(a.w, ^b.val))
			case OConcat:
				return tb.And(tb.Eq(a.a, tb.BV(a.a.w, b.val>>a.b.w)), tb.Eq(a.b, tb.BV(a.b.w, b.val)))
			case OIte:
				if a.b.isConst() || a.c.isConst() {
					return tb.IteBool(a.a, tb.Eq(a.b, b), tb.Eq(a.c, b))
				}
			}
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tb.Eq(a.a, b.a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.raw(OEq, SBool, 0, a, b, nil)
}

func (tb *TermBuilder) IteBool(c, x, y *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.isConst() {
		if x.val == 1 {
			return tb.Or(c, y)
		}
		return tb.And(tb.Not(c), y)
	}
	if y.isConst() {
		if y.val == 1 {
			return tb.Or(tb.Not(c), x)
		}
		return tb.And(c, x)
	}
	return tb.raw(OIte, SBool, 0, c, x, y)
}

func (tb *TermBuilder) Ite(c, x, y *Term) *Term {
	if x.w != y.w {
		panic("ite width mismatch")
	}
	if x.w == SBool {
		return tb.IteBool(c, x, y)
	}
	if c.isConst() {
		if c.val == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if c.op == ONot {
		return tb.Ite(c.a, y, x)
	}
	if x.op == OIte && x.a == c {
		x = x.b
	}
	if y.op == OIte && y.a == c {
		y = y.c
	}
	if x == y {
		return x
	}
	return tb.raw(OIte, x.w, 0, c, x, y)
}

func (tb *TermBuilder) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.BV(a.w, a.val+b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OBvAdd && a.b.isConst() {
			return tb.Add(a.a, tb.BV(a.w, a.b.val+b.val))
		}
		return tb.raw(OBvAdd, a.w, 0, a, b, nil)
	}
	// (x - y) + y = x
	if a.op == OBvSub && a.b == b {
		return a.a
	}
	if b.op == OBvSub && b.b == a {
		return b.a
	}
	// pull constants out
	if a.op == OBvAdd && a.b.isConst() {
		return tb.Add(tb.Add(a.a, b), a.b)
	}
	if b.op == OBvAdd && b.b.isConst() {
		return tb.Add(tb.Add(a, b.a), b.b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.raw(OBvAdd, a.w, 0, a, b, nil)
}

func (tb *TermBuilder) Sub(a, b *Term) *Term {
	if b.isConst() {
		return tb.Add(a, tb.BV(a.w, -b.val))
	}
	if a == b {
		return tb.BV(a.w, 0)
	}
	// (x + y) - y = x
	if a.op == OBvAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.isConst() {
			return tb.Add(tb.Sub(a.a, b), a.b)
		}
	}
	if b.op == OBvAdd && b.b.isConst() {
		return tb.Add(tb.Sub(a, b.a), tb.BV(a.w, -b.b.val))
	}
	// x - (x - y) = y
	if b.op == OBvSub && b.a == a {
		return b.b
	}
	return tb.raw(OBvSub, a.w, 0, a, b, nil)
}

func (tb *TermBuilder) Neg(a *Term) *Term { return tb.Sub(tb.BV(a.w, 0), a) }

func (tb *TermBuilder) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.BV(a.w, a.val*b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch b.val {
		case 0:
			return b
		case 1:
			return a
		}
		if b.val&(b.val-1) == 0 {
			return tb.Shl(a, tb.BV(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if ph, pl := bits.Mul64(a.hi, b.hi); ph == 0 && a.w >= 16 {
		if k := uint8(bits.Len64(pl)); k > 0 && k <= a.w-8 {
			return tb.Zext(tb.raw(OBvMul, k, 0, tb.Extract(a, k-1, 0), tb.Extract(b, k-1, 0), nil), a.w)
		}
	}
	return tb.raw(OBvMul, a.w, 0, a, b, nil)
}

func (tb *TermBuilder) UDiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return tb.BV(a.w, a.val/b.val)
		}
		if b.val == 1 {
			return a
		}
		if a.hi < b.val {
			return tb.BV(a.w, 0)
		}
		if b.val&(b.val-1) == 0 {
			return tb.Lshr(a, tb.BV(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	if k := narrow(a, b); k > 0 {
		return tb.Zext(tb.raw(OBvUDiv, k, 0, tb.Extract(a, k-1, 0), tb.Extract(b, k-1, 0), nil), a.w)
	}
	return tb.raw(OBvUDiv, a.w, 0, a, b, nil)
}

// narrow gives a smaller width in which both operands fit (0: none worth it).
// Division by zero never reaches the solver: it is a panic on its own path.
func narrow(a, b *Term) uint8 {
	h := a.hi
	if b.hi > h {
		h = b.hi
	}
	k := uint8(bits.Len64(h))
	if k == 0 {
		k = 1
	}
	if a.w >= 16 && k <= a.w-8 {
		return k
	}
	return 0
}

func (tb *TermBuilder) URem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return tb.BV(a.w, a.val%b.val)
		}
		if a.hi < b.val {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return tb.BvAnd(a, tb.BV(a.w, b.val-1))
		}
	}
	if k := narrow(a, b); k > 0 {
		return tb.Zext(tb.raw(OBvURem, k, 0, tb.Extract(a, k-1, 0), tb.Extract(b, k-1, 0), nil), a.w)
	}
	return tb.raw(OBvURem, a.w, 0, a, b, nil)
}

func signBit(w uint8) uint64 { return uint64(1) << (w - 1) }

func (tb *TermBuilder) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return tb.BV(a.w, uint64(-x))
		}
		return tb.BV(a.w, uint64(x/y))
	}
	if a.hi < signBit(a.w) && b.hi < signBit(b.w) {
		return tb.UDiv(a, b)
	}
	if a.w == 64 && b.isConst() && int64(b.val) > 1 {
		// few quotients are possible: comparisons instead of a division
		c := int64(b.val)
		if q1, q2 := a.slo/c, a.shi/c; q1 == q2 {
			return tb.BV(64, uint64(q1))
		} else if q1+1 == q2 {
			t := q2 * c // the least dividend with quotient q2
			if q2 <= 0 {
				t = q1*c + 1
			}
			return tb.Ite(tb.Slt(a, tb.BV(64, uint64(t))), tb.BV(64, uint64(q1)), tb.BV(64, uint64(q2)))
		}
	}
	return tb.raw(OBvSDiv, a.w, 0, a, b, nil)
}

func (tb *TermBuilder) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return tb.BV(a.w, 0)
		}
		return tb.BV(a.w, uint64(x%y))
	}
	if a.hi < signBit(a.w) && b.hi < signBit(b.w) {
		return tb.URem(a, b)
	}
	return tb.raw(OBvSRem, a.w, 0, a, b, nil)
}

func (tb *TermBuilder) BvAnd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.BV(a.w, a.val&b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// low mask covering the whole range
		if b.val&(b.val+1) == 0 && a.hi <= b.val {
			return a
		}
		if a.op == OBvAnd && a.b.isConst() {
			return tb.BvAnd(a.a, tb.BV(a.w, a.b.val&b.val))
		}
		if a.op == OZext && b.val > mask(a.a.w) {
			return tb.BvAnd(a, tb.BV(a.w, b.val&mask(a.a.w)))
		}
		if b.val&(b.val+1) == 0 { // low mask -> extract
			n := uint8(bits.Len64(b.val))
			return tb.Zext(tb.Extract(a, n-1, 0), a.w)
		}
	}
	if a == b {
		return a
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.raw(OBvAnd, a.w, 0, a, b, nil)
}

func (tb *TermBuilder) BvOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.BV(a.w, a.val|b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	if a == b {
		return a
	}
	// disjoint shifted fields: (zext(hi) << k) | zext(lo)  ->  concat
	if t := tb.orConcat(a, b); t != nil {
		return t
	}
	if t := tb.orConcat(b, a); t != nil {
		return t
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.raw(OBvOr, a.w, 0, a, b, nil)
}

// orConcat recognises hiPart<<k | loPart with loPart < 2^k as a concatenation.
func (tb *TermBuilder) orConcat(h, l *Term) *Term {
	var k uint8
	var hp *Term // term whose value is h>>k, of width w-k
	if h.op == OConcat && h.b.isConst() && h.b.val == 0 {
		k = h.b.w
		hp = h.a
	} else {
		return nil
	}
	if l.hi > mask(k) {
		return nil
	}
	return tb.Concat(hp, tb.Extract(l, k-1, 0))
}

func (tb *TermBuilder) BvXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.BV(a.w, a.val^b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return tb.BvNot(a)
		}
	}
	if a == b {
		return tb.BV(a.w, 0)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.raw(OBvXor, a.w, 0, a, b, nil)
}

func (tb *TermBuilder) BvNot(a *Term) *Term {
	if a.isConst() {
		return tb.BV(a.w, ^a.val)
	}
	if a.op == OBvNot {
		return a.a
	}
	return tb.raw(OBvNot, a.w, 0, a, nil, nil)
}

func (tb *TermBuilder) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return tb.BV(a.w, 0)
		}
		if a.isConst() {
			return tb.BV(a.w, a.val<<b.val)
		}
		k := uint8(b.val)
		return tb.Concat(tb.Extract(a, a.w-1-k, 0), tb.BV(k, 0))
	}
	return tb.raw(OBvShl, a.w, 0, a, b, nil)
}

func (tb *TermBuilder) Lshr(a, b *Term) *Term {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return tb.BV(a.w, 0)
		}
		if a.isConst() {
			return tb.BV(a.w, a.val>>b.val)
		}
		k := uint8(b.val)
		return tb.Zext(tb.Extract(a, a.w-1, k), a.w)
	}
	return tb.raw(OBvLshr, a.w, 0, a, b, nil)
}

func (tb *TermBuilder) Ashr(a, b *Term) *Term {
	if b.isConst() {
		k := b.val
		if k == 0 {
			return a
		}
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if a.isConst() {
			return tb.BV(a.w, uint64(sx(a.val, a.w)>>k))
		}
		if a.hi < signBit(a.w) {
			return tb.Lshr(a, tb.BV(a.w, k))
		}
		return tb.Sext(tb.Extract(a, a.w-1, uint8(k)), a.w)
	}
	return tb.raw(OBvAshr, a.w, 0, a, b, nil)
}

func (tb *TermBuilder) Ult(a, b *Term) *Term {
	if a == b {
		return tb.False
	}
	if a.hi < b.lo {
		return tb.True
	}
	if a.lo >= b.hi {
		return tb.False
	}
	if a.op == OZext && b.isConst() {
		return tb.Ult(a.a, tb.BV(a.a.w, b.val))
	}
	if b.op == OZext && a.isConst() {
		return tb.Ult(tb.BV(b.a.w, a.val), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tb.Ult(a.a, b.a)
	}
	if r := tb.cmpIntMono(OUlt, a, b); r != nil {
		return r
	}
	return tb.raw(OUlt, SBool, 0, a, b, nil)
}

func (tb *TermBuilder) Ule(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.hi <= b.lo {
		return tb.True
	}
	if a.lo > b.hi {
		return tb.False
	}
	if a.op == OZext && b.isConst() {
		return tb.Ule(a.a, tb.BV(a.a.w, b.val))
	}
	if b.op == OZext && a.isConst() {
		return tb.Ule(tb.BV(b.a.w, a.val), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tb.Ule(a.a, b.a)
	}
	if r := tb.cmpIntMono(OUle, a, b); r != nil {
		return r
	}
	return tb.raw(OUle, SBool, 0, a, b, nil)
}

// srange returns signed bounds when known.
func srange(t *Term) (int64, int64) {
	s := signBit(t.w)
	if t.hi < s {
		return int64(t.lo), int64(t.hi)
	}
	if t.lo >= s {
		return sx(t.lo, t.w), sx(t.hi, t.w)
	}
	if t.w == 64 {
		return t.slo, t.shi
	}
	if t.op == OSext {
		return srange(t.a)
	}
	return sx(s, t.w), int64(s - 1)
}

func (tb *TermBuilder) Slt(a, b *Term) *Term {
	if a == b {
		return tb.False
	}
	al, ah := srange(a)
	bl, bh := srange(b)
	if ah < bl {
		return tb.True
	}
	if al >= bh {
		return tb.False
	}
	if al >= 0 && bl >= 0 {
		return tb.Ult(a, b)
	}
	if r := tb.cmpIntMono(OSlt, a, b); r != nil {
		return r
	}
	return tb.raw(OSlt, SBool, 0, a, b, nil)
}

func (tb *TermBuilder) Sle(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	al, ah := srange(a)
	bl, bh := srange(b)
	if ah <= bl {
		return tb.True
	}
	if al > bh {
		return tb.False
	}
	if al >= 0 && bl >= 0 {
		return tb.Ule(a, b)
	}
	if r := tb.cmpIntMono(OSle, a, b); r != nil {
		return r
	}
	return tb.raw(OSle, SBool, 0, a, b, nil)
}

func (tb *TermBuilder) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext to smaller")
	}
	if a.isConst() {
		return tb.BV(w, a.val)
	}
	if a.op == OZext {
		return tb.Zext(a.a, w)
	}
	return tb.raw(OZext, w, 0, a, nil, nil)
}

func (tb *TermBuilder) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.BV(w, uint64(sx(a.val, a.w)))
	}
	if a.hi < signBit(a.w) {
		return tb.Zext(a, w)
	}
	if a.op == OSext {
		return tb.Sext(a.a, w)
	}
	return tb.raw(OSext, w, 0, a, nil, nil)
}

func (tb *TermBuilder) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tb.BV(w, a.val>>lo)
	}
	switch a.op {
	case OZext:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return tb.BV(w, 0)
		}
		return tb.Zext(tb.Extract(a.a, a.a.w-1, lo), w)
	case OSext:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
	case OConcat:
		if hi < a.b.w {
			return tb.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return tb.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
		return tb.Concat(tb.Extract(a.a, hi-a.b.w, 0), tb.Extract(a.b, a.b.w-1, lo))
	case OExtract:
		l0 := uint8(a.val & 0xff)
		return tb.Extract(a.a, hi+l0, lo+l0)
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tb.Ite(a.a, tb.Extract(a.b, hi, lo), tb.Extract(a.c, hi, lo))
		}
	case OBvAnd, OBvOr, OBvXor:
		x, y := tb.Extract(a.a, hi, lo), tb.Extract(a.b, hi, lo)
		switch a.op {
		case OBvAnd:
			return tb.BvAnd(x, y)
		case OBvOr:
			return tb.BvOr(x, y)
		default:
			return tb.BvXor(x, y)
		}
	case OBvAdd, OBvSub, OBvMul:
		if lo == 0 { // low bits depend only on low bits
			x, y := tb.Extract(a.a, hi, 0), tb.Extract(a.b, hi, 0)
			switch a.op {
			case OBvAdd:
				return tb.Add(x, y)
			case OBvSub:
				return tb.Sub(x, y)
			default:
				return tb.Mul(x, y)
			}
		}
	}
	return tb.raw(OExtract, w, uint64(hi)<<8|uint64(lo), a, nil, nil)
}

func (tb *TermBuilder) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if w > 64 {
		panic("concat too wide")
	}
	if a.isConst() && b.isConst() {
		return tb.BV(w, a.val<<b.w|b.val)
	}
	if a.isConst() && a.val == 0 {
		return tb.Zext(b, w)
	}
	if a.op == OZext { // push zext outwards
		return tb.Zext(tb.Concat(a.a, b), w)
	}
	if b.op == OConcat && false {
		return tb.Concat(tb.Concat(a, b.a), b.b)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a {
		ah, al := uint8(a.val>>8), uint8(a.val&0xff)
		bh, bl := uint8(b.val>>8), uint8(b.val&0xff)
		_ = ah
		if al == bh+1 {
			return tb.Extract(a.a, ah, bl)
		}
	}
	return tb.raw(OConcat, w, 0, a, b, nil)
}

// Resize converts an integer term to width w, extending by signedness.
func (tb *TermBuilder) Resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case a.w == w:
		return a
	case a.w > w:
		return tb.Extract(a, w-1, 0)
	case signed:
		return tb.Sext(a, w)
	default:
		return tb.Zext(a, w)
	}
}

// --- floating point -----------------------------------------------------------

func (tb *TermBuilder) fconst(w uint8, f float64) *Term {
	if w == SF32 {
		return tb.F32(float32(f))
	}
	return tb.F64(f)
}

func (tb *TermBuilder) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fval(a), fval(b)
		var r float64
		if a.w == SF32 {
			x32, y32 := float32(x), float32(y)
			var r32 float32
			switch op {
			case OFAdd:
				r32 = x32 + y32
			case OFSub:
				r32 = x32 - y32
			case OFMul:
				r32 = x32 * y32
			case OFDiv:
				r32 = x32 / y32
			}
			return tb.F32(r32)
		}
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return tb.F64(r)
	}
	return tb.binMono(op, tb.raw(op, a.w, 0, a, b, nil), a, b)
}

func (tb *TermBuilder) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fval(a), fval(b)
		switch op {
		case OFLt:
			return tb.Bool(x < y)
		case OFLe:
			return tb.Bool(x <= y)
		default:
			return tb.Bool(x == y)
		}
	}
	if r := tb.cmpMono(op, a, b); r != nil {
		return r
	}
	return tb.raw(op, SBool, 0, a, b, nil)
}

func (tb *TermBuilder) FNeg(a *Term) *Term {
	if a.isConst() {
		return tb.fconst(a.w, -fval(a))
	}
	return tb.raw(OFNeg, a.w, 0, a, nil, nil)
}

func (tb *TermBuilder) FRound(a *Term, mode uint64) *Term {
	if a.isConst() {
		x := fval(a)
		switch mode {
		case 0:
			x = math.RoundToEven(x)
		case 1:
			x = math.Round(x)
		case 2:
			x = math.Ceil(x)
		case 3:
			x = math.Floor(x)
		case 4:
			x = math.Trunc(x)
		}
		return tb.fconst(a.w, x)
	}
	r := tb.raw(OFRound, a.w, mode, a, nil, nil)
	return tb.liftMono(r, a, func(x float64) float64 {
		switch mode {
		case 0:
			return math.RoundToEven(x)
		case 1:
			return math.Round(x)
		case 2:
			return math.Ceil(x)
		case 3:
			return math.Floor(x)
		}
		return math.Trunc(x)
	})
}

func (tb *TermBuilder) FFromInt(a *Term, signed bool, w uint8) *Term {
	if a.isConst() {
		if w == SF32 {
			if signed {
				return tb.F32(float32(sx(a.val, a.w)))
			}
			return tb.F32(float32(a.val))
		}
		if signed {
			return tb.F64(float64(sx(a.val, a.w)))
		}
		return tb.F64(float64(a.val))
	}
	if signed {
		t := tb.raw(OFFromS, w, 0, a, nil, nil)
		tb.setMono(t, a, true, func(x uint64) float64 {
			if w == SF32 {
				return float64(float32(int64(x)))
			}
			return float64(int64(x))
		})
		return t
	}
	t := tb.raw(OFFromU, w, 0, a, nil, nil)
	tb.setMono(t, a, false, func(x uint64) float64 {
		if w == SF32 {
			return float64(float32(x))
		}
		return float64(x)
	})
	return t
}

func (tb *TermBuilder) FToInt(a *Term, signed bool, w uint8) *Term {
	if a.isConst() {
		x := fval(a)
		if signed {
			return tb.BV(w, uint64(int64(x)))
		}
		return tb.BV(w, uint64(x))
	}
	op := OFToU
	if signed {
		op = OFToS
	}
	conv := tb.raw(op, 64, 0, a, nil, nil)
	if signed && tb.intMono(conv, a) {
		return tb.Resize(conv, w, signed)
	}
	// out of range: amd64 cvttsd2si "integer indefinite" value
	var inr *Term
	if signed {
		inr = tb.And(tb.FCmp(OFLe, tb.fconst(a.w, -9223372036854775808.0), a), tb.FCmp(OFLt, a, tb.fconst(a.w, 9223372036854775808.0)))
	} else {
		inr = tb.And(tb.FCmp(OFLt, tb.fconst(a.w, -1), a), tb.FCmp(OFLt, a, tb.fconst(a.w, 18446744073709551616.0)))
	}
	r := tb.Ite(inr, conv, tb.BV(64, 1<<63))
	return tb.Resize(r, w, signed)
}

func (tb *TermBuilder) FConv(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.fconst(w, fval(a))
	}
	return tb.liftMono(tb.raw(OFFromF, w, 0, a, nil, nil), a, func(x float64) float64 { return x })
}

func (tb *TermBuilder) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(math.IsNaN(fval(a)))
	}
	return tb.raw(OFIsNaN, SBool, 0, a, nil, nil)
}

func (tb *TermBuilder) FFromBits(a *Term) *Term {
	w := SF64
	if a.w == 32 {
		w = SF32
	}
	if a.isConst() {
		return tb.raw(OConst, w, a.val, nil, nil, nil)
	}
	return tb.raw(OFFromBits, w, 0, a, nil, nil)
}

// --- evaluation under a model -----------------------------------------------

type Model map[string]uint64

type Evaluator struct {
	tb  *TermBuilder
	m   Model
	gen int
}

// setModel installs m (owned by the evaluator from now on).
func (ev *Evaluator) setModel(m Model) {
	ev.m = m
	ev.tb.evGen++
	ev.gen = ev.tb.evGen
}

func (ev *Evaluator) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == ev.gen {
		return t.evVal
	}
	v := ev.eval1(t)
	t.evGen = ev.gen
	t.evVal = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (ev *Evaluator) f(t *Term) float64 {
	v := ev.eval(t)
	if t.w == SF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fbits(w uint8, f float64) uint64 {
	if w == SF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (ev *Evaluator) eval1(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OVar:
		return ev.m[t.name]
	case ONot:
		return ev.eval(t.a) ^ 1
	case OAnd:
		if ev.eval(t.a) == 0 {
			return 0
		}
		return ev.eval(t.b)
	case OOr:
		if ev.eval(t.a) == 1 {
			return 1
		}
		return ev.eval(t.b)
	case OEq:
		return b2u(ev.eval(t.a) == ev.eval(t.b))
	case OIte:
		if ev.eval(t.a) == 1 {
			return ev.eval(t.b)
		}
		return ev.eval(t.c)
	case OBvAdd:
		return (ev.eval(t.a) + ev.eval(t.b)) & m
	case OBvSub:
		return (ev.eval(t.a) - ev.eval(t.b)) & m
	case OBvMul:
		return (ev.eval(t.a) * ev.eval(t.b)) & m
	case OBvUDiv:
		d := ev.eval(t.b)
		if d == 0 {
			return m
		}
		return ev.eval(t.a) / d
	case OBvURem:
		d := ev.eval(t.b)
		if d == 0 {
			return ev.eval(t.a)
		}
		return ev.eval(t.a) % d
	case OBvSDiv:
		x, y := sx(ev.eval(t.a), t.w), sx(ev.eval(t.b), t.w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OBvSRem:
		x, y := sx(ev.eval(t.a), t.w), sx(ev.eval(t.b), t.w)
		if y == 0 {
			return uint64(x) & m
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBvAnd:
		return ev.eval(t.a) & ev.eval(t.b)
	case OBvOr:
		return ev.eval(t.a) | ev.eval(t.b)
	case OBvXor:
		return ev.eval(t.a) ^ ev.eval(t.b)
	case OBvNot:
		return ^ev.eval(t.a) & m
	case OBvShl:
		s := ev.eval(t.b)
		if s >= uint64(t.w) {
			return 0
		}
		return ev.eval(t.a) << s & m
	case OBvLshr:
		s := ev.eval(t.b)
		if s >= uint64(t.w) {
			return 0
		}
		return ev.eval(t.a) >> s
	case OBvAshr:
		s := ev.eval(t.b)
		if s >= uint64(t.w) {
			s = uint64(t.w) - 1
		}
		return uint64(sx(ev.eval(t.a), t.w)>>s) & m
	case OUlt:
		return b2u(ev.eval(t.a) < ev.eval(t.b))
	case OUle:
		return b2u(ev.eval(t.a) <= ev.eval(t.b))
	case OSlt:
		return b2u(sx(ev.eval(t.a), t.a.w) < sx(ev.eval(t.b), t.b.w))
	case OSle:
		return b2u(sx(ev.eval(t.a), t.a.w) <= sx(ev.eval(t.b), t.b.w))
	case OZext:
		return ev.eval(t.a)
	case OSext:
		return uint64(sx(ev.eval(t.a), t.a.w)) & m
	case OExtract:
		return ev.eval(t.a) >> (t.val & 0xff) & m
	case OConcat:
		return ev.eval(t.a)<<t.b.w | ev.eval(t.b)
	case OFAdd, OFSub, OFMul, OFDiv:
		x := ev.tb.FBin(t.op, ev.tb.raw(OConst, t.w, ev.eval(t.a), nil, nil, nil), ev.tb.raw(OConst, t.w, ev.eval(t.b), nil, nil, nil))
		return x.val
	case OFNeg:
		return fbits(t.w, -ev.f(t.a))
	case OFLt:
		return b2u(ev.f(t.a) < ev.f(t.b))
	case OFLe:
		return b2u(ev.f(t.a) <= ev.f(t.b))
	case OFEq:
		return b2u(ev.f(t.a) == ev.f(t.b))
	case OFRound:
		return ev.tb.FRound(ev.tb.raw(OConst, t.w, ev.eval(t.a), nil, nil, nil), t.val).val
	case OFFromS:
		return ev.tb.FFromInt(ev.tb.BV(t.a.w, ev.eval(t.a)), true, t.w).val
	case OFFromU:
		return ev.tb.FFromInt(ev.tb.BV(t.a.w, ev.eval(t.a)), false, t.w).val
	case OFToS:
		return uint64(int64(ev.f(t.a))) & m
	case OFToU:
		return uint64(ev.f(t.a)) & m
	case OFFromF:
		return fbits(t.w, ev.f(t.a))
	case OFIsNaN:
		return b2u(math.IsNaN(ev.f(t.a)))
	case OFFromBits:
		return ev.eval(t.a)
	}
	panic("eval: unknown op")
}
