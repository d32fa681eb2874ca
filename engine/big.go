package main

import "fmt"

// Byte slices of symbolic extent.

func (fr *Frame) bigRead(b *Big, idx *Term) *Term { return fr.bigReadVer(b, idx, len(b.log)) }

func (fr *Frame) bigReadVer(b *Big, idx *Term, ver int) *Term {
	tb := fr.w.tb
	base := func() *Term {
		if b.zero {
			return tb.BV(8, 0)
		}
		for _, r := range b.reads {
			if r.idx == idx {
				return r.val
			}
		}
		name := b.name
		if name == "" {
			name = fmt.Sprintf("big%d", b.id)
		}
		fr.p.fresh++
		v := fr.p.newVar(name+".at", 8, 0, 255)
		for _, r := range b.reads {
			c := tb.Implies(tb.Eq(r.idx, idx), tb.Eq(r.val, v))
			fr.p.assumeKeep(c)
		}
		b.reads = append(b.reads, bigRead{idx, v})
		// name the index for replay
		fr.p.named = append(fr.p.named, namedVar{fmt.Sprintf("%s.idx#%d", name, len(b.reads)-1), idx})
		return v
	}
	r := (*Term)(nil)
	// newest write wins: build from oldest to newest
	r = base()
	for i := 0; i < ver; i++ {
		w := b.log[i]
		if w.val != nil {
			r = tb.Ite(tb.Eq(w.idx, idx), w.val, r)
			continue
		}
		in := tb.And(tb.Ule(w.dst, idx), tb.Ult(tb.Sub(idx, w.dst), w.n))
		if in.isFalse() {
			continue
		}
		sv := fr.bigReadVer(w.src, tb.Add(w.soff, tb.Sub(idx, w.dst)), w.srcVer)
		r = tb.Ite(in, sv, r)
	}
	return r
}

// assumeKeep adds a definitional constraint, refreshing the model if needed.
func (p *Path) assumeKeep(c *Term) {
	if c.isTrue() {
		return
	}
	p.assume(c)
}

func (fr *Frame) bigElems(b *BigSlice) []Value {
	n := int(b.len.val)
	r := make([]Value, n)
	for i := range r {
		r[i] = fr.bigRead(b.big, fr.w.tb.Add(b.off, fr.w.tb.BV(64, uint64(i))))
	}
	return r
}

func (fr *Frame) bigToStr(b *BigSlice) Str {
	if !b.len.isConst() && b.len.hi > 256 {
		panic(unsupported("string of a slice with symbolic length"))
	}
	n := fr.p.concretize(b.len, "slice length")
	return sliceToStr(fr.bigElems(&BigSlice{b.big, b.off, fr.w.tb.BV(64, n), b.cap}))
}

func (fr *Frame) toBig(v Value) *BigSlice {
	tb := fr.w.tb
	switch x := v.(type) {
	case *BigSlice:
		return x
	case []Value:
		fr.p.bigSeq++
		b := &Big{id: fr.p.bigSeq, zero: true}
		for i, e := range x {
			b.log = append(b.log, bigWrite{idx: tb.BV(64, uint64(i)), val: e.(*Term)})
		}
		n := tb.BV(64, uint64(len(x)))
		return &BigSlice{b, tb.BV(64, 0), n, n}
	}
	panic(unsupported(fmt.Sprintf("big slice from %T", v)))
}

// bigAppend always reallocates (legal: capacity after append is unspecified).
func (fr *Frame) bigAppend(dst Value, src *BigSlice) Value {
	tb := fr.w.tb
	d := fr.toBig(dst)
	fr.p.bigSeq++
	b := &Big{id: fr.p.bigSeq, zero: true}
	z := tb.BV(64, 0)
	b.log = append(b.log, bigWrite{dst: z, n: d.len, src: d.big, soff: d.off, srcVer: len(d.big.log)})
	b.log = append(b.log, bigWrite{dst: d.len, n: src.len, src: src.big, soff: src.off, srcVer: len(src.big.log)})
	n := tb.Add(d.len, src.len)
	return &BigSlice{b, z, n, n}
}

func (fr *Frame) bigAppendElems(d *BigSlice, ss []Value) Value {
	tb := fr.w.tb
	fr.p.bigSeq++
	b := &Big{id: fr.p.bigSeq, zero: true}
	z := tb.BV(64, 0)
	b.log = append(b.log, bigWrite{dst: z, n: d.len, src: d.big, soff: d.off, srcVer: len(d.big.log)})
	for i, e := range ss {
		b.log = append(b.log, bigWrite{idx: tb.Add(d.len, tb.BV(64, uint64(i))), val: e.(*Term)})
	}
	n := tb.Add(d.len, tb.BV(64, uint64(len(ss))))
	return &BigSlice{b, z, n, n}
}

func (fr *Frame) bigCopy(dst, src Value) Value {
	tb := fr.w.tb
	if d, ok := dst.([]Value); ok { // concrete destination, big source
		s := src.(*BigSlice)
		n := tb.Ite(tb.Ult(s.len, tb.BV(64, uint64(len(d)))), s.len, tb.BV(64, uint64(len(d))))
		k := fr.p.concretize(n, "copy length")
		for i := 0; i < int(k); i++ {
			fr.store(&d[i], fr.bigRead(s.big, tb.Add(s.off, tb.BV(64, uint64(i)))))
		}
		return tb.BV(64, k)
	}
	d := dst.(*BigSlice)
	if s, ok := src.([]Value); ok {
		n := tb.Ite(tb.Ult(d.len, tb.BV(64, uint64(len(s)))), d.len, tb.BV(64, uint64(len(s))))
		k := fr.p.concretize(n, "copy length")
		for i := 0; i < int(k); i++ {
			d.big.log = append(d.big.log, bigWrite{idx: tb.Add(d.off, tb.BV(64, uint64(i))), val: s[i].(*Term)})
		}
		return tb.BV(64, k)
	}
	s := src.(*BigSlice)
	n := tb.Ite(tb.Ult(d.len, s.len), d.len, s.len)
	d.big.log = append(d.big.log, bigWrite{dst: d.off, n: n, src: s.big, soff: s.off, srcVer: len(s.big.log)})
	return n
}
