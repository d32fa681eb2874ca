package main

// Formatting, number conversion, hashing, encoding/binary.

import (
	"crypto/sha1"
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- decimal digits of a symbolic integer

// digits renders a non-negative 64-bit term in decimal: the number of digits
// is a case split, each digit a fresh variable tied to the value.
func (fr *Frame) udigits(x *Term) []*Term {
	tb, p := fr.w.tb, fr.p
	if x.isConst() {
		return fr.w.strBytes(Str{s: strconv.FormatUint(x.val, 10)})
	}
	n := 1
	pow := uint64(10)
	for n < 20 {
		if p.fork(tb.Ult(x, tb.BV(64, pow))) {
			break
		}
		n++
		if n == 20 {
			break
		}
		pow *= 10
	}
	if n == 1 {
		return []*Term{tb.Add(tb.Extract(x, 7, 0), tb.BV(8, '0'))}
	}
	key := fmt.Sprintf("digits%d.%d", x.id, n)
	if v, ok := p.extra[key]; ok {
		return v.([]*Term)
	}
	out := make([]*Term, n)
	acc := tb.BV(64, 0)
	for i := 0; i < n; i++ {
		lo := uint64('0')
		if i == 0 {
			lo = '1'
		}
		out[i] = p.newVar("digit", 8, lo, '9')
		d := tb.Zext(tb.Sub(out[i], tb.BV(8, '0')), 64)
		acc = tb.Add(tb.Mul(acc, tb.BV(64, 10)), d)
	}
	// the digits of the value x has in the current model
	m := Model{}
	for k, v := range p.w.ev.m {
		m[k] = v
	}
	txt := strconv.FormatUint(p.eval(x), 10)
	for i := 0; i < n && len(txt) == n; i++ {
		m[out[i].name] = uint64(txt[i])
	}
	p.w.ev.setModel(m)
	p.assume(tb.Eq(x, acc))
	p.define(x, acc)
	p.extra[key] = out
	p.extra[fmt.Sprintf("number%d", out[0].id)] = &decimal{x, out}
	return out
}

type decimal struct {
	x      *Term
	digits []*Term
}

// undecimal recognises the text of a number produced by udigits.
func (fr *Frame) undecimal(s Str) (x *Term, neg, ok bool) {
	b := s.b
	if b == nil || s.opq {
		return nil, false, false
	}
	if b[0].isConst() && b[0].val == '-' && len(b) > 1 {
		neg, b = true, b[1:]
	}
	d, _ := fr.p.extra[fmt.Sprintf("number%d", b[0].id)].(*decimal)
	if d == nil || len(d.digits) != len(b) {
		return nil, false, false
	}
	for i := range b {
		if b[i] != d.digits[i] {
			return nil, false, false
		}
	}
	return d.x, neg, true
}

func (fr *Frame) itoa(x *Term, signed bool) Str {
	tb := fr.w.tb
	if x.isConst() {
		if signed {
			return Str{s: strconv.FormatInt(int64(x.val), 10)}
		}
		return Str{s: strconv.FormatUint(x.val, 10)}
	}
	if signed && fr.p.fork(tb.Slt(x, tb.BV(64, 0))) {
		return mkStr(append([]*Term{tb.BV(8, '-')}, fr.udigits(tb.Neg(x))...))
	}
	return mkStr(fr.udigits(x))
}

func regStrconv() {
	base10 := func(signed bool, app bool) intrinsic {
		return func(fr *Frame, fn *ssa.Function, args []Value) Value {
			i := 0
			if app {
				i = 1
			}
			x, b := args[i].(*Term), args[i+1].(*Term)
			if x.isConst() || !b.isConst() || b.val != 10 {
				return fr.interpret(fn, args)
			}
			s := fr.itoa(x, signed)
			if app {
				dst := args[0].([]Value)
				r := make([]Value, 0, len(dst)+s.length())
				r = append(r, dst...)
				return append(r, fr.w.bytesToSlice(s)...)
			}
			return s
		}
	}
	for _, p := range []string{"strconv", "internal/strconv"} {
		reg(p+".FormatInt", base10(true, false))
		reg(p+".FormatUint", base10(false, false))
		reg(p+".AppendInt", base10(true, true))
		reg(p+".AppendUint", base10(false, true))
		reg(p+".Itoa", func(fr *Frame, fn *ssa.Function, args []Value) Value { return fr.itoa(args[0].(*Term), true) })
	}
	// the text of a number read back: the number, if it is in range
	reg("strconv.ParseInt", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		x, neg, ok := fr.undecimal(args[0].(Str))
		base, bits := args[1].(*Term), args[2].(*Term)
		if !ok || !base.isConst() || base.val != 0 && base.val != 10 || !bits.isConst() || bits.val > 64 {
			return fr.interpret(fn, args)
		}
		tb := fr.w.tb
		n := bits.val
		if n == 0 {
			n = 64
		}
		lim := uint64(1) << (n - 1)
		in := tb.Ult(x, tb.BV(64, lim))
		if neg {
			in = tb.Ule(x, tb.BV(64, lim))
		}
		if !fr.p.fork(in) {
			return fr.interpret(fn, args)
		}
		if neg {
			x = tb.Neg(x)
		}
		return Tuple{x, Iface{}}
	})
	reg("strconv.ParseUint", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		x, neg, ok := fr.undecimal(args[0].(Str))
		base, bits := args[1].(*Term), args[2].(*Term)
		if !ok || neg || !base.isConst() || base.val != 0 && base.val != 10 || !bits.isConst() || bits.val > 64 {
			return fr.interpret(fn, args)
		}
		tb := fr.w.tb
		if n := bits.val; n > 0 && n < 64 {
			if !fr.p.fork(tb.Ult(x, tb.BV(64, 1<<n))) {
				return fr.interpret(fn, args)
			}
		}
		return Tuple{x, Iface{}}
	})
	reg("strconv.Quote", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		s := args[0].(Str)
		if s.isConc() {
			return Str{s: strconv.Quote(s.s)}
		}
		return Str{opq: true, s: "?"}
	})
	// error construction: the message is irrelevant, avoid cloning symbolic text
	reg("strconv.FormatFloat", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		t := args[0].(*Term)
		if t.isConst() && args[2].(*Term).isConst() {
			return Str{s: strconv.FormatFloat(fval(t), byte(args[1].(*Term).val), int(int64(args[2].(*Term).val)), int(args[3].(*Term).val))}
		}
		return Str{opq: true, s: "float"}
	})
}

// --- fmt

func (fr *Frame) nativeArg(v Value, t types.Type) (interface{}, bool) {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		switch {
		case x.w == SBool:
			return x.val == 1, true
		case isFP(x.w):
			return fval(x), true
		case b.Info()&types.IsUnsigned != 0:
			switch b.Kind() {
			case types.Uint8:
				return uint8(x.val), true
			}
			return x.val, true
		}
		if b.Kind() == types.Int32 {
			return int32(x.val), true
		}
		return sx(x.val, x.w), true
	case Str:
		if !x.isConc() {
			return nil, false
		}
		return x.s, true
	case []Value:
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				out := make([]byte, len(x))
				for i := range x {
					tm, ok := x[i].(*Term)
					if !ok || !tm.isConst() {
						return nil, false
					}
					out[i] = byte(tm.val)
				}
				return out, true
			}
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				out := make([]string, len(x))
				for i := range x {
					s, ok := x[i].(Str)
					if !ok || !s.isConc() {
						return nil, false
					}
					out[i] = s.s
				}
				return out, true
			}
		}
	}
	return nil, false
}

func (fr *Frame) fmtOne(spec string, verb byte, a Iface) Str {
	opq := Str{opq: true, s: "?"}
	if verb == 'T' {
		if a.t == nil {
			return Str{s: "<nil>"}
		}
		return Str{s: typeStr(a.t)}
	}
	if a.t == nil {
		if verb == 'v' {
			return Str{s: "<nil>"}
		}
		return Str{s: "%!" + string(verb) + "(<nil>)"}
	}
	if verb == 'p' {
		return opq
	}
	if rt, ok := a.v.(*RType); ok {
		return Str{s: typeStr(rt.t)}
	}
	if strings.IndexByte("vsqxXw", verb) >= 0 && !strings.Contains(spec, "#") {
		for _, mn := range []string{"Error", "String"} {
			m := fr.lookupMethod(a.t, mn)
			if m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
				if b, ok := m.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					if isNilVal(a.v) {
						return Str{s: "<nil>"}
					}
					s := fr.p.callSSA(fr, m, []Value{a.v}, nil).(Str)
					if s.isConc() {
						return Str{s: fmt.Sprintf(spec[:len(spec)-1]+string(fixw(verb)), s.s)}
					}
					if !s.opq && len(spec) == 2 && verb != 'q' && verb != 'x' && verb != 'X' {
						return s
					}
					return opq
				}
			}
		}
	}
	if n, ok := fr.nativeArg(a.v, a.t); ok {
		return Str{s: fmt.Sprintf(spec[:len(spec)-1]+string(fixw(verb)), n)}
	}
	if spec == "%x" || spec == "%X" {
		if b, ok := fr.formatBytes(a); ok {
			return fr.hex(b, verb == 'X')
		}
	}
	if len(spec) == 2 {
		switch x := a.v.(type) {
		case Str:
			if (verb == 's' || verb == 'v') && !x.opq {
				return x
			}
		case *Term:
			if (verb == 'd' || verb == 'v') && isBV(x.w) {
				sg := isSigned(a.t)
				return fr.itoa(fr.w.tb.Resize(x, 64, sg), sg)
			}
		case []Value:
			if verb == 's' {
				if sl, ok := a.t.Underlying().(*types.Slice); ok {
					if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
						return sliceToStr(x)
					}
				}
			}
		}
	}
	return opq
}

// formatBytes returns the bytes of a string, byte slice or byte array.
func (fr *Frame) formatBytes(a Iface) ([]*Term, bool) {
	var el types.Type
	switch t := a.t.Underlying().(type) {
	case *types.Slice:
		el = t.Elem()
	case *types.Array:
		el = t.Elem()
	}
	var vals []Value
	switch x := a.v.(type) {
	case Str:
		if x.opq {
			return nil, false
		}
		return fr.w.strBytes(x), true
	case []Value:
		vals = x
	case Array:
		vals = x
	}
	if el == nil {
		return nil, false
	}
	if b, ok := el.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return nil, false
	}
	s := sliceToStr(vals)
	return fr.w.strBytes(s), !s.opq
}

// hex writes bytes as hexadecimal digits.
func (fr *Frame) hex(b []*Term, upper bool) Str {
	tb := fr.w.tb
	letter := uint64('a' - 10)
	if upper {
		letter = 'A' - 10
	}
	digit := func(n *Term) *Term {
		return tb.Ite(tb.Ult(n, tb.BV(8, 10)), tb.Add(n, tb.BV(8, '0')), tb.Add(n, tb.BV(8, letter)))
	}
	var out []*Term
	for _, t := range b {
		out = append(out, digit(tb.Lshr(t, tb.BV(8, 4))), digit(tb.BvAnd(t, tb.BV(8, 15))))
	}
	return mkStr(out)
}

func fixw(v byte) byte {
	if v == 'w' {
		return 'v'
	}
	return v
}

// sprintf formats; wrapped collects %w operands.
func (fr *Frame) sprintf(format Str, args []Value, wrapped *[]Iface) Str {
	if !format.isConc() {
		return Str{opq: true, s: "?"}
	}
	f := format.s
	out := Str{}
	cat := func(s Str) { out = fr.w.strConcat(out, s) }
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			cat(Str{s: f[i:]})
			break
		}
		if j > 0 {
			cat(Str{s: f[i : i+j]})
		}
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			cat(Str{s: "%!(NOVERB)"})
			break
		}
		if f[k] == '*' || f[k] == '[' {
			return Str{opq: true, s: "?"}
		}
		verb := f[k]
		spec := f[i : k+1]
		i = k + 1
		if verb == '%' {
			cat(Str{s: "%"})
			continue
		}
		if n >= len(args) {
			cat(Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := args[n].(Iface)
		n++
		if verb == 'w' && wrapped != nil {
			if a.t != nil {
				*wrapped = append(*wrapped, a)
			}
		}
		cat(fr.fmtOne(spec, verb, a))
	}
	if n < len(args) {
		cat(Str{s: "%!(EXTRA)"})
	}
	return out
}

func (fr *Frame) sprint(args []Value, ln bool) Str {
	out := Str{}
	prevStr := true
	for i, x := range args {
		a := x.(Iface)
		_, isS := a.v.(Str)
		if i > 0 && (ln || (!isS && !prevStr)) {
			out = fr.w.strConcat(out, Str{s: " "})
		}
		prevStr = isS
		out = fr.w.strConcat(out, fr.fmtOne("%v", 'v', a))
	}
	if ln {
		out = fr.w.strConcat(out, Str{s: "\n"})
	}
	return out
}

func (fr *Frame) fwrite(w Iface, s Str) Value {
	if s.opq {
		s = Str{s: s.s}
	}
	if w.t == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	m := fr.methodOf(w.t, nil, "Write")
	return fr.p.callSSA(fr, m, []Value{w.v, fr.w.bytesToSlice(s)}, nil)
}

func regFmt() {
	sl := func(v Value) []Value {
		s, _ := v.([]Value)
		return s
	}
	reg("code.cloudfoundry.org/bytefmt.ByteSize", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if t := a[0].(*Term); !t.isConst() {
			return Str{opq: true, s: "?"}
		}
		return fr.interpret(fn, a)
	})
	reg("strings.Repeat", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t := a[1].(*Term)
		if l, h := srange(t); !t.isConst() && l >= 0 && h-l < 4096 {
			// decided here, not in the arithmetic on the length
			a = []Value{a[0], fr.w.tb.BV(t.w, fr.p.concretize(t, "repeat count"))}
		}
		if t := a[1].(*Term); t.isConst() && sx(t.val, t.w) > 1<<16 {
			panic(unsupported("strings.Repeat, many times"))
		} else if l, _ := srange(t); !t.isConst() && l < 0 {
			// negative counts are what matters
			if fr.p.fork(fr.w.tb.Slt(t, fr.w.tb.BV(t.w, 0))) {
				fr.rpanic("strings: negative Repeat count")
			}
			if fr.p.fork(fr.w.tb.Slt(fr.w.tb.BV(t.w, 1<<12), t)) {
				panic(unsupported("strings.Repeat, many times"))
			}
			a = []Value{a[0], fr.w.tb.BV(t.w, fr.p.concretize(t, "repeat count"))}
		}
		return fr.interpret(fn, a)
	})
	reg("fmt.Sprintf", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.sprintf(a[0].(Str), sl(a[1]), nil) })
	reg("fmt.Sprint", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.sprint(sl(a[0]), false) })
	reg("fmt.Sprintln", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.sprint(sl(a[0]), true) })
	reg("fmt.Fprintf", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.fwrite(a[0].(Iface), fr.sprintf(a[1].(Str), sl(a[2]), nil))
	})
	reg("fmt.Fprint", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.fwrite(a[0].(Iface), fr.sprint(sl(a[1]), false))
	})
	reg("fmt.Fprintln", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.fwrite(a[0].(Iface), fr.sprint(sl(a[1]), true))
	})
	pr := func(fr *Frame, fn *ssa.Function, a []Value) Value { return Tuple{fr.w.tb.BV(64, 0), Iface{}} }
	reg("fmt.Printf", pr)
	reg("fmt.Print", pr)
	reg("fmt.Println", pr)
	reg("fmt.Appendf", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := fr.sprintf(a[1].(Str), sl(a[2]), nil)
		d := append([]Value(nil), sl(a[0])...)
		return append(d, fr.w.bytesToSlice(s)...)
	})
	reg("fmt.Errorf", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		var wr []Iface
		// numbers in an error's text: the text is opaque
		args := append([]Value(nil), sl(a[1])...)
		symbolic := false
		for _, x := range args {
			if ifc, ok := x.(Iface); ok {
				if t, ok := ifc.v.(*Term); ok && !t.isConst() {
					symbolic = true
				}
			}
		}
		s := Str{opq: true, s: "?"}
		if !symbolic {
			s = fr.sprintf(a[0].(Str), args, &wr)
		} else if strings.Contains(a[0].(Str).s, "%w") {
			for _, x := range args {
				if ifc, ok := x.(Iface); ok && ifc.t != nil && types.Implements(ifc.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
					wr = append(wr, ifc)
				}
			}
		}
		mk := func(pkg, tn string, st Struct) Value {
			c := new(Value)
			*c = st
			return Iface{t: types.NewPointer(fr.rnamed(pkg, tn)), v: c}
		}
		switch len(wr) {
		case 0:
			return mk("errors", "errorString", Struct{s})
		case 1:
			return mk("fmt", "wrapError", Struct{s, wr[0]})
		}
		var es []Value
		for _, w := range wr {
			es = append(es, w)
		}
		return mk("fmt", "wrapErrors", Struct{s, es})
	})
}

// --- sha1

type hashState struct {
	in []*Term
	// data of symbolic length, after which in goes on
	segs []hashSeg
}

// hashSeg is a part of the input of a hash: some bytes, or a part of a slice
// of symbolic extent as it was after ver writes.
type hashSeg struct {
	in       []*Term
	big      *Big
	ver      int
	off, len *Term
}

func (h *hashState) write(fr *Frame, v Value) *Term {
	tb := fr.w.tb
	if b, ok := v.(*BigSlice); ok && !b.len.isConst() && b.len.hi > 300 {
		if len(h.in) > 0 {
			h.segs = append(h.segs, hashSeg{in: h.in})
			h.in = nil
		}
		ver := len(b.big.log)
		if n := len(h.segs); n > 0 {
			if l := &h.segs[n-1]; l.big == b.big && l.ver == ver && tb.Add(l.off, l.len) == b.off {
				l.len = tb.Add(l.len, b.len)
				return b.len
			}
		}
		h.segs = append(h.segs, hashSeg{big: b.big, ver: ver, off: b.off, len: b.len})
		return b.len
	}
	b := fr.byteTerms(v)
	h.in = append(h.in, b...)
	return tb.BV(64, uint64(len(b)))
}

func (h *hashState) sum(fr *Frame) []*Term {
	if len(h.segs) == 0 {
		return fr.sha1Of(h.in)
	}
	segs := append([]hashSeg(nil), h.segs...)
	if len(h.in) > 0 {
		segs = append(segs, hashSeg{in: h.in})
	}
	return fr.sha1Segs(segs)
}

// sha1Segs is sha1Of for data of symbolic length. Whether two such inputs are
// equal is known if they are parts of the same slice from the same offset; if
// not, they may be taken for equal only if they have the same length.
func (fr *Frame) sha1Segs(segs []hashSeg) []*Term {
	tb, p := fr.w.tb, fr.p
	length := func(segs []hashSeg) *Term {
		n := tb.BV(64, 0)
		for _, s := range segs {
			if s.big != nil {
				n = tb.Add(n, s.len)
			} else {
				n = tb.Add(n, tb.BV(64, uint64(len(s.in))))
			}
		}
		return n
	}
	eqv := func(a, b []*Term) *Term {
		if len(a) != len(b) {
			return tb.False
		}
		r := tb.True
		for i := range a {
			r = tb.And(r, tb.Eq(a[i], b[i]))
		}
		return r
	}
	// the length of a part is free to differ where nothing follows it
	same := func(a, b []hashSeg) *Term {
		if len(a) != len(b) {
			return nil
		}
		r := tb.True
		for i := range a {
			x, y := a[i], b[i]
			switch {
			case x.big == nil && y.big == nil && len(x.in) == len(y.in):
				r = tb.And(r, eqv(x.in, y.in))
			case x.big != nil && x.big == y.big && x.ver == y.ver && x.off == y.off && (x.len == y.len || i == len(a)-1):
				r = tb.And(r, tb.Eq(x.len, y.len))
			default:
				return nil
			}
		}
		return r
	}
	out := make([]*Term, 20)
	for i := range out {
		out[i] = p.newVar("sha1", 8, 0, 255)
	}
	for _, h := range p.hashes {
		hs := h.segs
		if hs == nil {
			hs = []hashSeg{{in: h.in}}
		}
		e := same(hs, segs)
		if e != nil && e.isTrue() {
			return h.out
		}
		o := eqv(h.out, out)
		if e != nil {
			p.assume(tb.And(tb.Implies(e, o), tb.Implies(o, e)))
		} else {
			p.assume(tb.Implies(o, tb.Eq(length(hs), length(segs))))
		}
	}
	p.hashes = append(p.hashes, &hashApp{segs: segs, out: out})
	return out
}

func (fr *Frame) byteTerms(v Value) []*Term {
	switch s := v.(type) {
	case []Value:
		out := make([]*Term, len(s))
		for i := range s {
			fr.access(&s[i], false)
			out[i] = s[i].(*Term)
		}
		return out
	case *BigSlice:
		if !s.len.isConst() {
			if s.len.hi > 300 {
				panic(unsupported("hash of data with symbolic length"))
			}
			n := fr.p.concretize(s.len, "hash length")
			s = &BigSlice{s.big, s.off, fr.w.tb.BV(64, n), s.cap}
		}
		return fr.byteTerms(fr.bigElems(s))
	case Str:
		return fr.w.strBytes(s)
	}
	panic(unsupported(fmt.Sprintf("bytes of %T", v)))
}

// sha1Of: concrete inputs are hashed; otherwise the digest is a fresh value
// related to every other digest of the path: equal inputs have equal digests,
// and different inputs different ones (collision freedom is assumed).
func (fr *Frame) sha1Of(in []*Term) []*Term {
	tb, p := fr.w.tb, fr.p
	all := true
	for _, t := range in {
		if !t.isConst() {
			all = false
			break
		}
	}
	out := make([]*Term, 20)
	if all {
		b := make([]byte, len(in))
		for i, t := range in {
			b[i] = byte(t.val)
		}
		h := sha1.Sum(b)
		for i := range out {
			out[i] = tb.BV(8, uint64(h[i]))
		}
	}
	for _, h := range p.hashes {
		if h.segs == nil && len(h.in) == len(in) {
			same := true
			for i := range in {
				if h.in[i] != in[i] {
					same = false
					break
				}
			}
			if same {
				return h.out
			}
		}
	}
	if !all {
		for i := range out {
			out[i] = p.newVar("sha1", 8, 0, 255)
		}
	}
	eqv := func(a, b []*Term) *Term {
		if len(a) != len(b) {
			return tb.False
		}
		r := tb.True
		for i := range a {
			r = tb.And(r, tb.Eq(a[i], b[i]))
		}
		return r
	}
	for _, h := range p.hashes {
		if h.segs != nil {
			continue // nothing is known of it
		}
		a, b := eqv(h.in, in), eqv(h.out, out)
		p.assume(tb.And(tb.Implies(a, b), tb.Implies(b, a)))
	}
	p.hashes = append(p.hashes, &hashApp{in: append([]*Term(nil), in...), out: out})
	return out
}

func regHash() {
	st := func(fr *Frame, v Value) *hashState {
		s := fr.p.syncOf(fr.deref(v))
		if s.val == nil {
			s.val = &hashState{}
		}
		return s.val.(*hashState)
	}
	reg("crypto/sha1.New", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		t := fr.rnamed("crypto/sha1", "digest")
		c := new(Value)
		*c = Struct{}
		return Iface{t: types.NewPointer(t), v: c}
	})
	reg("(*crypto/sha1.digest).Write", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		return Tuple{st(fr, args[0]).write(fr, args[1]), Iface{}}
	})
	reg("(*crypto/sha1.digest).Reset", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		*st(fr, args[0]) = hashState{}
		return nil
	})
	reg("(*crypto/sha1.digest).Size", constFn(func(fr *Frame) Value { return fr.w.tb.BV(64, 20) }))
	reg("(*crypto/sha1.digest).BlockSize", constFn(func(fr *Frame) Value { return fr.w.tb.BV(64, 64) }))
	reg("(*crypto/sha1.digest).Sum", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		h := st(fr, args[0])
		out := h.sum(fr)
		d, _ := args[1].([]Value)
		r := make([]Value, 0, len(d)+20)
		r = append(r, d...)
		for _, t := range out {
			r = append(r, t)
		}
		return r
	})
	reg("crypto/sha1.Sum", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		var h hashState
		h.write(fr, args[0])
		out := h.sum(fr)
		r := make(Array, 20)
		for i, t := range out {
			r[i] = t
		}
		return r
	})
}

// --- encoding/binary

func bigOrder(fr *Frame, v Value) bool {
	i := v.(Iface)
	if i.t == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch {
	case isNamed(i.t, "encoding/binary", "bigEndian"):
		return true
	case isNamed(i.t, "encoding/binary", "littleEndian"), isNamed(i.t, "encoding/binary", "nativeEndian"):
		return false
	}
	panic(unsupported("byte order " + i.t.String()))
}

// binFlat encodes a fixed-size value; ok=false when it is not fixed-size.
func (fr *Frame) binFlat(t types.Type, v Value, be bool, top bool) ([]*Term, bool) {
	tb := fr.w.tb
	put := func(x *Term) []*Term {
		n := int(x.w) / 8
		out := make([]*Term, n)
		for i := 0; i < n; i++ {
			sh := i
			if be {
				sh = n - 1 - i
			}
			out[i] = tb.Extract(x, uint8(sh*8+7), uint8(sh*8))
		}
		return out
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int8, types.Uint8, types.Int16, types.Uint16, types.Int32, types.Uint32, types.Int64, types.Uint64:
			return put(v.(*Term)), true
		case types.Bool:
			return []*Term{tb.Ite(v.(*Term), tb.BV(8, 1), tb.BV(8, 0))}, true
		}
		return nil, false
	case *types.Pointer:
		if !top {
			return nil, false
		}
		p := v.(*Value)
		if p == nil {
			return nil, false
		}
		return fr.binFlat(u.Elem(), *p, be, false)
	case *types.Slice:
		if !top {
			return nil, false
		}
		if b, ok := v.(*BigSlice); ok {
			return fr.byteTerms(b), true
		}
		var out []*Term
		if _, ok := fr.binFlat(u.Elem(), fr.w.zero(u.Elem()), be, false); !ok {
			return nil, false
		}
		s := v.([]Value)
		for i := range s {
			fr.access(&s[i], false)
			x, _ := fr.binFlat(u.Elem(), s[i], be, false)
			out = append(out, x...)
		}
		return out, true
	case *types.Array:
		var out []*Term
		for _, e := range v.(Array) {
			x, ok := fr.binFlat(u.Elem(), e, be, false)
			if !ok {
				return nil, false
			}
			out = append(out, x...)
		}
		return out, true
	case *types.Struct:
		var out []*Term
		for i, e := range v.(Struct) {
			x, ok := fr.binFlat(u.Field(i).Type(), e, be, false)
			if !ok {
				return nil, false
			}
			if u.Field(i).Name() == "_" {
				for j := range x {
					x[j] = tb.BV(8, 0)
				}
			}
			out = append(out, x...)
		}
		return out, true
	}
	return nil, false
}

func (fr *Frame) binFill(t types.Type, c *Value, b []*Term, be bool) ([]*Term, bool) {
	tb := fr.w.tb
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := 0
		switch u.Kind() {
		case types.Int8, types.Uint8:
			n = 1
		case types.Int16, types.Uint16:
			n = 2
		case types.Int32, types.Uint32:
			n = 4
		case types.Int64, types.Uint64:
			n = 8
		case types.Bool:
			*c = tb.Not(tb.Eq(b[0], tb.BV(8, 0)))
			return b[1:], true
		default:
			return nil, false
		}
		var r *Term
		for i := 0; i < n; i++ {
			j := i
			if !be {
				j = n - 1 - i
			}
			if r == nil {
				r = b[j]
			} else {
				r = tb.Concat(r, b[j])
			}
		}
		fr.access(c, true)
		*c = r
		return b[n:], true
	case *types.Array:
		a := (*c).(Array)
		for i := range a {
			var ok bool
			if b, ok = fr.binFill(u.Elem(), &a[i], b, be); !ok {
				return nil, false
			}
		}
		return b, true
	case *types.Struct:
		s := (*c).(Struct)
		for i := range s {
			var ok bool
			if b, ok = fr.binFill(u.Field(i).Type(), &s[i], b, be); !ok {
				return nil, false
			}
		}
		return b, true
	}
	return nil, false
}

func (fr *Frame) mkErr(msg string) Value {
	c := new(Value)
	*c = Struct{Str{s: msg}}
	return Iface{t: types.NewPointer(fr.rnamed("errors", "errorString")), v: c}
}

func regBinary() {
	reg("encoding/binary.Write", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		be := bigOrder(fr, args[1])
		d := args[2].(Iface)
		if d.t == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		b, ok := fr.binFlat(d.t, d.v, be, true)
		if !ok {
			return fr.mkErr("binary.Write: some values are not fixed-sized in type " + typeStr(d.t))
		}
		w := args[0].(Iface)
		if w.t == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		vs := make([]Value, len(b))
		for i, t := range b {
			vs[i] = t
		}
		r := fr.p.callSSA(fr, fr.methodOf(w.t, nil, "Write"), []Value{w.v, vs}, nil).(Tuple)
		return r[1]
	})
	reg("encoding/binary.Append", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		be := bigOrder(fr, args[1])
		d := args[2].(Iface)
		b, ok := fr.binFlat(d.t, d.v, be, true)
		if !ok {
			return Tuple{[]Value(nil), fr.mkErr("binary.Append: some values are not fixed-sized in type " + typeStr(d.t))}
		}
		old, _ := args[0].([]Value)
		r := append([]Value(nil), old...)
		for _, t := range b {
			r = append(r, t)
		}
		return Tuple{r, Iface{}}
	})
	reg("encoding/binary.Size", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		d := args[0].(Iface)
		b, ok := fr.binFlat(d.t, d.v, true, true)
		if !ok {
			return fr.w.tb.BV(64, mask(64))
		}
		return fr.w.tb.BV(64, uint64(len(b)))
	})
	reg("encoding/binary.Read", func(fr *Frame, fn *ssa.Function, args []Value) Value {
		be := bigOrder(fr, args[1])
		d := args[2].(Iface)
		var cells []*Value
		var et types.Type
		switch u := d.t.Underlying().(type) {
		case *types.Pointer:
			cells = []*Value{fr.deref(d.v)}
			et = u.Elem()
		case *types.Slice:
			s := d.v.([]Value)
			for i := range s {
				cells = append(cells, &s[i])
			}
			et = u.Elem()
		default:
			return fr.mkErr("binary.Read: invalid type " + typeStr(d.t))
		}
		z, ok := fr.binFlat(et, fr.w.zero(et), be, false)
		if !ok {
			return fr.mkErr("binary.Read: invalid type " + typeStr(d.t))
		}
		n := len(z) * len(cells)
		buf := make([]Value, n)
		for i := range buf {
			buf[i] = fr.w.tb.BV(8, 0)
		}
		r := fr.p.callSSA(fr, fr.p.e.ld.fn("io", "ReadFull"), []Value{args[0], buf}, nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return e
		}
		b := fr.byteTerms(buf)
		for _, c := range cells {
			b, _ = fr.binFill(et, c, b, be)
		}
		return Iface{}
	})
}
