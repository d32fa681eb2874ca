package main

// Values of the symbolic interpreter.
//
//   *Term              booleans, integers, floats
//   Str                strings (concrete length; each byte a term)
//   *Value             pointers (address of a cell); nil pointer is (*Value)(nil)
//   *SymPtr, *BigPtr   pointers to an element at a symbolic index
//   *SliceData         unsafe.SliceData / unsafe.StringData results
//   Struct, Array      aggregates
//   []Value            slices with concrete extent
//   *BigSlice          byte slices with symbolic extent
//   Iface              interfaces
//   *MapObj, *ChanObj  maps, channels (nil pointers for nil)
//   *ssa.Function, *Closure, *ssa.Builtin, *NativeFn   functions
//   Tuple              multiple results
//   *RVal, *RType      reflect model

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Str struct {
	s   string
	b   []*Term // nil: concrete s
	opq bool    // contents unknown (formatted from symbolic parts)
}

type Struct []Value
type Array []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type SymPtr struct {
	elems []Value
	idx   *Term
}

type SliceData struct {
	sl  []Value
	str *Str
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type NativeFn struct {
	name string
	f    func(fr *Frame, args []Value) Value
}

// BoundIntrinsic values etc. are NativeFns.

type Poison struct{ why string }

// --- Big byte arrays: symbolic size, contents through Ackermannised reads.

type bigRead struct {
	idx *Term
	val *Term
}

type bigWrite struct {
	// single byte write: val != nil
	idx *Term
	val *Term
	// region copy: [dst, dst+n) = src[soff...]
	dst, n *Term
	src    *Big
	soff   *Term
	srcVer int
}

type Big struct {
	id    int
	zero  bool // initial contents are zero instead of arbitrary
	name  string
	reads []bigRead
	log   []bigWrite
}

type BigSlice struct {
	big           *Big
	off, len, cap *Term
}

type BigPtr struct {
	big *Big
	idx *Term
}

// --- maps

type mapEntry struct {
	k, v Value
	dead bool
}

type MapObj struct {
	kt, vt  types.Type
	entries []*mapEntry
	n       int
	conc    map[string]*mapEntry
	symKeys int // live entries whose key is not fully concrete
	cell    Value
}

// canonKey renders a fully concrete key; ok=false when symbolic.
func canonKey(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if !v.isConst() {
			return "", false
		}
		return fmt.Sprintf("t%d:%d", v.w, v.val), true
	case Str:
		if v.opq || v.b != nil {
			return "", false
		}
		return "s" + v.s, true
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case Struct:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range v {
			k, ok := canonKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	case Array:
		var sb strings.Builder
		sb.WriteString("[")
		for _, f := range v {
			k, ok := canonKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := canonKey(v.v)
		return "i" + types.TypeString(v.t, nil) + "#" + k, ok
	case *ChanObj:
		return fmt.Sprintf("c%p", v), true
	}
	return "", false
}

// --- strings

func (w *Worker) strOf(s string) Str { return Str{s: s} }

func (s Str) length() int {
	if s.opq {
		panic(unsupported("length of an opaque formatted string"))
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (w *Worker) strByte(s Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return w.tb.BV(8, uint64(s.s[i]))
}

func (w *Worker) strBytes(s Str) []*Term {
	if s.opq {
		panic(unsupported("bytes of an opaque formatted string"))
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = w.tb.BV(8, uint64(s.s[i]))
	}
	return r
}

// mkStr normalises: all-constant byte terms become a concrete string.
func mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.isConst() {
			return Str{b: b}
		}
	}
	buf := make([]byte, len(b))
	for i, t := range b {
		buf[i] = byte(t.val)
	}
	return Str{s: string(buf)}
}

func (s Str) isConc() bool { return !s.opq && s.b == nil }

func (w *Worker) strConcat(a, b Str) Str {
	if a.opq || b.opq {
		return Str{opq: true, s: a.s + b.s}
	}
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	x, y := w.strBytes(a), w.strBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return mkStr(r)
}

func (w *Worker) strSlice(s Str, lo, hi int) Str {
	if s.b != nil {
		return mkStr(s.b[lo:hi:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (w *Worker) strEq(a, b Str) *Term {
	if a.opq || b.opq {
		if (a.isConc() && a.s == "") || (b.isConc() && b.s == "") {
			return w.tb.False // formatted messages are never empty
		}
		panic(unsupported("comparison of an opaque formatted string"))
	}
	if a.length() != b.length() {
		return w.tb.False
	}
	if a.b == nil && b.b == nil {
		return w.tb.Bool(a.s == b.s)
	}
	r := w.tb.True
	for i, n := 0, a.length(); i < n; i++ {
		r = w.tb.And(r, w.tb.Eq(w.strByte(a, i), w.strByte(b, i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (w *Worker) strLess(a, b Str) *Term {
	if a.isConc() && b.isConc() {
		return w.tb.Bool(a.s < b.s)
	}
	n := a.length()
	if b.length() < n {
		n = b.length()
	}
	r := w.tb.Bool(a.length() < b.length())
	for i := n - 1; i >= 0; i-- {
		x, y := w.strByte(a, i), w.strByte(b, i)
		r = w.tb.Or(w.tb.Ult(x, y), w.tb.And(w.tb.Eq(x, y), r))
	}
	return r
}

func (w *Worker) bytesToSlice(s Str) []Value {
	bs := w.strBytes(s)
	r := make([]Value, len(bs))
	for i, t := range bs {
		r[i] = t
	}
	return r
}

func sliceToStr(sl []Value) Str {
	b := make([]*Term, len(sl))
	for i, v := range sl {
		b[i] = v.(*Term)
	}
	return mkStr(b)
}

// --- type helpers

func basicWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	case types.Float64, types.UntypedFloat:
		return SF64
	case types.Float32:
		return SF32
	}
	panic(unsupported("basic type " + b.String()))
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path() == pkg && o.Name() == name
}

func (w *Worker) zero(t types.Type) Value {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if o := n.Obj(); o.Pkg() != nil && o.Pkg().Path() == "reflect" && o.Name() == "Value" {
			return &RVal{}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.UnsafePointer, types.UntypedNil:
			return (*Value)(nil)
		}
		wd := basicWidth(u)
		if wd == SBool {
			return w.tb.False
		}
		if isFP(wd) {
			return w.tb.fconst(wd, 0)
		}
		return w.tb.BV(wd, 0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		if n > 1<<22 {
			panic(unsupported("huge array"))
		}
		a := make(Array, n)
		if n > 0 {
			z := w.zero(u.Elem())
			_, agg := z.(Struct)
			_, agg2 := z.(Array)
			for i := range a {
				if i > 0 && (agg || agg2) {
					z = w.zero(u.Elem())
				}
				a[i] = z
			}
		}
		return a
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return w.zero(u.At(0).Type())
		}
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = w.zero(u.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero of " + t.String()))
}

// copyVal copies aggregates so that value semantics hold.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, f := range v {
			r[i] = copyVal(f)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, f := range v {
			r[i] = copyVal(f)
		}
		return r
	}
	return v
}

// assignInto stores v at *p keeping the identity of sub-cells (field
// addresses taken earlier stay valid).
func assignInto(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				assignInto(&d[i], v[i])
			}
			return
		}
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				assignInto(&d[i], v[i])
			}
			return
		}
	}
	*p = copyVal(v)
}

func isNilFunc(v Value) bool {
	switch f := v.(type) {
	case nil:
		return true
	case *Closure:
		return f == nil
	case *ssa.Function:
		return f == nil
	case *NativeFn:
		return f == nil
	}
	return false
}

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Value:
		return v == nil
	case []Value:
		return v == nil
	case *BigSlice:
		return v == nil
	case *MapObj:
		return v == nil
	case *ChanObj:
		return v == nil
	case Iface:
		return v.t == nil
	case *Closure, *ssa.Function, *NativeFn:
		return isNilFunc(v)
	case *SliceData:
		return v == nil
	}
	return false
}

// eqVal returns the term a == b at static type t.
func (fr *Frame) eqVal(a, b Value) *Term {
	w := fr.w
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		if isFP(x.w) {
			return w.tb.FCmp(OFEq, x, y)
		}
		return w.tb.Eq(x, y)
	case Str:
		if y, ok := b.(Str); ok {
			return w.strEq(x, y)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return w.tb.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return w.tb.False
		}
		if !types.Comparable(x.t) {
			fr.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return fr.eqVal(x.v, y.v)
	case Struct:
		if y, ok := b.(Struct); ok {
			r := w.tb.True
			for i := range x {
				r = w.tb.And(r, fr.eqVal(x[i], y[i]))
			}
			return r
		}
	case Array:
		if y, ok := b.(Array); ok {
			r := w.tb.True
			for i := range x {
				r = w.tb.And(r, fr.eqVal(x[i], y[i]))
			}
			return r
		}
	case *SymPtr, *BigPtr:
		if y, ok := b.(*Value); ok && y == nil {
			return w.tb.False
		}
		panic(unsupported("comparison of symbolic pointers"))
	case *RType:
		if y, ok := b.(*RType); ok {
			return w.tb.Bool(types.Identical(x.t, y.t))
		}
	case Poison, *RVal:
		panic(unsupported(fmt.Sprintf("comparison of %T", a)))
	}
	if _, ok := b.(Poison); ok {
		panic(unsupported("comparison of poison"))
	}
	an, bn := isNilVal(a), isNilVal(b)
	if an || bn {
		return w.tb.Bool(an && bn)
	}
	switch x := a.(type) {
	case *Value:
		if y, ok := b.(*Value); ok {
			return w.tb.Bool(x == y)
		}
		if _, ok := b.(*SymPtr); ok {
			panic(unsupported("comparison of symbolic pointers"))
		}
		return w.tb.False
	case *MapObj:
		y, _ := b.(*MapObj)
		return w.tb.Bool(x == y)
	case *ChanObj:
		y, _ := b.(*ChanObj)
		return w.tb.Bool(x == y)
	case *ssa.Function:
		y, _ := b.(*ssa.Function)
		return w.tb.Bool(x == y)
	}
	panic(unsupported(fmt.Sprintf("comparison of %T and %T", a, b)))
}
