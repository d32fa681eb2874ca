package main

// A model of package reflect over interpreter values.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type RVal struct {
	t    types.Type // nil: invalid
	v    Value      // when addr is nil
	addr *Value     // addressable
	ro   bool       // obtained through an unexported field
}

type RType struct{ t types.Type }

const (
	kInvalid = iota
	kBool
	kInt
	kInt8
	kInt16
	kInt32
	kInt64
	kUint
	kUint8
	kUint16
	kUint32
	kUint64
	kUintptr
	kFloat32
	kFloat64
	kComplex64
	kComplex128
	kArray
	kChan
	kFunc
	kInterface
	kMap
	kPointer
	kSlice
	kString
	kStruct
	kUnsafePointer
)

func rkind(t types.Type) uint64 {
	if t == nil {
		return kInvalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return kBool
		case types.Int:
			return kInt
		case types.Int8:
			return kInt8
		case types.Int16:
			return kInt16
		case types.Int32:
			return kInt32
		case types.Int64:
			return kInt64
		case types.Uint:
			return kUint
		case types.Uint8:
			return kUint8
		case types.Uint16:
			return kUint16
		case types.Uint32:
			return kUint32
		case types.Uint64:
			return kUint64
		case types.Uintptr:
			return kUintptr
		case types.Float32:
			return kFloat32
		case types.Float64:
			return kFloat64
		case types.String:
			return kString
		case types.UnsafePointer:
			return kUnsafePointer
		}
	case *types.Array:
		return kArray
	case *types.Chan:
		return kChan
	case *types.Signature:
		return kFunc
	case *types.Interface:
		return kInterface
	case *types.Map:
		return kMap
	case *types.Pointer:
		return kPointer
	case *types.Slice:
		return kSlice
	case *types.Struct:
		return kStruct
	}
	panic(unsupported("reflect kind of " + t.String()))
}

func (r *RVal) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func (fr *Frame) rtypeIface(t types.Type) Value {
	rt := fr.p.e.ld.typ("reflect", "rtype")
	return Iface{t: types.NewPointer(rt), v: &RType{t}}
}

func (fr *Frame) rnamed(pkg, name string) types.Type { return fr.p.e.ld.typ(pkg, name) }

func (fr *Frame) rpanic(msg string) {
	panic(targetPanic{v: Iface{t: types.Typ[types.String], v: Str{s: msg}}, pos: fr.pos(), stack: fr.stack()})
}

// typeStr renders a type like reflect's String.
func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (fr *Frame) rtypeMethod(name string, args []Value) Value {
	rt := args[0].(*RType)
	tb := fr.w.tb
	t := rt.t
	switch name {
	case "Kind":
		return tb.BV(64, rkind(t))
	case "String":
		return Str{s: typeStr(t)}
	case "Name":
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return Str{s: n.Obj().Name()}
		}
		if b, ok := t.(*types.Basic); ok {
			return Str{s: b.Name()}
		}
		return Str{}
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{s: n.Obj().Pkg().Path()}
		}
		return Str{}
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return fr.rtypeIface(u.Elem())
		case *types.Slice:
			return fr.rtypeIface(u.Elem())
		case *types.Array:
			return fr.rtypeIface(u.Elem())
		case *types.Map:
			return fr.rtypeIface(u.Elem())
		case *types.Chan:
			return fr.rtypeIface(u.Elem())
		}
		fr.rpanic("reflect: Elem of invalid type " + typeStr(t))
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return fr.rtypeIface(u.Key())
		}
		fr.rpanic("reflect: Key of non-map type " + typeStr(t))
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return tb.BV(64, uint64(u.Len()))
		}
		fr.rpanic("reflect: Len of non-array type " + typeStr(t))
	case "Bits":
		k := rkind(t)
		if k < kInt || k > kComplex128 {
			fr.rpanic("reflect: Bits of non-arithmetic Type " + typeStr(t))
		}
		return tb.BV(64, uint64(fr.p.e.ld.sizes.Sizeof(t)*8))
	case "Size":
		return tb.BV(64, uint64(fr.p.e.ld.sizes.Sizeof(t)))
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return tb.BV(64, uint64(u.NumFields()))
		}
		fr.rpanic("reflect: NumField of non-struct type " + typeStr(t))
	case "Field":
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			fr.rpanic("reflect: Field of non-struct type " + typeStr(t))
		}
		i := int(fr.p.concretize(args[1].(*Term), "field index"))
		if i < 0 || i >= u.NumFields() {
			fr.rpanic("reflect: Field index out of bounds")
		}
		return fr.structField(u, i)
	case "NumMethod":
		return tb.BV(64, uint64(fr.p.e.prog.MethodSets.MethodSet(t).Len()))
	case "Comparable":
		return tb.Bool(types.Comparable(t))
	case "Implements":
		o := args[1].(Iface).v.(*RType).t
		it, ok := o.Underlying().(*types.Interface)
		if !ok {
			fr.rpanic("reflect: non-interface type passed to Type.Implements")
		}
		return tb.Bool(types.Implements(t, it))
	case "AssignableTo":
		return tb.Bool(types.AssignableTo(t, args[1].(Iface).v.(*RType).t))
	case "ConvertibleTo":
		return tb.Bool(types.ConvertibleTo(t, args[1].(Iface).v.(*RType).t))
	}
	panic(unsupported("reflect.Type." + name))
}

func (fr *Frame) structField(u *types.Struct, i int) Value {
	tb := fr.w.tb
	f := u.Field(i)
	sf := fr.rnamed("reflect", "StructField").Underlying().(*types.Struct)
	out := make(Struct, sf.NumFields())
	for j := 0; j < sf.NumFields(); j++ {
		switch sf.Field(j).Name() {
		case "Name":
			out[j] = Str{s: f.Name()}
		case "PkgPath":
			if f.Exported() || f.Pkg() == nil {
				out[j] = Str{}
			} else {
				out[j] = Str{s: f.Pkg().Path()}
			}
		case "Type":
			out[j] = fr.rtypeIface(f.Type())
		case "Tag":
			out[j] = Str{s: u.Tag(i)}
		case "Index":
			out[j] = []Value{tb.BV(64, uint64(i))}
		case "Anonymous":
			out[j] = tb.Bool(f.Anonymous())
		default:
			out[j] = fr.w.zero(sf.Field(j).Type())
		}
	}
	return out
}

func (fr *Frame) reflectValueMethod(name string, fn *ssa.Function, args []Value) Value {
	tb := fr.w.tb
	r, ok := args[0].(*RVal)
	if !ok {
		panic(unsupported(fmt.Sprintf("reflect.Value is %T", args[0])))
	}
	k := rkind(r.t)
	bad := func() {
		fr.rpanic(fmt.Sprintf("reflect: call of reflect.Value.%s on %d Value", name, k))
	}
	mustSet := func() {
		if r.ro {
			fr.rpanic("reflect: reflect.Value." + name + " using value obtained using unexported field")
		}
		if r.addr == nil {
			fr.rpanic("reflect: reflect.Value." + name + " using unaddressable value")
		}
	}
	setTerm := func(x Value) Value {
		mustSet()
		fr.access(r.addr, true)
		assignInto(r.addr, x)
		return nil
	}
	if r.addr != nil {
		fr.access(r.addr, false)
	}
	switch name {
	case "Kind":
		return tb.BV(64, k)
	case "IsValid":
		return tb.Bool(r.t != nil)
	case "Type":
		if r.t == nil {
			bad()
		}
		return fr.rtypeIface(r.t)
	case "CanSet":
		return tb.Bool(r.addr != nil && !r.ro)
	case "CanAddr":
		return tb.Bool(r.addr != nil)
	case "CanInterface":
		return tb.Bool(!r.ro)
	case "Elem":
		switch k {
		case kPointer:
			p, ok := r.get().(*Value)
			if !ok {
				panic(unsupported("reflect Elem of symbolic pointer"))
			}
			if p == nil {
				return &RVal{}
			}
			return &RVal{t: r.t.Underlying().(*types.Pointer).Elem(), addr: p, ro: r.ro}
		case kInterface:
			i := r.get().(Iface)
			if i.t == nil {
				return &RVal{}
			}
			return &RVal{t: i.t, v: i.v, ro: r.ro}
		}
		bad()
	case "NumField":
		if k != kStruct {
			bad()
		}
		return tb.BV(64, uint64(r.t.Underlying().(*types.Struct).NumFields()))
	case "Field":
		if k != kStruct {
			bad()
		}
		u := r.t.Underlying().(*types.Struct)
		i := int(fr.p.concretize(args[1].(*Term), "field index"))
		if i < 0 || i >= u.NumFields() {
			fr.rpanic("reflect: Field index out of range")
		}
		ro := r.ro || !u.Field(i).Exported()
		if r.addr != nil {
			return &RVal{t: u.Field(i).Type(), addr: &(*r.addr).(Struct)[i], ro: ro}
		}
		return &RVal{t: u.Field(i).Type(), v: r.v.(Struct)[i], ro: ro}
	case "IsNil":
		switch k {
		case kPointer, kMap, kSlice, kChan, kFunc, kInterface, kUnsafePointer:
			return tb.Bool(isNilVal(r.get()))
		}
		bad()
	case "IsZero":
		z := fr.w.zero(r.t)
		switch k {
		case kSlice, kMap, kFunc, kChan:
			return tb.Bool(isNilVal(r.get()))
		}
		return fr.eqVal(r.get(), z)
	case "Addr":
		if r.addr == nil {
			fr.rpanic("reflect.Value.Addr of unaddressable value")
		}
		return &RVal{t: types.NewPointer(r.t), v: r.addr, ro: r.ro}
	case "Interface":
		if r.t == nil {
			bad()
		}
		if r.ro {
			fr.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		if k == kInterface {
			return r.get()
		}
		return Iface{t: r.t, v: copyVal(r.get())}
	case "Set":
		mustSet()
		o := args[1].(*RVal)
		if o.t == nil {
			fr.rpanic("reflect: call of reflect.Value.Set on zero Value")
		}
		if !types.AssignableTo(o.t, r.t) {
			fr.rpanic("reflect.Set: value of type " + typeStr(o.t) + " is not assignable to type " + typeStr(r.t))
		}
		v := o.get()
		if k == kInterface && rkind(o.t) != kInterface {
			v = Iface{t: o.t, v: copyVal(v)}
		}
		return setTerm(v)
	case "SetZero":
		return setTerm(fr.w.zero(r.t))
	case "SetString":
		if k != kString {
			mustSet()
			bad()
		}
		return setTerm(args[1])
	case "SetBool":
		if k != kBool {
			mustSet()
			bad()
		}
		return setTerm(args[1])
	case "SetInt":
		mustSet()
		if k < kInt || k > kInt64 {
			bad()
		}
		return setTerm(tb.Resize(args[1].(*Term), basicWidth(r.t.Underlying().(*types.Basic)), true))
	case "SetUint":
		mustSet()
		if k < kUint || k > kUintptr {
			bad()
		}
		return setTerm(tb.Resize(args[1].(*Term), basicWidth(r.t.Underlying().(*types.Basic)), false))
	case "SetFloat":
		mustSet()
		if k != kFloat32 && k != kFloat64 {
			bad()
		}
		return setTerm(tb.FConv(args[1].(*Term), basicWidth(r.t.Underlying().(*types.Basic))))
	case "SetBytes":
		mustSet()
		if k != kSlice {
			bad()
		}
		return setTerm(args[1])
	case "OverflowInt":
		if k < kInt || k > kInt64 {
			bad()
		}
		wd := basicWidth(r.t.Underlying().(*types.Basic))
		x := args[1].(*Term)
		return tb.Not(tb.Eq(tb.Resize(tb.Resize(x, wd, true), 64, true), x))
	case "OverflowUint":
		if k < kUint || k > kUintptr {
			bad()
		}
		wd := basicWidth(r.t.Underlying().(*types.Basic))
		x := args[1].(*Term)
		return tb.Not(tb.Eq(tb.Resize(tb.Resize(x, wd, false), 64, false), x))
	case "Int":
		if k < kInt || k > kInt64 {
			bad()
		}
		return tb.Resize(r.get().(*Term), 64, true)
	case "Uint":
		if k < kUint || k > kUintptr {
			bad()
		}
		return tb.Resize(r.get().(*Term), 64, false)
	case "Float":
		return tb.FConv(r.get().(*Term), SF64)
	case "Bool":
		if k != kBool {
			bad()
		}
		return r.get()
	case "String":
		if k == kString {
			return r.get()
		}
		if r.t == nil {
			return Str{s: "<invalid Value>"}
		}
		return Str{s: "<" + typeStr(r.t) + " Value>"}
	case "Bytes":
		if k != kSlice {
			bad()
		}
		return r.get()
	case "Len":
		switch v := r.get().(type) {
		case Str:
			return tb.BV(64, uint64(v.length()))
		case []Value:
			return tb.BV(64, uint64(len(v)))
		case *BigSlice:
			return v.len
		case Array:
			return tb.BV(64, uint64(len(v)))
		case *MapObj:
			if v == nil {
				return tb.BV(64, 0)
			}
			return tb.BV(64, uint64(v.n))
		}
		bad()
	case "Cap":
		if v, ok := r.get().([]Value); ok {
			return tb.BV(64, uint64(cap(v)))
		}
		bad()
	case "Index":
		i := fr.asInt(args[1], types.Typ[types.Int])
		var elems []Value
		var et types.Type
		addr := false
		switch v := r.get().(type) {
		case []Value:
			elems, et, addr = v, r.t.Underlying().(*types.Slice).Elem(), true
		case Array:
			elems, et, addr = v, r.t.Underlying().(*types.Array).Elem(), r.addr != nil
		case Str:
			return &RVal{t: types.Typ[types.Uint8], v: fr.index(v, i), ro: r.ro}
		default:
			bad()
		}
		if !fr.p.fork(tb.Ult(i, tb.BV(64, uint64(len(elems))))) {
			fr.rpanic("reflect: slice index out of range")
		}
		n := fr.p.concretize(i, "reflect index")
		if addr {
			return &RVal{t: et, addr: &elems[n], ro: r.ro}
		}
		return &RVal{t: et, v: elems[n], ro: r.ro}
	case "SetLen":
		mustSet()
		n := int(fr.p.concretize(args[1].(*Term), "SetLen"))
		s := r.get().([]Value)
		if n < 0 || n > cap(s) {
			fr.rpanic("reflect: slice length out of range in SetLen")
		}
		return setTerm(s[:n])
	case "SetMapIndex":
		m, _ := r.get().(*MapObj)
		kv := args[1].(*RVal)
		ev := args[2].(*RVal)
		mt := r.t.Underlying().(*types.Map)
		if !types.AssignableTo(kv.t, mt.Key()) {
			fr.rpanic("reflect.Value.SetMapIndex: value of type " + typeStr(kv.t) + " is not assignable to type " + typeStr(mt.Key()))
		}
		if ev.t == nil {
			fr.mapDelete(m, kv.get())
			return nil
		}
		if !types.AssignableTo(ev.t, mt.Elem()) {
			fr.rpanic("reflect.Value.SetMapIndex: value of type " + typeStr(ev.t) + " is not assignable to type " + typeStr(mt.Elem()))
		}
		if m == nil {
			fr.rtPanic("assignment to entry in nil map")
		}
		box := func(v *RVal, t types.Type) Value {
			if rkind(t) == kInterface && rkind(v.t) != kInterface {
				return Iface{t: v.t, v: copyVal(v.get())}
			}
			return v.get()
		}
		fr.mapSet(m, box(kv, mt.Key()), box(ev, mt.Elem()))
		return nil
	case "MapIndex":
		m, _ := r.get().(*MapObj)
		e := fr.mapFind(m, args[1].(*RVal).get())
		if e == nil {
			return &RVal{}
		}
		return &RVal{t: r.t.Underlying().(*types.Map).Elem(), v: e.v, ro: r.ro}
	case "MapKeys":
		m, _ := r.get().(*MapObj)
		out := []Value{}
		it := &mapIter{m: m, seen: map[*mapEntry]bool{}}
		for {
			t := it.next(fr).(Tuple)
			if t[0].(*Term).isFalse() {
				break
			}
			out = append(out, &RVal{t: r.t.Underlying().(*types.Map).Key(), v: t[1]})
		}
		return out
	case "Pointer", "UnsafePointer":
		return Poison{"reflect pointer"}
	case "Convert":
		t := args[1].(Iface).v.(*RType).t
		if !types.ConvertibleTo(r.t, t) {
			fr.rpanic("reflect.Value.Convert: value of type " + typeStr(r.t) + " cannot be converted to type " + typeStr(t))
		}
		return &RVal{t: t, v: copyVal(fr.convert(t, r.t, r.get()))}
	case "CanConvert":
		return tb.Bool(types.ConvertibleTo(r.t, args[1].(Iface).v.(*RType).t))
	case "CanInt":
		return tb.Bool(k >= kInt && k <= kInt64)
	case "CanUint":
		return tb.Bool(k >= kUint && k <= kUintptr)
	case "NumMethod":
		return tb.BV(64, uint64(fr.p.e.prog.MethodSets.MethodSet(r.t).Len()))
	}
	panic(unsupported("reflect.Value." + name))
}

func (fr *Frame) reflectFunc(name string, fn *ssa.Function, args []Value) Value {
	switch name {
	case "ValueOf":
		i := args[0].(Iface)
		if i.t == nil {
			return &RVal{}
		}
		if rt, ok := i.v.(*RType); ok {
			return &RVal{t: i.t, v: rt}
		}
		return &RVal{t: i.t, v: i.v}
	case "TypeOf":
		i := args[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return fr.rtypeIface(i.t)
	case "New":
		t := args[0].(Iface).v.(*RType).t
		c := new(Value)
		*c = fr.w.zero(t)
		return &RVal{t: types.NewPointer(t), v: c}
	case "Zero":
		t := args[0].(Iface).v.(*RType).t
		return &RVal{t: t, v: fr.w.zero(t)}
	case "MakeSlice":
		t := args[0].(Iface).v.(*RType).t
		u, ok := t.Underlying().(*types.Slice)
		if !ok {
			fr.rpanic("reflect.MakeSlice of non-slice type")
		}
		return &RVal{t: t, v: fr.makeSlice(u.Elem(), args[1].(*Term), args[2].(*Term))}
	case "MakeMap", "MakeMapWithSize":
		t := args[0].(Iface).v.(*RType).t
		u, ok := t.Underlying().(*types.Map)
		if !ok {
			fr.rpanic("reflect.MakeMapWithSize of non-map type")
		}
		return &RVal{t: t, v: newMap(u.Key(), u.Elem())}
	case "Append":
		s := args[0].(*RVal)
		var vs []Value
		for _, x := range args[1].([]Value) {
			xv := x.(*RVal)
			et := s.t.Underlying().(*types.Slice).Elem()
			v := xv.get()
			if rkind(et) == kInterface && rkind(xv.t) != kInterface {
				v = Iface{t: xv.t, v: v}
			}
			vs = append(vs, copyVal(v))
		}
		old := s.get().([]Value)
		r := make([]Value, 0, len(old)+len(vs))
		for _, o := range old {
			r = append(r, copyVal(o))
		}
		return &RVal{t: s.t, v: append(r, vs...)}
	case "Indirect":
		r := args[0].(*RVal)
		if rkind(r.t) != kPointer {
			return r
		}
		return fr.reflectValueMethod("Elem", fn, []Value{r})
	case "PointerTo", "PtrTo":
		return fr.rtypeIface(types.NewPointer(args[0].(Iface).v.(*RType).t))
	case "SliceOf":
		return fr.rtypeIface(types.NewSlice(args[0].(Iface).v.(*RType).t))
	case "DeepEqual":
		a, b := args[0].(Iface), args[1].(Iface)
		return fr.deepEqual(a, b, 0)
	}
	panic(unsupported("reflect." + name))
}

// deepEqual compares structurally.
func (fr *Frame) deepEqual(a, b Value, d int) *Term {
	tb := fr.w.tb
	if d > 60 {
		panic(unsupported("deep equality depth"))
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return tb.False
		}
		if x.t == nil {
			return tb.True
		}
		if !types.Identical(x.t, y.t) {
			return tb.False
		}
		return fr.deepEqual(x.v, y.v, d+1)
	case []Value:
		y, ok := b.([]Value)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return tb.False
		}
		r := tb.True
		for i := range x {
			r = tb.And(r, fr.deepEqual(x[i], y[i], d+1))
		}
		return r
	case Struct:
		y := b.(Struct)
		r := tb.True
		for i := range x {
			r = tb.And(r, fr.deepEqual(x[i], y[i], d+1))
		}
		return r
	case Array:
		y := b.(Array)
		r := tb.True
		for i := range x {
			r = tb.And(r, fr.deepEqual(x[i], y[i], d+1))
		}
		return r
	case *Value:
		y, _ := b.(*Value)
		if x == y {
			return tb.True
		}
		if x == nil || y == nil {
			return tb.False
		}
		return fr.deepEqual(*x, *y, d+1)
	case *MapObj:
		y, _ := b.(*MapObj)
		if x == y {
			return tb.True
		}
		if x == nil || y == nil || x.n != y.n {
			return tb.False
		}
		r := tb.True
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			o := fr.mapFind(y, e.k)
			if o == nil {
				return tb.False
			}
			r = tb.And(r, fr.deepEqual(e.v, o.v, d+1))
		}
		return r
	}
	return fr.eqVal(a, b)
}
