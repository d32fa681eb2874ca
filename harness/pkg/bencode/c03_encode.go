package bencode

//verif:use help.go

import (
	"github.com/anivanovic/gotit/internal/verif/vs"
)

// c03tree chooses a value, as the elements of the library and as a plain one;
// nil entries appear in the former only.
func c03tree(depth, width int) (Bencode, *hVal) {
	kinds := 4
	if depth == 0 {
		kinds = 2
	}
	switch vs.Choose("kind", kinds) {
	case 0:
		ints := []int64{0, -17, 7, 1 << 40, -1, 10}
		n := ints[vs.Choose("int", vs.Bound("integers", 2, 4))]
		return Integer(int(n)), &hVal{kind: 'i', num: n}
	case 1:
		s := vs.Bytes("str", vs.Choose("strlen", vs.Bound("string lengths", 2, 3)))
		return String(string(s)), &hVal{kind: 's', str: s}
	case 2:
		v := &hVal{kind: 'l'}
		var els []Bencode
		for k := vs.Choose("elements", width+1); k > 0; k-- {
			if vs.Choose("nil", 2) == 1 {
				els = append(els, nil)
				continue
			}
			b, e := c03tree(depth-1, width)
			els = append(els, b)
			v.list = append(v.list, e)
		}
		return List(els...), v
	}
	v := &hVal{kind: 'd'}
	bld := NewDictBuilder()
	for k := vs.Choose("entries", width+1); k > 0; k-- {
		key := vs.Bytes("key", 1+vs.Choose("keylen", 2))
		for _, o := range v.keys {
			vs.Assume(!vs.EqStr(string(o), string(key)))
		}
		if vs.Choose("nil", 2) == 1 {
			bld = bld.Add(string(key), nil)
			continue
		}
		b, e := c03tree(depth-1, width)
		bld = bld.Add(string(key), b)
		// insert in order
		at := len(v.keys)
		for at > 0 && vs.LessStr(string(key), string(v.keys[at-1])) {
			at--
		}
		v.keys = append(v.keys, nil)
		v.list = append(v.list, nil)
		copy(v.keys[at+1:], v.keys[at:])
		copy(v.list[at+1:], v.list[at:])
		v.keys[at], v.list[at] = key, e
	}
	return bld.Generate(), v
}

func c03check(b Bencode, v *hVal) {
	enc := b.Encode()
	vs.Assert(vs.EqStr(enc, string(hEnc(v))), "not-canonical")
	back, err := Parse([]byte(enc))
	vs.Assert(err == nil, "own-encoding-refused")
	vs.Assert(hSame(back, v), "round-trip")
	vs.Assert(vs.EqStr(back.Encode(), enc), "second-encoding-differs")
	_ = b.String()
	vs.Reach("encoded")
}

// Every value tree, every order of map iteration.
func VerifC03_Trees() {
	vs.MapOrder(true)
	c03check(c03tree(vs.Bound("nesting", 1, 2), 2))
}

// Dictionaries of more entries, with nested values.
func VerifC03_Keys() {
	vs.MapOrder(true)
	bld := NewDictBuilder()
	v := &hVal{kind: 'd'}
	n := vs.Bound("entries", 3, 4)
	for i := 0; i < n; i++ {
		key := vs.Bytes("key", 1+vs.Choose("keylen", 2))
		if i > 0 {
			vs.Assume(vs.LessStr(string(v.keys[i-1]), string(key)))
		}
		v.keys = append(v.keys, key)
		v.list = append(v.list, &hVal{kind: 'i', num: int64(i)})
	}
	// added in any order
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	for len(left) > 0 {
		k := vs.Choose("next", len(left))
		i := left[k]
		left = append(left[:k:k], left[k+1:]...)
		bld.Add(string(v.keys[i]), Integer(i))
	}
	c03check(bld.Generate(), v)
}

// Nested dictionaries, every order of iteration.
func VerifC03_Nested() {
	vs.MapOrder(true)
	in := func() (Bencode, *hVal) {
		k := vs.Bytes("key", 2)
		vs.Assume(vs.LessStr(string(k[:1]), string(k[1:])))
		v := &hVal{kind: 'd', keys: [][]byte{k[:1], k[1:]}, list: []*hVal{{kind: 's', str: k}, {kind: 'l'}}}
		return NewDictBuilder().Add(string(k[1:]), List()).Add(string(k[:1]), String(string(k))).Generate(), v
	}
	a, va := in()
	b, vb := in()
	d := NewDictBuilder().Add("z", a).Add("", List(b, nil, a)).Generate()
	c03check(d, &hVal{kind: 'd', keys: [][]byte{{}, []byte("z")}, list: []*hVal{{kind: 'l', list: []*hVal{vb, va}}, va}})
}

// Every integer.
func VerifC03_Integers() {
	n := vs.I64("n")
	enc := Integer(int(n)).Encode()
	back, err := Parse([]byte(enc))
	vs.Assert(err == nil, "own-encoding-refused")
	x, ok := back.(IntElement)
	vs.Assert(ok && int64(x) == n, "round-trip")
	vs.Assert(len(enc) == 3 || enc[1] != '0' && (enc[1] != '-' || enc[2] != '0'), "not-canonical")
	vs.Reach("encoded")
}

// Strings around the lengths whose number of digits changes.
func VerifC03_Strings() {
	n := []int{0, 1, 9, 10, 11, 99, 100, 101, 1000, 9999, 10000}[vs.Choose("length", 11)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 7)
	}
	if n > 0 {
		data[0], data[n-1] = vs.U8("first"), vs.U8("last")
	}
	c03check(String(string(data)), &hVal{kind: 's', str: data})
}

// A document in canonical form encodes to itself.
func VerifC03_Documents() {
	in := vs.Bytes("input", 1+vs.Choose("length", vs.Bound("input bytes", 7, 8)))
	r := &hReader{b: in}
	v, ok := r.value()
	if !ok || r.odd || r.pos < len(in) {
		vs.Reach("other")
		return
	}
	b, err := Parse(in)
	vs.Assert(err == nil, "well-formed-refused")
	vs.Assert(vs.EqStr(b.Encode(), string(in)), "canonical-document-changed")
	_ = v
	vs.Reach("document")
}
