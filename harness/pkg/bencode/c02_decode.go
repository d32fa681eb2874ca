package bencode

//verif:use help.go

import (
	"github.com/anivanovic/gotit/internal/verif/vs"
)

// Any bytes: accepted exactly if they form a document, and then with its value.
func VerifC02_Bytes() {
	in := vs.Bytes("input", 1+vs.Choose("length", vs.Bound("input bytes", 7, 8)))
	b, err := Parse(in)
	r := &hReader{b: in}
	v, ok := r.value()
	if r.odd || ok && r.pos < len(in) {
		vs.Reach("odd")
		return
	}
	if !ok {
		vs.Assert(err != nil, "malformed-accepted")
		vs.Reach("malformed")
		return
	}
	vs.Assert(err == nil, "well-formed-refused")
	vs.Assert(hSame(b, v), "wrong-value")
	vs.Reach("value")
}

// Integers of any size: every 64-bit integer is read, a larger one refused.
func VerifC02_Integers() {
	n := 1 + vs.Choose("digits", vs.Bound("digits", 20, 22))
	digits := hDigits(n)
	neg := vs.Choose("negative", 2) == 1
	in := []byte("i")
	max := "9223372036854775807"
	if neg {
		in = []byte("i-")
		max = "9223372036854775808"
		if n == 1 {
			vs.Assume(digits[0] != '0')
		}
	}
	in = append(append(in, digits...), 'e')
	wrap := vs.Choose("inside", 3)
	switch wrap {
	case 1:
		in = append(append([]byte("l1:a"), in...), "1:be"...)
	case 2:
		in = append(append([]byte("d1:a"), in...), "1:b1:ce"...)
	}
	fits := n < 19 || n == 19 && !vs.LessStr(max, string(digits))
	b, err := Parse(in)
	vs.Assert(fits == (err == nil), "range-of-integers")
	if !fits {
		vs.Reach("too large")
		return
	}
	switch wrap {
	case 1:
		l, ok := b.(*ListElement)
		vs.Assert(ok && len(l.Value) == 3, "wrong-list")
		vs.Assert(l.Value[0].(StringElement) == "a" && l.Value[2].(StringElement) == "b", "wrong-list")
		b = l.Value[1]
	case 2:
		d, ok := b.(*DictElement)
		vs.Assert(ok && len(d.value) == 2, "wrong-dictionary")
		vs.Assert(d.Value("b").(StringElement) == "c", "wrong-dictionary")
		b = d.Value("a")
	}
	x, ok := b.(IntElement)
	vs.Assert(ok, "wrong-kind")
	var want int64
	for _, d := range digits {
		want = want*10 - int64(d-'0')
	}
	if !neg {
		want = -want
	}
	vs.Assert(int64(x) == want, "wrong-value")
	vs.Reach("value")
}

// Strings whose length has any number of digits: refused unless the input is
// that long.
func VerifC02_Lengths() {
	n := 1 + vs.Choose("digits", vs.Bound("digits", 20, 22))
	digits := hDigits(n)
	body := vs.Choose("body", 13)
	in := append([]byte{}, digits...)
	in = append(in, ':')
	data := []byte("abcdefghijklm")[:body]
	in = append(in, data...)
	var want int64
	if n <= 18 {
		for _, d := range digits {
			want = want*10 + int64(d-'0')
		}
	}
	short := n > 2 || want > int64(body)
	b, err := Parse(in)
	vs.Assert(vs.Implies(short, err != nil), "string-past-the-end")
	if !short && int64(body) == want {
		vs.Assert(err == nil, "well-formed-refused")
		vs.Assert(string(b.(StringElement)) == string(data), "wrong-value")
		vs.Reach("value")
		return
	}
	vs.Reach("other")
}

func c02tree(depth, width int) *hVal {
	kinds := 4
	if depth == 0 {
		kinds = 2
	}
	switch vs.Choose("kind", kinds) {
	case 0:
		ints := []int64{0, -17, 7, 1 << 40, -1, 10, -305, 99}
		return &hVal{kind: 'i', num: ints[vs.Choose("int", vs.Bound("integers", 2, 4))]}
	case 1:
		n := vs.Choose("strlen", vs.Bound("string lengths", 2, 3))
		return &hVal{kind: 's', str: vs.Bytes("str", n)}
	case 2:
		v := &hVal{kind: 'l'}
		for k := vs.Choose("elements", width+1); k > 0; k-- {
			v.list = append(v.list, c02tree(depth-1, width))
		}
		return v
	}
	v := &hVal{kind: 'd'}
	for k := vs.Choose("entries", width+1); k > 0; k-- {
		key := vs.Bytes("key", vs.Choose("keylen", 2)+len(v.keys))
		if n := len(v.keys); n > 0 {
			vs.Assume(vs.LessStr(string(v.keys[n-1]), string(key)))
		}
		v.keys = append(v.keys, key)
		v.list = append(v.list, c02tree(depth-1, width))
	}
	return v
}

// Every value tree, written down and read back.
func VerifC02_Trees() {
	v := c02tree(2, 2)
	in := hEnc(v)
	b, err := Parse(in)
	vs.Assert(err == nil, "well-formed-refused")
	vs.Assert(hSame(b, v), "wrong-value")
	vs.Reach("value")
}

// No proper beginning of a document is a document.
func VerifC02_Cut() {
	v := c02tree(1, vs.Bound("width", 2, 3))
	in := hEnc(&hVal{kind: 'd', keys: [][]byte{[]byte("a")}, list: []*hVal{v}})
	_, err := Parse(in[:vs.Choose("at", len(in))])
	vs.Assert(err != nil, "malformed-accepted")
	vs.Reach("cut")
}

// A long string, and a document after which more follows.
func VerifC02_Long() {
	n := vs.Bound("string bytes", 120, 1100)
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 31)
	}
	k := vs.IntRange("patched", 0, n-1)
	k = vs.Concrete(k)
	data[k] = vs.U8("byte")
	v := &hVal{kind: 'd', keys: [][]byte{[]byte("k")}, list: []*hVal{{kind: 's', str: data}}}
	b, err := Parse(hEnc(v))
	vs.Assert(err == nil, "well-formed-refused")
	vs.Assert(hSame(b, v), "wrong-value")
	vs.Reach("value")
}

// One document after another, malformed ones too: each has its own value, and
// keeps it.
func VerifC02_Again() {
	var vals []*hVal
	var got []Bencode
	for k := 0; k < 2; k++ {
		v := c02tree(1, vs.Bound("width", 1, 2))
		in := hEnc(v)
		b, err := Parse(in)
		vs.Assert(err == nil, "well-formed-refused")
		vals, got = append(vals, v), append(got, b)
		if vs.Choose("malformed between", 2) == 1 {
			_, err := Parse(in[:len(in)-1])
			vs.Assert(err != nil, "malformed-accepted")
		}
	}
	for k, v := range vals {
		vs.Assert(hSame(got[k], v), "wrong-value")
	}
	vs.Reach("values")
}
