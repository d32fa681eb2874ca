package bencode

import (
	"github.com/anivanovic/gotit/internal/verif/vs"
)

// A reader for bencode of its own, for comparison. What the format leaves open
// here (numbers with leading zeros, minus zero, repeated keys, unsorted keys,
// data after the value) is reported as odd.

type hVal struct {
	kind byte // i, s, l, d
	num  int64
	str  []byte
	keys [][]byte
	list []*hVal // elements, or values of the keys
	raw  []byte
}

type hReader struct {
	b    []byte
	pos  int
	odd  bool
	deep int
}

func (r *hReader) has() bool { return r.pos < len(r.b) }

func hDigit(c byte) bool { return vs.And(c >= '0', c <= '9') }

// number reads digits, at most 18 of them, as a number.
func (r *hReader) number(neg bool) (n int64, ok bool) {
	start := r.pos
	for r.has() && hDigit(r.b[r.pos]) {
		if n > 99999999999999999 {
			panic("harness: number too long")
		}
		n = n*10 + int64(r.b[r.pos]-'0')
		r.pos++
	}
	if r.pos == start {
		return 0, false
	}
	if r.pos > start+1 && r.b[start] == '0' || neg && r.b[start] == '0' {
		r.odd = true
	}
	if neg {
		n = -n
	}
	return n, true
}

func (r *hReader) str() ([]byte, bool) {
	n, ok := r.number(false)
	if !ok || !r.has() || r.b[r.pos] != ':' {
		return nil, false
	}
	r.pos++
	if n > int64(len(r.b)-r.pos) {
		return nil, false
	}
	k := vs.Concrete(int(n))
	s := r.b[r.pos : r.pos+k]
	r.pos += k
	return s, true
}

func (r *hReader) value() (*hVal, bool) {
	if !r.has() {
		return nil, false
	}
	start := r.pos
	switch c := r.b[r.pos]; {
	case c == 'i':
		r.pos++
		neg := false
		if r.has() && r.b[r.pos] == '-' {
			neg = true
			r.pos++
		}
		n, ok := r.number(neg)
		if !ok || !r.has() || r.b[r.pos] != 'e' {
			return nil, false
		}
		r.pos++
		return &hVal{kind: 'i', num: n, raw: r.b[start:r.pos]}, true
	case c == 'l':
		r.pos++
		v := &hVal{kind: 'l'}
		for {
			if !r.has() {
				return nil, false
			}
			if r.b[r.pos] == 'e' {
				r.pos++
				v.raw = r.b[start:r.pos]
				return v, true
			}
			e, ok := r.value()
			if !ok {
				return nil, false
			}
			v.list = append(v.list, e)
		}
	case c == 'd':
		r.pos++
		v := &hVal{kind: 'd'}
		for {
			if !r.has() {
				return nil, false
			}
			if r.b[r.pos] == 'e' {
				r.pos++
				v.raw = r.b[start:r.pos]
				return v, true
			}
			k, ok := r.str()
			if !ok {
				return nil, false
			}
			e, ok := r.value()
			if !ok {
				return nil, false
			}
			if n := len(v.keys); n > 0 && !vs.LessStr(string(v.keys[n-1]), string(k)) {
				r.odd = true
			}
			v.keys = append(v.keys, k)
			v.list = append(v.list, e)
		}
	case hDigit(c):
		s, ok := r.str()
		if !ok {
			return nil, false
		}
		return &hVal{kind: 's', str: s, raw: r.b[start:r.pos]}, true
	}
	return nil, false
}

// hSame compares a decoded value with its reading.
func hSame(b Bencode, v *hVal) bool {
	switch x := b.(type) {
	case IntElement:
		return v.kind == 'i' && vs.EqStr(x.String(), IntElement(v.num).String()) && int64(x) == v.num
	case StringElement:
		return v.kind == 's' && vs.EqStr(string(x), string(v.str))
	case *ListElement:
		return hSameList(*x, v)
	case ListElement:
		return hSameList(x, v)
	case *DictElement:
		return hSameDict(*x, v)
	case DictElement:
		return hSameDict(x, v)
	}
	return false
}

func hSameList(x ListElement, v *hVal) bool {
	if v.kind != 'l' || len(x.Value) != len(v.list) {
		return false
	}
	same := true
	for i := range v.list {
		same = vs.And(same, hSame(x.Value[i], v.list[i]))
	}
	return same
}

func hSameDict(x DictElement, v *hVal) bool {
	if v.kind != 'd' || len(x.value) != len(v.list) {
		return false
	}
	same := true
	for i := range v.list {
		same = vs.And(same, hSame(x.Value(string(v.keys[i])), v.list[i]))
	}
	return same
}

// hEnc writes a value the one way it can be written; keys must be sorted.
func hEnc(v *hVal) []byte {
	switch v.kind {
	case 'i':
		return []byte("i" + hDec(v.num) + "e")
	case 's':
		return hStr(v.str)
	case 'l':
		b := []byte{'l'}
		for _, e := range v.list {
			b = append(b, hEnc(e)...)
		}
		return append(b, 'e')
	}
	b := []byte{'d'}
	for i, e := range v.list {
		b = append(b, hStr(v.keys[i])...)
		b = append(b, hEnc(e)...)
	}
	return append(b, 'e')
}

func hStr(s []byte) []byte { return append([]byte(hDec(int64(len(s)))+":"), s...) }

// hDec writes a small number in decimal.
func hDec(n int64) string {
	if n < 0 {
		return "-" + hDec(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return hDec(n/10) + string(rune('0'+n%10))
}

// hDigits is a number of n digits: all of them open, or, in the quick tier, the
// last ones of a long number.
func hDigits(n int) []byte {
	open := n
	var pre string
	if n > 10 && !vs.Thorough() {
		pre = []string{"922337203685477580", "922337203685477", "999999999999999", "100000000000000"}[vs.Choose("leading", 4)]
		if len(pre) >= n {
			pre = pre[:n-1]
		}
		open = n - len(pre)
	}
	digits := append([]byte(pre), vs.Bytes("digits", open)...)
	for i, d := range digits {
		lo := byte('0')
		if i == 0 && n > 1 {
			lo = '1'
		}
		vs.Assume(vs.And(d >= lo, d <= '9'))
	}
	return digits
}
