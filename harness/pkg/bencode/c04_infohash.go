package bencode

//verif:use help.go

import (
	"crypto/sha1"

	"github.com/anivanovic/gotit/internal/verif/vs"
)

// c04info is an info dictionary with entries of its own in any order, spelled
// in any way the decoder accepts.
func c04info() []byte {
	name := vs.Bytes("name", vs.Choose("namelen", vs.Bound("name bytes", 2, 3)))
	extra := []string{"", "7:privatei1e", "4:infod4:info4:infoe", "4:infoi5e", "1:xl4:infodeli3eee", "6:pieces4:four", "0:0:",
		"6:source4:e4:ee", "1:zd4:namei1e6:lengthleee"}
	entries := []string{
		"4:name" + string(hStr(name)),
		"12:piece lengthi4e",
		"6:pieces" + []string{"20:aaaaaaaaaaaaaaaaaaaa", "0:", "3:e4e"}[vs.Choose("pieces", 2)],
		"6:length" + []string{"i3e", "i03e", "i-0e"}[vs.Choose("length", 2)],
		extra[vs.Choose("extra", vs.Bound("further entries", 5, len(extra)))],
	}
	rot := vs.Choose("rotation", len(entries))
	b := []byte{'d'}
	for i := range entries {
		b = append(b, entries[(i+rot)%len(entries)]...)
	}
	return append(b, 'e')
}

func c04around(n int) []byte {
	opts := []string{"", "4:infx3:foo", "1:ad4:infode1:blee", "13:announce-listll1:aee", "7:comment4:info", "3:inf0:"}
	s := opts[vs.Choose("around", n)]
	return []byte(s)
}

// The hash is that of the bytes of the info dictionary, whatever is around it.
func VerifC04_Bytes() {
	info := c04info()
	doc := []byte{'d'}
	n := vs.Bound("surroundings", 3, 6)
	parts := [][]byte{[]byte("8:announce" + string(hStr(vs.Bytes("announce", 1)))), append([]byte("4:info"), info...), c04around(n), c04around(n)}
	rot := vs.Choose("position", 4)
	for i := range parts {
		doc = append(doc, parts[(i+rot)%4]...)
	}
	doc = append(doc, 'e')
	doc = append(doc, vs.Bytes("after", vs.Choose("afterlen", 2))...)
	want := sha1.Sum(info)
	m := &Metainfo{}
	if err := Unmarshal(doc, m); err != nil {
		vs.Reach("refused")
		return
	}
	vs.Assert(vs.EqBytes(m.InfoDictRaw, info), "info-bytes")
	vs.Assert(vs.EqBytes(m.Hash(), want[:]), "info-hash")
	vs.Reach("hashed")
}

// An info dictionary with a value of any content.
func VerifC04_Content() {
	val := vs.Bytes("value", 1+vs.Choose("length", vs.Bound("value bytes", 5, 6)))
	info := append([]byte("d4:name1:n1:q"), val...)
	info = append(info, "12:piece lengthi4e6:pieces0:e"...)
	doc := append([]byte("d8:announce0:4:info"), info...)
	doc = append(doc, "1:z1:ze"...)
	r := &hReader{b: val}
	if _, ok := r.value(); !ok || r.pos < len(val) {
		vs.Reach("no value")
		return
	}
	m := &Metainfo{}
	err := Unmarshal(doc, m)
	if err != nil {
		vs.Assert(r.odd, "well-formed-refused")
		vs.Reach("refused")
		return
	}
	want := sha1.Sum(info)
	vs.Assert(vs.EqBytes(m.InfoDictRaw, info), "info-bytes")
	vs.Assert(vs.EqBytes(m.Hash(), want[:]), "info-hash")
	vs.Reach("hashed")
}

// Two files that differ outside the info dictionary only have the same hash;
// with another info dictionary it is another.
func VerifC04_Dependence() {
	name := vs.Bytes("name", 2)
	mk := func(announce, name []byte) *Metainfo {
		d := "d8:announce" + string(hStr(announce)) + "4:infod6:lengthi1e4:name" + string(hStr(name)) + "12:piece lengthi4e6:pieces0:e1:x" + string(hStr(announce)) + "e"
		m := &Metainfo{}
		vs.Assert(Unmarshal([]byte(d), m) == nil, "well-formed-refused")
		return m
	}
	a := mk(vs.Bytes("announce", 2), name)
	b := mk(vs.Bytes("announce", 3), name)
	other := vs.Bytes("name", 2)
	c := mk([]byte("x"), other)
	vs.Assert(vs.EqBytes(a.Hash(), b.Hash()), "depends-on-the-rest")
	vs.Assert(vs.EqBytes(a.Hash(), c.Hash()) == vs.EqBytes(name, other), "does-not-depend-on-info")
	vs.Reach("end")
}

// An info dictionary of any length.
func VerifC04_Long() {
	n := vs.IntRange("length", 0, 1<<26)
	raw := vs.BigBytes("info", n)
	m := Metainfo{InfoDictRaw: raw}
	want := sha1.Sum(raw)
	vs.Assert(vs.EqBytes(m.Hash(), want[:]), "info-hash")
	vs.Reach("hashed")
}

// One torrent after another, some refused: each has the hash of its own info
// dictionary, also when asked for it again and later.
func VerifC04_Again() {
	var ms []*Metainfo
	var wants [][20]byte
	for k := 0; k < 3; k++ {
		name := vs.Bytes("name", 1+vs.Choose("namelen", 2))
		info := append([]byte("d4:name"), hStr(name)...)
		info = append(info, "12:piece lengthi4e6:pieces20:aaaaaaaaaaaaaaaaaaaa6:lengthi3ee"...)
		doc := append([]byte("d8:announce1:x4:info"), info...)
		switch vs.Choose("torrent", 3) {
		case 1: // no end
			vs.Assert(Unmarshal(doc, &Metainfo{}) != nil, "malformed-accepted")
			continue
		case 2: // no info
			vs.Assert(Unmarshal([]byte("d8:announce1:xe"), &Metainfo{}) != nil, "no-info-accepted")
			continue
		}
		m := &Metainfo{}
		vs.Assert(Unmarshal(append(doc, 'e'), m) == nil, "torrent-refused")
		want := sha1.Sum(info)
		vs.Assert(vs.EqBytes(m.Hash(), want[:]), "info-hash")
		ms, wants = append(ms, m), append(wants, want)
	}
	for k, m := range ms {
		vs.Assert(vs.EqBytes(m.Hash(), wants[k][:]), "info-hash")
	}
	vs.Reach("hashed")
}
