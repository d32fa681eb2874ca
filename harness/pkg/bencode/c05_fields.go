package bencode

//verif:use help.go

import (
	"math"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/internal/verif/vs"
)

type c05nums struct {
	I   int    `ben:"i,optional"`
	I8  int8   `ben:"i8,optional"`
	I16 int16  `ben:"i16,optional"`
	I32 int32  `ben:"i32,optional"`
	I64 int64  `ben:"i64,optional"`
	U   uint   `ben:"u,optional"`
	U8  uint8  `ben:"u8,optional"`
	U16 uint16 `ben:"u16,optional"`
	U32 uint32 `ben:"u32,optional"`
	U64 uint64 `ben:"u64,optional"`
}

// Every integer width and every value: set if it fits, else an error.
func VerifC05_Widths() {
	keys := []string{"i", "i8", "i16", "i32", "i64", "u", "u8", "u16", "u32", "u64"}
	lows := []int64{math.MinInt64, math.MinInt8, math.MinInt16, math.MinInt32, math.MinInt64, 0, 0, 0, 0, 0}
	highs := []int64{math.MaxInt64, math.MaxInt8, math.MaxInt16, math.MaxInt32, math.MaxInt64, math.MaxInt64, math.MaxUint8, math.MaxUint16, math.MaxUint32, math.MaxInt64}
	k := vs.Choose("field", len(keys))
	digits := hDigits(1 + vs.Choose("digits", vs.Bound("digits", 11, 19)))
	neg := vs.Choose("negative", 2) == 1
	in := []byte("d" + string(hStr([]byte(keys[k]))) + "i")
	if neg {
		in = append(in, '-')
		vs.Assume(digits[0] != '0')
	}
	in = append(append(in, digits...), "ee"...)
	var want int64 // negative, to reach the least integer
	for _, d := range digits {
		want = want*10 - int64(d-'0')
	}
	if len(digits) == 19 && vs.LessStr("9223372036854775807", string(digits)) {
		vs.Reach("too large for the decoder")
		return
	}
	if !neg {
		want = -want
	}
	t := &c05nums{}
	err := Unmarshal(in, t)
	fits := want >= lows[k] && want <= highs[k]
	vs.Assert(fits == (err == nil), "range-of-field")
	if !fits {
		vs.Assert(*t == c05nums{}, "field-set-in-spite-of-error")
		vs.Reach("out of range")
		return
	}
	// in range, so equal in the field's width is equal
	right := []bool{t.I == int(want), t.I8 == int8(want), t.I16 == int16(want), t.I32 == int32(want), t.I64 == want,
		t.U == uint(want), t.U8 == uint8(want), t.U16 == uint16(want), t.U32 == uint32(want), t.U64 == uint64(want)}
	got := []int64{int64(t.I), int64(t.I8), int64(t.I16), int64(t.I32), t.I64, int64(t.U), int64(t.U8), int64(t.U16), int64(t.U32), int64(t.U64)}
	for i := range got {
		if i == k {
			vs.Assert(right[i], "wrong-value")
		} else {
			vs.Assert(got[i] == 0, "other-field-set")
		}
	}
	vs.Reach("set")
}

type c05sub struct {
	A string `ben:"a"`
	B int    `ben:"b,optional"`
}

type c05all struct {
	Str    string            `ben:"str"`
	Num    int               `ben:"num"`
	Raw    []byte            `ben:"raw,optional"`
	List   []string          `ben:"list,optional"`
	Nums   []int16           `ben:"nums,optional"`
	Nested [][]string        `ben:"nested,optional"`
	Sub    c05sub            `ben:"sub,optional"`
	Ptr    *c05sub           `ben:"ptr,optional"`
	PtrS   *string           `ben:"ptrs,optional"`
	Subs   []c05sub          `ben:"subs,optional"`
	Map    map[string]int    `ben:"map,optional"`
	MapS   map[string]string `ben:"maps,optional"`
	Plain  string
	hidden string `ben:"hidden,optional"`
}

// Every subset of the keys present, in any position: each field has the value
// under its key, absent ones keep theirs, an absent required key is an error.
func VerifC05_Fields() {
	vs.MapOrder(true)
	s := func(n string) []byte { return vs.Bytes(n, 1) }
	a, b, c, d, e, f := s("a"), s("b"), s("c"), s("d"), s("e"), s("f")
	q := func(x []byte) string { return string(hStr(x)) }
	docs := []string{
		"3:str" + q(a),
		"3:numi-42e",
		"3:raw" + q(append(append([]byte{}, b...), c...)),
		"4:listl" + q(c) + q(d) + "e",
		"4:numsli300ei-1ee",
		"6:nestedll" + q(d) + "elel" + q(e) + q(a) + "ee",
		"3:subd1:a" + q(b) + "1:bi5ee",
		"3:ptrd1:a" + q(c) + "e",
		"4:ptrs" + q(f),
		"4:subsld1:a" + q(e) + "ed1:a" + q(f) + "1:bi7eee",
		"3:mapd1:xi1e1:yi2ee",
		"4:mapsd1:x" + q(f) + "e",
		"5:Plain1:p6:hidden1:h5:other1:o",
	}
	present := make([]bool, len(docs))
	doc := "d"
	lo := 0
	if !vs.Thorough() {
		// the quick tier leaves three of them out at most
		lo = len(docs) - 3
	}
	n := 0
	for i := range docs {
		left := len(docs) - i
		if n+left <= lo {
			present[i] = true
		} else {
			present[i] = vs.Choose("present", 2) == 1
		}
		if present[i] {
			n++
			doc += docs[i]
		}
	}
	// the keys in another order
	if vs.Choose("order", 2) == 1 {
		doc = "d"
		for i := len(docs) - 1; i >= 0; i-- {
			if present[i] {
				doc += docs[i]
			}
		}
	}
	old := "old"
	oldSub := &c05sub{A: "old", B: 9}
	t := &c05all{Str: "old", Num: 1, Raw: []byte("old"), List: []string{"old"}, Nums: []int16{9}, Nested: [][]string{{"old"}}, Sub: c05sub{"old", 9},
		Ptr: oldSub, PtrS: &old, Subs: []c05sub{{"old", 9}}, Map: map[string]int{"old": 9}, MapS: map[string]string{"old": "x"}, Plain: "plain", hidden: "hidden"}
	err := Unmarshal([]byte(doc+"e"), t)
	vs.Assert((err == nil) == (present[0] && present[1]), "required-fields")
	if err != nil {
		vs.Reach("missing")
		return
	}
	eq := func(got string, want []byte, p bool) bool {
		if !p {
			return got == "old"
		}
		return vs.EqStr(got, string(want))
	}
	vs.Assert(eq(t.Str, a, true), "string-field")
	vs.Assert(t.Num == -42, "number-field")
	vs.Assert(eq(string(t.Raw), append(append([]byte{}, b...), c...), present[2]), "raw-field")
	if present[3] {
		vs.Assert(len(t.List) == 2 && eq(t.List[0], c, true) && eq(t.List[1], d, true), "list-field")
	} else {
		vs.Assert(len(t.List) == 1 && t.List[0] == "old", "list-field")
	}
	if present[4] {
		vs.Assert(len(t.Nums) == 2 && t.Nums[0] == 300 && t.Nums[1] == -1, "list-of-numbers")
	} else {
		vs.Assert(len(t.Nums) == 1 && t.Nums[0] == 9, "list-of-numbers")
	}
	if present[5] {
		vs.Assert(len(t.Nested) == 3 && len(t.Nested[0]) == 1 && len(t.Nested[1]) == 0 && len(t.Nested[2]) == 2, "nested-list")
		vs.Assert(eq(t.Nested[0][0], d, true) && eq(t.Nested[2][0], e, true) && eq(t.Nested[2][1], a, true), "nested-list")
	} else {
		vs.Assert(len(t.Nested) == 1 && t.Nested[0][0] == "old", "nested-list")
	}
	vs.Assert(eq(t.Sub.A, b, present[6]) && t.Sub.B == vs.IteInt(present[6], 5, 9), "structure")
	vs.Assert(t.Ptr != nil && eq(t.Ptr.A, c, present[7]) && t.Ptr.B == 9, "pointer-to-structure")
	vs.Assert(t.PtrS != nil && eq(*t.PtrS, f, present[8]), "pointer-to-string")
	if present[9] {
		vs.Assert(len(t.Subs) == 2 && eq(t.Subs[0].A, e, true) && t.Subs[0].B == 0 && eq(t.Subs[1].A, f, true) && t.Subs[1].B == 7, "list-of-structures")
	} else {
		vs.Assert(len(t.Subs) == 1 && t.Subs[0] == c05sub{"old", 9}, "list-of-structures")
	}
	if present[10] {
		vs.Assert(len(t.Map) == 2 && t.Map["x"] == 1 && t.Map["y"] == 2, "map")
	} else {
		vs.Assert(len(t.Map) == 1 && t.Map["old"] == 9, "map")
	}
	if present[11] {
		vs.Assert(len(t.MapS) == 1 && eq(t.MapS["x"], f, true), "map-of-strings")
	} else {
		vs.Assert(len(t.MapS) == 1 && t.MapS["old"] == "x", "map-of-strings")
	}
	vs.Assert(t.Plain == "plain" && t.hidden == "hidden", "untagged-field-set")
	vs.Reach("decoded")
}

// A value of another kind than the field's is an error.
func VerifC05_Kinds() {
	fields := []string{"str", "num", "list", "nums", "nested", "sub", "ptr", "subs", "map", "maps"}
	field := fields[vs.Choose("field", len(fields))]
	vals := []string{"i7e", "1:x", "l1:xe", "d1:x1:ye", "le", "de", "li70000ee", "ll1:xee", "d1:a1:xe", "d1:xi1ee", "l1:xlee", "ldee", "ld1:a1:xee", "d1:xdee", "lli1eee"}
	k := vs.Choose("value", len(vals))
	val := vals[k]
	// what fits: the given kind, or its strings and integers read leniently
	fit := map[string][]int{
		"str": {0, 1}, "num": {0}, "list": {2, 4, 6}, "nums": {4}, "nested": {4, 7, 14}, "sub": {8}, "ptr": {8},
		"subs": {4, 12}, "map": {5, 9}, "maps": {3, 5, 8, 9},
	}[field]
	fits := false
	for _, i := range fit {
		fits = fits || i == k
	}
	doc := "d3:str1:s3:numi1e"
	if field == "str" {
		doc = "d3:numi1e"
	}
	if field == "num" {
		doc = "d3:str1:s"
	}
	doc += string(hStr([]byte(field))) + val + "e"
	err := Unmarshal([]byte(doc), &c05all{})
	vs.Assert(fits == (err == nil), "kind-of-value")
	vs.Reach("decoded")
}

// Required keys of nested structures, and targets that are no structures.
func VerifC05_Missing() {
	docs := []string{"d3:numi1ee", "d3:str1:se", "de", "le", "i1e", "1:s", "d3:str1:s3:numi1e3:subd1:bi1eee", "d3:str1:s3:numi1e3:ptrdee",
		"d3:str1:s3:numi1e4:subsld1:bi1eeee", "d3:str1:s3:numi1e4:subsld1:a1:xedeee", "d3:str1:s3:numi1e"}
	err := Unmarshal([]byte(docs[vs.Choose("document", len(docs))]), &c05all{})
	vs.Assert(err != nil, "missing-key-accepted")
	doc := []byte("d3:str1:s3:numi1ee")
	var s string
	vs.Assert(Unmarshal(doc, c05all{}) != nil, "target")
	vs.Assert(Unmarshal(doc, &s) != nil, "target")
	vs.Assert(Unmarshal(doc, &c05all{}) == nil, "target")
	vs.Reach("end")
}

// The metainfo of a torrent.
func VerifC05_Metainfo() {
	name, ann, path := vs.Bytes("name", 2), vs.Bytes("announce", 1), vs.Bytes("path", 1)
	pl := vs.IntRange("piecelength", 10, 99)
	q := func(x []byte) string { return string(hStr(x)) }
	plS := string([]byte{byte('0' + pl/10), byte('0' + pl%10)})
	multi := vs.Choose("files", 2) == 1
	info := "d"
	if multi {
		info += "5:filesld6:lengthi5e4:pathl" + q(path) + "1:yeed6:lengthi0e4:pathl1:zeee"
	} else {
		info += "6:lengthi5e"
	}
	info += "4:name" + q(name) + "12:piece lengthi" + plS + "e6:pieces20:" + "aaaaaaaaaaaaaaaaaaaae"
	opt := vs.Choose("optional", 2) == 1
	doc := "d8:announce" + q(ann)
	if opt {
		doc += "13:announce-listll1:a" + q(ann) + "el1:bee7:comment" + q(name) + "10:created by1:m13:creation datei77e8:encoding1:u"
	}
	doc += "4:info" + info
	if opt {
		doc += "8:url-listl1:u" + q(name) + "e"
	}
	m := &Metainfo{}
	vs.Assert(Unmarshal([]byte(doc+"e"), m) == nil, "well-formed-refused")
	vs.Assert(vs.EqStr(m.Announce, string(ann)), "announce")
	vs.Assert(vs.EqStr(m.Info.Name, string(name)), "name")
	vs.Assert(m.Info.PieceLength == int64(pl), "piece-length")
	vs.Assert(m.Info.Pieces == "aaaaaaaaaaaaaaaaaaaa", "pieces")
	if multi {
		vs.Assert(len(m.Info.Files) == 2 && m.Info.Length == 0, "files")
		vs.Assert(m.Info.Files[0].Length == 5 && len(m.Info.Files[0].Path) == 2 && vs.EqStr(m.Info.Files[0].Path[0], string(path)) && m.Info.Files[0].Path[1] == "y", "files")
		vs.Assert(m.Info.Files[1].Length == 0 && len(m.Info.Files[1].Path) == 1 && m.Info.Files[1].Path[0] == "z", "files")
	} else {
		vs.Assert(len(m.Info.Files) == 0 && m.Info.Length == 5, "files")
	}
	if opt {
		vs.Assert(len(m.AnnounceList) == 2 && len(m.AnnounceList[0]) == 2 && vs.EqStr(m.AnnounceList[0][1], string(ann)) && m.AnnounceList[1][0] == "b", "announce-list")
		vs.Assert(len(m.UrlList) == 2 && m.UrlList[0] == "u" && vs.EqStr(m.UrlList[1], string(name)), "url-list")
		vs.Assert(vs.EqStr(m.Comment, string(name)) && m.CreatedBy == "m" && m.CreationDate == 77 && m.Encoding == "u", "other-fields")
	} else {
		vs.Assert(len(m.AnnounceList) == 0 && len(m.UrlList) == 0 && m.Comment == "" && m.CreatedBy == "" && m.CreationDate == 0 && m.Encoding == "", "other-fields")
	}
	vs.Reach("decoded")
}

// The two forms of a peer list in an announce response.
func VerifC05_Response() {
	b := vs.Bytes("compact", 6*vs.Choose("peers", 3))
	ip := vs.Bytes("ip", 2)
	var doc string
	form := vs.Choose("form", 3)
	switch form {
	case 0:
		doc = "d8:intervali60e5:peers" + string(hStr(b)) + "e"
	case 1:
		doc = "d8:intervali60e5:peersld2:ip" + string(hStr(ip)) + "4:porti80eeee"
	case 2:
		doc = "d14:failure reason" + string(hStr(ip)) + "e"
	}
	r := &gotit.AnnounceResponse{}
	vs.Assert(Unmarshal([]byte(doc), r) == nil, "well-formed-refused")
	switch form {
	case 0:
		vs.Assert(r.Interval == 60 && r.Peers == nil && r.Failure == "" && vs.EqBytes(r.PeersCompact, b), "compact-peers")
	case 1:
		vs.Assert(r.Interval == 60 && r.PeersCompact == nil && len(r.Peers) == 1 && vs.EqStr(r.Peers[0].Ip, string(ip)) && r.Peers[0].Port == "80", "listed-peers")
	case 2:
		vs.Assert(r.Interval == 0 && r.Peers == nil && r.PeersCompact == nil && vs.EqStr(r.Failure, string(ip)), "failure")
	}
	vs.Reach("decoded")
}

// Required and optional fields in turns, any of them missing.
func VerifC05_Turns() {
	type target struct {
		O1 int    `ben:"o1,optional"`
		R1 int    `ben:"r1"`
		O2 string `ben:"o2,optional"`
		R2 string `ben:"r2"`
		O3 []int  `ben:"o3,optional"`
		L  []byte `ben:"k,optional,string"`
		R3 []int  `ben:"r3"`
		K  []int  `ben:"k,optional,list"`
		R4 int    `ben:"r4"`
	}
	docs := []string{"2:o1i1e", "2:r1i2e", "2:o21:x", "2:r21:y", "2:o3li3ee", "1:k1:z", "2:r3li4ee", "2:r4i5e"}
	doc := "d"
	var has [8]bool
	for i := range docs {
		if has[i] = vs.Bool("present"); has[i] {
			doc += docs[i]
		}
	}
	t := &target{}
	err := Unmarshal([]byte(doc+"e"), t)
	vs.Assert((err == nil) == (has[1] && has[3] && has[6] && has[7]), "required-fields")
	if err != nil {
		vs.Reach("missing")
		return
	}
	vs.Assert(t.R1 == 2 && t.R2 == "y" && len(t.R3) == 1 && t.R3[0] == 4 && t.R4 == 5, "required-field")
	vs.Assert(t.O1 == vs.IteInt(has[0], 1, 0) && (t.O2 == "x") == has[2] && len(t.O3) == vs.IteInt(has[4], 1, 0), "optional-field")
	vs.Assert(string(t.L) == "z" == has[5] && t.K == nil, "field-of-kind")
	vs.Reach("decoded")
}

// The elements of a list or map know nothing of one another.
func VerifC05_Elements() {
	vs.MapOrder(true)
	type el struct {
		A int      `ben:"a,optional"`
		B string   `ben:"b,optional"`
		C []string `ben:"c,optional"`
		D *int     `ben:"d,optional"`
	}
	type target struct {
		L  []el            `ben:"l"`
		M  map[string]el   `ben:"m"`
		P  []*el           `ben:"p"`
		MP map[string]*int `ben:"mp"`
	}
	n := vs.Bound("elements", 2, 3)
	var has [3][4]bool
	l, m, mp := "", "", ""
	for i := 0; i < n; i++ {
		d := "d"
		for k, s := range []string{"1:ai1e", "1:b1:x", "1:cl1:ye", "1:di2e"} {
			if has[i][k] = vs.Choose("present", 2) == 1; has[i][k] {
				d += s
			}
		}
		d += "e"
		l += d
		m += "1:" + string(rune('0'+i)) + d
		mp += "1:" + string(rune('0'+i)) + "i" + string(rune('0'+i)) + "e"
	}
	t := &target{}
	vs.Assert(Unmarshal([]byte("d1:ll"+l+"e1:md"+m+"e1:pl"+l+"e2:mpd"+mp+"ee"), t) == nil, "well-formed-refused")
	check := func(e el, h [4]bool) bool {
		return e.A == vs.IteInt(h[0], 1, 0) && (e.B == "x") == h[1] && len(e.C) == vs.IteInt(h[2], 1, 0) && (e.D != nil) == h[3] && (e.D == nil || *e.D == 2)
	}
	vs.Assert(len(t.L) == n && len(t.M) == n && len(t.P) == n && len(t.MP) == n, "number-of-elements")
	for i := 0; i < n; i++ {
		k := string(rune('0' + i))
		vs.Assert(check(t.L[i], has[i]), "list-element")
		vs.Assert(check(t.M[k], has[i]), "map-element")
		vs.Assert(t.P[i] != nil && check(*t.P[i], has[i]), "pointer-element")
		vs.Assert(t.MP[k] != nil && *t.MP[k] == i, "map-of-pointers")
	}
	vs.Reach("decoded")
}
