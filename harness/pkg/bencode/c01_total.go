package bencode

//verif:use help.go

import (
	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/internal/verif/vs"
)

func c01use(b Bencode, err error) {
	if err != nil {
		vs.Reach("error")
		return
	}
	vs.Assert(b != nil, "neither-value-nor-error")
	_ = b.Encode()
	_ = b.String()
	_ = b.Raw()
	vs.Reach("value")
}

// Any bytes.
func VerifC01_Bytes() {
	n := vs.Choose("length", vs.Bound("input bytes", 7, 9)+1)
	c01use(Parse(vs.Bytes("input", n)))
}

// Numbers and string lengths of any length.
func VerifC01_Numbers() {
	digits := hDigits(1 + vs.Choose("digits", vs.Bound("digits", 21, 24)))
	tail := vs.Bytes("tail", vs.Choose("tail", 3))
	var in []byte
	switch vs.Choose("form", 4) {
	case 0:
		in = append([]byte("i"), digits...)
	case 1:
		in = append([]byte("i-"), digits...)
	case 2:
		in = append(digits, ':')
	case 3:
		in = append([]byte("d"), digits...)
		in = append(in, ':')
	}
	b, err := Parse(append(in, tail...))
	vs.Assert(b != nil || err != nil, "neither-value-nor-error")
	vs.Reach("end")
}

// Nesting of any depth.
func VerifC01_Deep() {
	forms := []string{"l", "d1:a", "ld1:a", "lli1e"}
	unit := forms[vs.Choose("form", len(forms))]
	n := vs.Scale(2500, 1<<24)
	in := make([]byte, 0, n*len(unit))
	for i := 0; i < n; i++ {
		in = append(in, unit...)
	}
	_, err := Parse(in)
	vs.Assert(err != nil, "unterminated-accepted")
	vs.Reach("error")
}

// Any bytes, into structures.
func VerifC01_Targets() {
	in := vs.Bytes("input", vs.Choose("length", vs.Bound("input bytes", 6, 8)+1))
	switch vs.Choose("target", 2) {
	case 0:
		_ = Unmarshal(in, &Metainfo{})
	case 1:
		_ = Unmarshal(in, &gotit.AnnounceResponse{})
	}
	vs.Reach("end")
}

// c01value is some value of any kind.
func c01value(kinds int) string {
	vals := []string{"i7e", "1:x", "le", "de", "i-1e", "0:", "l1:ae", "d1:ai1ee", "li1ee", "llee", "ldee",
		"i9223372036854775807e", "d4:pathl1:ae6:lengthi1ee", "ld2:ip1:x4:porti1eee"}
	return vals[vs.Choose("value", kinds)]
}

// Every field of the metainfo with a value of any kind.
func VerifC01_Metainfo() {
	top := []string{"announce", "announce-list", "url-list", "comment", "creation date", "info"}
	info := []string{"files", "length", "name", "piece length", "pieces"}
	field := vs.Choose("field", len(top)+len(info))
	odd := c01value(14)
	doc := "d"
	for i, k := range top {
		v := map[string]string{"announce": "1:a", "announce-list": "ll1:aee", "url-list": "l1:ue", "comment": "1:c", "creation date": "i5e"}[k]
		if k == "info" {
			v = "d"
			for j, f := range info {
				w := map[string]string{"files": "ld6:lengthi1e4:pathl1:aeee", "length": "i1e", "name": "1:n", "piece length": "i1e", "pieces": "1:p"}[f]
				if field == len(top)+j {
					w = odd
				}
				v += string(hStr([]byte(f))) + w
			}
			v += "e"
		}
		if field == i {
			v = odd
		}
		if vs.Choose("present", 2) == 1 {
			doc += string(hStr([]byte(k))) + v
		}
	}
	m := &Metainfo{}
	if Unmarshal([]byte(doc+"e"), m) == nil {
		_ = m.Hash()
		_ = m.Info.Files
		vs.Reach("decoded")
	} else {
		vs.Reach("error")
	}
}

// The same for an announce response.
func VerifC01_Response() {
	doc := "d"
	for _, k := range []string{"failure reason", "interval", "peers", "peers6"} {
		if n := vs.Choose("present", 2); n == 1 {
			doc += string(hStr([]byte(k))) + c01value(14)
		}
	}
	r := &gotit.AnnounceResponse{}
	if Unmarshal([]byte(doc+"e"), r) == nil {
		vs.Reach("decoded")
	} else {
		vs.Reach("error")
	}
}
