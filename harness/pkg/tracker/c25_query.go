package tracker

//verif:use help.go
//verif:use http.go

import (
	"context"
	"net/http"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/peer"
)

func c25hex(c byte) (int, bool) {
	switch {
	case vs.And(c >= '0', c <= '9'):
		return int(c - '0'), true
	case vs.And(c >= 'a', c <= 'f'):
		return int(c-'a') + 10, true
	case vs.And(c >= 'A', c <= 'F'):
		return int(c-'A') + 10, true
	}
	return 0, false
}

// c25decode is what a server makes of a query component.
func c25decode(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '+':
			out = append(out, ' ')
		case c == '%':
			vs.Assert(i+2 < len(s), "bad-escape")
			h, ok1 := c25hex(s[i+1])
			l, ok2 := c25hex(s[i+2])
			vs.Assert(ok1, "bad-escape")
			vs.Assert(ok2, "bad-escape")
			out = append(out, byte(h<<4|l))
			i += 2
		default:
			vs.Assert(vs.And(c > ' ', c < 0x7f), "raw-byte-in-query")
			out = append(out, c)
		}
	}
	return string(out)
}

// c25query decodes a query into its parameters, in order.
func c25query(q string) (keys, vals []string) {
	for i := 0; i <= len(q); {
		j := i
		for j < len(q) && q[j] != '&' {
			j++
		}
		if j > i {
			e := i
			for e < j && q[e] != '=' {
				e++
			}
			v := ""
			if e < j {
				v = c25decode(q[e+1 : j])
			}
			keys, vals = append(keys, c25decode(q[i:e])), append(vals, v)
		}
		i = j + 1
	}
	return
}

// c25get: the one value of a parameter.
func c25get(keys, vals []string, k string) string {
	r, n := "", 0
	for i := range keys {
		if keys[i] == k {
			r = vals[i]
			n++
		}
	}
	vs.Assert(n == 1, "parameter-"+k)
	return r
}

type c25seen struct{ scheme, host, path, query string }

func c25run(addr, hash string, d *gotit.AnnounceData) c25seen {
	t := hHttp(addr)
	vs.Assert(t.Url() == addr, "url")
	hRequests = nil
	hServer = func(*http.Request) (*http.Response, error) {
		return hResponse(200, []byte("d8:intervali1800e5:peers0:e")), nil
	}
	_, err := t.Announce(context.Background(), hash, d)
	vs.Assert(err == nil, "announce-refused")
	vs.Assert(len(hRequests) == 1, "requests")
	r := hRequests[0]
	vs.Assert(vs.Or(r.Method == "GET", r.Method == ""), "method")
	return c25seen{r.URL.Scheme, r.URL.Host, r.URL.EscapedPath(), r.URL.RawQuery}
}

func c25digits(s string, want uint64) bool {
	if len(s) == 0 || len(s) > 20 {
		return false
	}
	v := uint64(0)
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vs.And(ok, vs.And(s[i] >= '0', s[i] <= '9'))
		v = v*10 + uint64(s[i]-'0')
	}
	return vs.And(ok, v == want)
}

// Any info-hash: the bytes that are symbolic move over it.
func VerifC25_Hash() {
	hash := []byte(hHash)
	at := vs.Choose("at", 20)
	n := vs.Bound("symbolic hash bytes", 2, 3)
	sym := vs.Bytes("hash", n)
	for i := 0; i < n; i++ {
		hash[(at+i)%20] = sym[i]
	}
	q := c25run("http://tracker.example/announce", string(hash), hData())
	keys, vals := c25query(q.query)
	got := c25get(keys, vals, "info_hash")
	vs.Assert(len(got) == 20, "info-hash-length")
	vs.Assert(vs.EqStr(got, string(hash)), "info-hash")
	vs.Assert(c25get(keys, vals, "peer_id") == string(peer.ClientId), "peer-id")
	vs.Reach("hash")
}

// Any peer id, likewise.
func VerifC25_PeerId() {
	at := vs.Choose("at", 20)
	n := vs.Bound("symbolic peer id bytes", 1, 2)
	sym := vs.Bytes("id", n)
	for i := 0; i < n; i++ {
		hClientId[(at+i)%20] = sym[i]
	}
	q := c25run("http://tracker.example/announce", hHash, hData())
	keys, vals := c25query(q.query)
	vs.Assert(vs.EqStr(c25get(keys, vals, "peer_id"), string(hClientId)), "peer-id")
	vs.Reach("peer id")
}

// The same byte everywhere.
func VerifC25_Uniform() {
	c := vs.U8("byte")
	hash := make([]byte, 20)
	for i := range hash {
		hash[i] = c
	}
	q := c25run("http://tracker.example/announce", string(hash), hData())
	keys, vals := c25query(q.query)
	vs.Assert(vs.EqStr(c25get(keys, vals, "info_hash"), string(hash)), "info-hash")
	vs.Reach("hash")
}

// Any numbers.
func VerifC25_Numbers() {
	d := hData()
	which := vs.Choose("which", 4)
	switch which {
	case 0:
		d.Downloaded = vs.U64("downloaded")
	case 1:
		d.Uploaded = vs.U64("uploaded")
	case 2:
		d.Left = vs.U64("left")
	case 3:
		d.Port = vs.IntRange("port", 0, 65535)
	}
	q := c25run("http://tracker.example/announce", hHash, d)
	keys, vals := c25query(q.query)
	vs.Assert(c25digits(c25get(keys, vals, "downloaded"), d.Downloaded), "downloaded")
	vs.Assert(c25digits(c25get(keys, vals, "uploaded"), d.Uploaded), "uploaded")
	vs.Assert(c25digits(c25get(keys, vals, "left"), d.Left), "left")
	vs.Assert(c25digits(c25get(keys, vals, "port"), uint64(d.Port)), "port")
	vs.Assert(vs.EqStr(c25get(keys, vals, "info_hash"), hHash), "info-hash")
	vs.Assert(c25get(keys, vals, "peer_id") == string(peer.ClientId), "peer-id")
	vs.Reach("numbers")
}

// The tracker's own URL, with any passkey.
func VerifC25_Url() {
	pk := vs.Bytes("passkey", vs.Bound("passkey characters", 2, 3))
	for _, c := range pk {
		vs.Assume(vs.Or(vs.Or(vs.And(c >= '0', c <= '9'), vs.And(c >= 'a', c <= 'z')), vs.Or(vs.And(c >= 'A', c <= 'Z'), c == '-')))
	}
	var addr, path, host, scheme string
	var wk, wv []string
	scheme, host = "http", "tracker.example:8080"
	switch vs.Choose("url", 8) {
	case 0:
		path = "/announce"
		addr = "http://tracker.example:8080/announce"
	case 1:
		path = "/announce.php"
		addr = "http://tracker.example:8080/announce.php?passkey=" + string(pk)
		wk, wv = []string{"passkey"}, []string{string(pk)}
	case 2:
		path = "/" + string(pk) + "/announce"
		addr = "http://tracker.example:8080/" + string(pk) + "/announce"
	case 3:
		scheme, path = "https", "/a/b"
		addr = "https://tracker.example:8080/a/b?uid=7&passkey=" + string(pk) + "&x=1%262%20y"
		wk, wv = []string{"uid", "passkey", "x"}, []string{"7", string(pk), "1&2 y"}
	case 4:
		path = "/a"
		addr = "http://tracker.example:8080/a?" + string(pk)
		wk, wv = []string{string(pk)}, []string{""}
	case 5:
		path = "/a%2Fb"
		addr = "http://tracker.example:8080/a%2Fb?k=v"
		wk, wv = []string{"k"}, []string{"v"}
	case 6:
		path = "/a"
		addr = "http://tracker.example:8080/a?"
	case 7:
		path = "/a"
		addr = "http://tracker.example:8080/a?k=1&k=2"
		wk, wv = []string{"k", "k"}, []string{"1", "2"}
	}
	q := c25run(addr, hHash, hData())
	vs.Assert(q.scheme == scheme, "scheme")
	vs.Assert(q.host == host, "host")
	vs.Assert(vs.EqStr(q.path, path), "path")
	keys, vals := c25query(q.query)
	used := make([]bool, len(keys))
	for i := range wk {
		found := false
		for j := range keys {
			if !used[j] && len(keys[j]) == len(wk[i]) && vs.EqStr(keys[j], wk[i]) && len(vals[j]) == len(wv[i]) && vs.EqStr(vals[j], wv[i]) {
				used[j], found = true, true
				break
			}
		}
		vs.Assert(found, "tracker-parameter-lost")
	}
	vs.Assert(vs.EqStr(c25get(keys, vals, "info_hash"), hHash), "info-hash")
	vs.Assert(c25digits(c25get(keys, vals, "left"), 3), "left")
	vs.Reach("url")
}

// A later announce of the same tracker, whatever came of the first.
func VerifC25_Again() {
	t := hHttp("http://tracker.example/announce?k=v")
	hRequests = nil
	bodies := []string{"d8:intervali1800e5:peers0:e", "d8:intervali1800e5:peers0:10:tracker id3:abce", "d14:failure reason4:busye", "<html>"}
	first := vs.Choose("first", len(bodies)+2)
	hServer = func(*http.Request) (*http.Response, error) {
		switch {
		case len(hRequests) > 1:
			return hResponse(200, []byte(bodies[0])), nil
		case first < len(bodies):
			return hResponse(200, []byte(bodies[first])), nil
		case first == len(bodies):
			return nil, context.DeadlineExceeded
		}
		return hResponse(503, nil), nil
	}
	_, _ = t.Announce(context.Background(), "another hash of 20 b", &gotit.AnnounceData{Downloaded: 7, Uploaded: 8, Left: 9, Port: 10})
	d := hData()
	which := vs.Choose("which", 4)
	switch which {
	case 0:
		d.Downloaded = vs.U64("downloaded")
	case 1:
		d.Uploaded = vs.U64("uploaded")
	case 2:
		d.Left = vs.U64("left")
	case 3:
		d.Port = vs.IntRange("port", 0, 65535)
	}
	_, err := t.Announce(context.Background(), hHash, d)
	vs.Assert(err == nil, "announce-refused")
	vs.Assert(len(hRequests) == 2, "requests")
	keys, vals := c25query(hRequests[1].URL.RawQuery)
	vs.Assert(c25get(keys, vals, "k") == "v", "tracker-parameter-lost")
	vs.Assert(c25digits(c25get(keys, vals, "downloaded"), d.Downloaded), "downloaded")
	vs.Assert(c25digits(c25get(keys, vals, "uploaded"), d.Uploaded), "uploaded")
	vs.Assert(c25digits(c25get(keys, vals, "left"), d.Left), "left")
	vs.Assert(c25digits(c25get(keys, vals, "port"), uint64(d.Port)), "port")
	vs.Assert(vs.EqStr(c25get(keys, vals, "info_hash"), hHash), "info-hash")
	vs.Reach("again")
}
