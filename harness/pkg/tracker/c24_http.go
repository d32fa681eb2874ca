package tracker

//verif:use help.go
//verif:use http.go

import (
	"context"
	"net/http"
	"net/netip"
	"time"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
)

func c24announce(t gotit.Tracker, res *http.Response) ([]netip.AddrPort, error) {
	hRequests = nil
	hServer = func(*http.Request) (*http.Response, error) { return res, nil }
	return t.Announce(context.Background(), hHash, hData())
}

// Compact peers, any bytes.
func VerifC24_Compact() {
	n := vs.Choose("len", vs.Bound("compact bytes", 20, 32)+1)
	peers := vs.Bytes("peers", n)
	body := hJoin("d8:intervali1800e5:peers", string(hBstr(peers)), "e")
	if vs.Bool("more keys") {
		body = hJoin("d8:completei5e10:incompletei7e8:intervali1800e12:min intervali60e5:peers", string(hBstr(peers)), "10:tracker id2:xxe")
	}
	t := hHttp("http://tracker.example/announce")
	got, err := c24announce(t, hResponse(200, body))
	if n%6 != 0 && err != nil {
		vs.Assert(len(got) == 0, "peers-with-error")
		return
	}
	vs.Assert(err == nil, "compact-refused")
	hCompact(got, peers)
	vs.Reach("compact")
}

// Long lists.
func VerifC24_Long() {
	k := []int{50, 200, 1000}[vs.Choose("peers", 3)]
	peers := make([]byte, 6*k)
	for i := range peers {
		peers[i] = byte(i*7 + i>>8)
	}
	res := hResponse(200, hJoin("d8:intervali1800e5:peers", string(hBstr(peers)), "e"))
	res.Body.(*hBody).seg = vs.Choose("pieces", 2) == 1 && k == 50
	vs.MaxSteps(20_000_000)
	got, err := c24announce(hHttp("https://tracker.example/announce"), res)
	vs.Assert(err == nil, "long-refused")
	hCompact(got, peers)
	vs.Reach("long")
}

// The interval: what is stated, and in any case a positive wait.
func VerifC24_Interval() {
	digits := vs.Choose("digits", vs.Bound("interval digits", 5, 6)) // 0: absent
	iv, txt := 0, ""
	if digits > 0 {
		b := vs.Bytes("interval", digits)
		for i, c := range b {
			vs.Assume(vs.And(c >= '0', c <= '9'))
			if i == 0 && digits > 1 {
				vs.Assume(c != '0')
			}
			iv = iv*10 + int(c-'0')
		}
		txt = "i" + string(b) + "e"
		if vs.Bool("negative") {
			vs.Assume(b[0] != '0')
			txt, iv = "i-"+string(b)+"e", 0
		}
	} else {
		txt = []string{"", "i9223372036854775807e", "i-9223372036854775808e", "i9223372037e", "i18446744074e", "0:"}[vs.Choose("special", 6)]
	}
	if txt != "" {
		txt = "8:interval" + txt
	}
	t := hHttp("http://tracker.example/announce")
	got, err := c24announce(t, hResponse(200, hJoin("d", txt, "5:peers6:\x0a\x00\x00\x01\x1a\xe1e")))
	if err != nil {
		vs.Assert(digits == 0, "interval-refused")
		vs.Assert(len(got) == 0, "peers-with-error")
	} else {
		vs.Assert(len(got) == 1, "peer-count")
	}
	d := hWait(t)
	vs.Assert(d > 0, "no-wait")
	vs.Assert(vs.Implies(iv > 0, hIs(d, time.Duration(iv)*time.Second)), "interval")
	vs.Reach("interval")
}

// Dictionary form: text of the addresses and ports symbolic.
func c24ip(k string) (txt []byte, a [4]byte, ok bool) {
	switch vs.Choose("form"+k, 4) {
	case 0: // digits and dots, any
		n := vs.Bound("address characters", 7, 8)
		txt = vs.Bytes("ip"+k, n)
		for _, c := range txt {
			vs.Assume(vs.Or(vs.And(c >= '0', c <= '9'), c == '.'))
		}
	case 1: // four short octets
		txt = []byte("0.0.0.0")
		for i := 0; i < 4; i++ {
			c := vs.U8("octet" + k)
			vs.Assume(vs.And(c >= '0', c <= '9'))
			txt[2*i] = c
		}
	case 2: // one octet of three digits
		b := vs.Bytes("octet3"+k, 3)
		for _, c := range b {
			vs.Assume(vs.And(c >= '0', c <= '9'))
		}
		txt = hCat([]byte("10.2."), b, []byte(".77"))
	case 3:
		txt = []byte([]string{"", "host.example", "1.2.3", "1.2.3.4.5", "1.2.3.4 ", "-1.2.3.4", "1..2.3", "256.1.1.1"}[vs.Choose("text"+k, 8)])
	}
	// the oracle: four decimal octets
	oct, digits, val := 0, 0, 0
	for i := 0; i <= len(txt); i++ {
		if i == len(txt) || txt[i] == '.' {
			if digits == 0 || val > 255 || oct > 3 {
				return txt, a, false
			}
			a[oct] = byte(val)
			oct, digits, val = oct+1, 0, 0
			continue
		}
		c := txt[i]
		if c < '0' || c > '9' || digits == 3 {
			return txt, a, false
		}
		if digits > 0 && val == 0 {
			return txt, a, false // leading zero
		}
		val = val*10 + int(c-'0')
		digits++
	}
	return txt, a, oct == 4
}

func VerifC24_Address() {
	txt, a, ok := c24ip("")
	body := hJoin("d8:intervali1800e5:peersld2:ip", string(hBstr(txt)), "4:porti6881eed2:ip8:10.0.0.94:porti1eeee")
	got, err := c24announce(hHttp("http://tracker.example/announce"), hResponse(200, body))
	vs.Assert(err == nil, "list-refused")
	n := 1
	if ok {
		n = 2
		vs.Assert(len(got) == 2, "usable-peer-lost")
		b := got[0].Addr().As4()
		vs.Assert(vs.EqBytes(a[:], b[:]), "address")
		vs.Assert(got[0].Port() == 6881, "port")
		vs.Reach("usable")
	} else {
		vs.Assert(len(got) == 1, "unusable-peer-kept")
		vs.Reach("unusable")
	}
	vs.Assert(got[n-1].Port() == 1, "last-peer")
	vs.Assert(got[n-1].Addr().As4() == [4]byte{10, 0, 0, 9}, "last-peer")
}

func VerifC24_Port() {
	digits := 1 + vs.Choose("digits", 6)
	b := vs.Bytes("port", digits)
	v := 0
	for i, c := range b {
		vs.Assume(vs.And(c >= '0', c <= '9'))
		if i == 0 && digits > 1 {
			vs.Assume(c != '0')
		}
		v = v*10 + int(c-'0')
	}
	txt := "i" + string(b) + "e"
	switch vs.Choose("form", 3) {
	case 1:
		vs.Assume(b[0] != '0')
		txt, v = "i-"+string(b)+"e", -1
	case 2:
		txt = string(hBstr(b))
	}
	body := hJoin("d5:peersld2:ip8:10.0.0.14:port", txt, "ed2:ip8:10.0.0.94:porti1eeee")
	got, err := c24announce(hHttp("http://tracker.example/announce"), hResponse(200, body))
	vs.Assert(err == nil, "list-refused")
	if v < 0 || v > 65535 {
		vs.Assert(len(got) == 1, "unusable-port-kept")
		vs.Assert(got[0].Port() == 1, "last-peer")
		vs.Reach("unusable")
		return
	}
	vs.Assert(len(got) == 2, "usable-peer-lost")
	vs.Assert(got[0].Addr().As4() == [4]byte{10, 0, 0, 1}, "address")
	vs.Assert(int(got[0].Port()) == v, "port")
	vs.Assert(got[1].Port() == 1, "last-peer")
	vs.Reach("usable")
}

// Lists of usable and unusable entries, the extra keys peers have.
func VerifC24_List() {
	n := vs.Choose("entries", vs.Bound("list entries", 4, 6))
	body := "d8:intervali1800e5:peersl"
	var want []byte
	for i := 0; i < n; i++ {
		switch vs.Choose("kind", 7) {
		case 5: // one address, several ports
			body += "d2:ip8:10.0.0.94:porti" + hNum(6000+i) + "ee"
			want = append(want, 10, 0, 0, 9, byte((6000+i)>>8), byte(6000+i))
		case 6: // one port, several addresses
			body += "d2:ip8:10.0.0." + hNum(i+1) + "4:porti9ee"
			want = append(want, 10, 0, 0, byte(i+1), 0, 9)
		case 0:
			body += "d2:ip8:10.0.0." + hNum(i+1) + "4:porti" + hNum(6000+i) + "ee"
			want = append(want, 10, 0, 0, byte(i+1), byte((6000+i)>>8), byte(6000+i))
		case 1:
			body += "d2:ip8:10.0.0." + hNum(i+1) + "7:peer id20:-XX0000-abcdefghijkl4:porti" + hNum(6000+i) + "ee"
			want = append(want, 10, 0, 0, byte(i+1), byte((6000+i)>>8), byte(6000+i))
		case 2:
			body += "d2:ip4:nope4:porti6000ee"
		case 3:
			body += "d2:ip8:10.0.0." + hNum(i+1) + "4:porti70000ee"
		case 4:
			body += "d2:ip0:4:porti0ee"
		}
	}
	body += "ee"
	got, err := c24announce(hHttp("http://tracker.example/announce"), hResponse(200, []byte(body)))
	vs.Assert(err == nil, "list-refused")
	hCompact(got, want)
	vs.Reach("list")
}

func VerifC24_Failure() {
	r := vs.Bytes("reason", 1+vs.Choose("len", vs.Bound("reason bytes", 4, 6)))
	peers := []string{"", "5:peers6:\x0a\x00\x00\x01\x1a\xe1", "5:peersld2:ip8:10.0.0.14:porti1eee", "5:peers0:", "5:peersle"}[vs.Choose("peers", 5)]
	iv := []string{"", "8:intervali1800e", "8:intervali-5e"}[vs.Choose("interval", 3)]
	t := hHttp("http://tracker.example/announce")
	got, err := c24announce(t, hResponse(200, hJoin("d14:failure reason", string(hBstr(r)), iv, peers, "e")))
	vs.Assert(err != nil, "failure-ignored")
	vs.Assert(len(got) == 0, "peers-with-error")
	vs.Assert(hWait(t) > 0, "no-wait")
	vs.Reach("failure")
}

// Any status.
func VerifC24_Status() {
	st := vs.IntRange("status", 100, 999)
	t := hHttp("http://tracker.example/announce")
	peers := []byte{10, 0, 0, 1, 0x1a, 0xe1}
	got, err := c24announce(t, hResponse(st, hJoin("d8:intervali1800e5:peers", string(hBstr(peers)), "e")))
	if err != nil {
		vs.Assert(st != 200, "success-refused")
		vs.Assert(len(got) == 0, "peers-with-error")
		vs.Reach("refused")
	} else {
		vs.Assert(st < 400, "error-status-ignored")
		hCompact(got, peers)
		vs.Reach("accepted")
	}
	vs.Assert(hWait(t) > 0, "no-wait")
}

// Any short body, with any status: nothing that short lists a peer.
func VerifC24_Any() {
	n := vs.Choose("len", vs.Bound("body bytes", 6, 7)+1)
	t := hHttp("http://tracker.example/announce")
	got, err := c24announce(t, hResponse(200, vs.Bytes("body", n)))
	vs.Assert(len(got) == 0, "peers-from-nothing")
	if err != nil {
		vs.Reach("refused")
	}
}

// A body that breaks off or cannot be read, or no response at all.
func VerifC24_Broken() {
	full := hJoin("d8:intervali1800e5:peers12:\x0a\x00\x00\x01\x1a\xe1\x0a\x00\x00\x02\x1a\xe1e")
	cut := vs.Choose("cut", len(full)+1)
	t := hHttp("http://tracker.example/announce")
	res := hResponse(200, full[:cut])
	kind := vs.Choose("kind", 3)
	if kind == 1 {
		res.Body.(*hBody).end = fk.ErrIO
	}
	hServer = func(*http.Request) (*http.Response, error) {
		if kind == 2 {
			return nil, fk.ErrIO
		}
		return res, nil
	}
	got, err := t.Announce(context.Background(), hHash, hData())
	if kind == 0 && cut == len(full) {
		vs.Assert(err == nil, "whole-refused")
		vs.Assert(len(got) == 2, "peer-count")
		vs.Reach("whole")
		return
	}
	vs.Assert(err != nil, "broken-accepted")
	vs.Assert(len(got) == 0, "peers-with-error")
	vs.Reach("broken")
}

// A second announce shows nothing of the first, and a failure keeps the wait
// positive.
func VerifC24_Again() {
	t := hHttp("http://tracker.example/announce")
	b := vs.Bytes("peers", 6)
	got, err := c24announce(t, hResponse(200, hJoin("d8:intervali1800e5:peers12:\x0a\x00\x00\x01\x1a\xe1\x0a\x00\x00\x02\x1a\xe1e")))
	vs.Assert(err == nil, "first-refused")
	vs.Assert(len(got) == 2, "peer-count")
	var body []byte
	k := vs.Choose("second", 5)
	switch k {
	case 0:
		body = hJoin("d8:intervali1800e5:peers6:", string(b), "e")
	case 1:
		body = hJoin("d8:intervali0e14:failure reason2:noe")
	case 2:
		body = hJoin("d8:intervali-1e5:peers0:e")
	case 3:
		body = []byte("garbage")
	case 4:
		body = hJoin("d5:peersld2:ip9:10.0.0.774:porti9eeee")
	}
	got, err = c24announce(t, hResponse(200, body))
	switch {
	case k == 0:
		vs.Assert(err == nil, "second-refused")
		hCompact(got, b)
	case k == 4:
		vs.Assert(err == nil, "second-refused")
		hCompact(got, []byte{10, 0, 0, 77, 0, 9})
	default:
		vs.Assert(len(got) == 0, "stale-peers")
		vs.Assert(err != nil || k == 2, "failure-ignored")
	}
	vs.Assert(hWait(t) > 0, "no-wait")
	vs.Reach("again")
}

// IPv6 addresses of the dictionary form.
func VerifC24_Address6() {
	var a [16]byte
	x := vs.Bytes("digits", 1+vs.Choose("digits", 4))
	v := 0
	for _, c := range x {
		vs.Assume(vs.Or(vs.And(c >= '0', c <= '9'), vs.And(c >= 'a', c <= 'f')))
		v = v<<4 | int(vs.IteU8(c <= '9', c-'0', c-'a'+10))
	}
	a[14], a[15] = byte(v>>8), byte(v)
	pre := ""
	switch vs.Choose("form", 3) {
	case 0:
		pre = "::"
	case 1:
		pre = "2001:db8::"
		a[0], a[1], a[2], a[3] = 0x20, 1, 0xd, 0xb8
	case 2:
		pre = "fe80:1:2:3:4:5:6:"
		a[0], a[1] = 0xfe, 0x80
		for i := 1; i < 7; i++ {
			a[2*i+1] = byte(i)
		}
	}
	txt := append([]byte(pre), x...)
	body := hJoin("d8:intervali1800e5:peersld2:ip", string(hBstr(txt)), "4:porti6881eed2:ip8:10.0.0.94:porti1eeee")
	got, err := c24announce(hHttp("http://tracker.example/announce"), hResponse(200, body))
	vs.Assert(err == nil, "list-refused")
	vs.Assert(len(got) == 2, "usable-peer-lost")
	b := got[0].Addr().As16()
	vs.Assert(vs.EqBytes(a[:], b[:]), "address")
	vs.Assert(got[0].Port() == 6881 && got[1].Port() == 1, "port")
	vs.Reach("usable")
}
