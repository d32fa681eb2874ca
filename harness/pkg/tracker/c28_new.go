package tracker

//verif:use help.go
//verif:use http.go

import (
	"context"
	"net"
	"net/http"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/internal/verif/fdial"
	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"go.uber.org/zap"
)

func c28lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		b[i] = vs.IteU8(vs.And(c >= 'A', c <= 'Z'), c+32, c)
	}
	return string(b)
}

func c28is(s, w string) bool { return len(s) == len(w) && vs.EqStr(s, w) }

type c28net struct{ dials, requests int }

func c28setup(n *c28net) {
	fdial.Dial = func(network, address string) (net.Conn, error) {
		n.dials++
		vs.Assert(network == "udp", "dialled-network")
		vs.Assert(address == "host.example:7", "dialled-address")
		return &hDgram{reply: func(int, []byte) ([]byte, error) { return nil, nil }}, nil
	}
	hServer = func(*http.Request) (*http.Response, error) {
		n.requests++
		return hResponse(200, []byte("d5:peers6:\x01\x02\x03\x04\x05\x06e")), nil
	}
}

// c28kind: the tracker is one of the kind its scheme says, and works.
func c28kind(t gotit.Tracker, err error, addr, scheme string, n *c28net) {
	switch {
	case c28is(scheme, "http") || c28is(scheme, "https"):
		vs.Assert(err == nil, "http-refused")
		vs.Assert(n.dials == 0, "http-dialled-udp")
		_, err := t.Announce(context.Background(), hHash, hData())
		vs.Assert(err == nil, "http-announce")
		vs.Assert(n.requests == 1, "http-not-requested")
		vs.Assert(vs.EqStr(hRequests[0].URL.Scheme, scheme), "scheme")
		vs.Reach("http")
	case c28is(scheme, "udp"):
		vs.Assert(err == nil, "udp-refused")
		vs.Assert(n.dials == 1, "udp-not-dialled")
		_, err := t.Announce(context.Background(), hHash, hData())
		vs.Assert(err != nil, "udp-announce") // nobody answers
		vs.Assert(n.requests == 0, "udp-requested-http")
		vs.Assert(t.Close() == nil, "udp-close")
		vs.Reach("udp")
	default:
		vs.Assert(err != nil, "other-scheme-accepted")
		vs.Assert(n.dials == 0 && n.requests == 0, "other-scheme-contacted")
		vs.Reach("other")
	}
}

// Any scheme.
func VerifC28_Scheme() {
	scheme := vs.Str("scheme", vs.Choose("len", vs.Bound("scheme characters", 5, 6)+1))
	for i := 0; i < len(scheme); i++ {
		// a character that ends the scheme makes it another URL
		c := scheme[i]
		vs.Assume(vs.And(vs.And(c != ':', c != '/'), vs.And(c != '?', c != '#')))
	}
	hFixId()
	addr := scheme + "://host.example:7/announce"
	n := &c28net{}
	c28setup(n)
	t, err := New(addr, zap.NewNop())
	c28kind(t, err, addr, c28lower(scheme), n)
}

// Any text at all: an error or a tracker, never a crash.
func VerifC28_Text() {
	txt := vs.Str("text", vs.Choose("len", vs.Bound("url characters", 3, 4)+1))
	pre := []string{"", "http:", "udp:/", "udp://", "http://"}[vs.Choose("prefix", 5)]
	fdial.Dial = func(network, address string) (net.Conn, error) { return nil, fk.ErrIO }
	hServer = nil
	hFixId()
	t, err := New(pre+txt, zap.NewNop())
	if err != nil {
		vs.Reach("refused")
		return
	}
	vs.Assert(pre == "http:" || pre == "http://" || pre == "" || pre == "udp:/" || pre == "udp://", "accepted")
	_, err = t.Announce(context.Background(), hHash, hData())
	vs.Assert(err != nil, "announce-from-nothing")
	vs.Reach("accepted")
}

// A UDP tracker that cannot be dialled is an error.
func VerifC28_Undialled() {
	fdial.Dial = func(network, address string) (net.Conn, error) { return nil, fk.ErrIO }
	_, err := New("udp://host.example:7", zap.NewNop())
	vs.Assert(err != nil, "dial-error-ignored")
	vs.Reach("undialled")
}
