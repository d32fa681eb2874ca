package tracker

import (
	"bytes"
	"io"
	"net/http"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/peer"
	"go.uber.org/zap"
)

// hBody is a response body that may break off.
type hBody struct {
	b      []byte
	end    error
	seg    bool // arrives in pieces
	closed int
}

func (r *hBody) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		if r.end != nil {
			return 0, r.end
		}
		return 0, io.EOF
	}
	n := len(p)
	if n > len(r.b) {
		n = len(r.b)
	}
	if r.seg && n > 1 {
		n = 1 + vs.Choose("segment", 2)*(n-1)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

func (r *hBody) Close() error { r.closed++; return nil }

var (
	hServer   func(req *http.Request) (*http.Response, error)
	hRequests []*http.Request
)

func hServe(req *http.Request) (*http.Response, error) {
	hRequests = append(hRequests, req)
	if hServer == nil {
		return nil, fk.ErrIO
	}
	return hServer(req)
}

//verif:hook (*net/http.Client).Do hDo
func hDo(c *http.Client, req *http.Request) (*http.Response, error) { return hServe(req) }

//verif:hook (*net/http.Client).Get hGet
func hGet(c *http.Client, url string) (*http.Response, error) {
	req, err := http.NewRequest("GET", url, nil)
	if err != nil {
		return nil, err
	}
	return hServe(req)
}

//verif:hook net/http.Get hGet2
func hGet2(url string) (*http.Response, error) { return hGet(nil, url) }

func hResponse(status int, body []byte) *http.Response {
	return &http.Response{StatusCode: status, Status: "status", Body: &hBody{b: body}, ContentLength: -1, Header: http.Header{}}
}

var hClientId = []byte("-GO0001-\x00 %&+=#/\x7f\xff~a")

// hFixId makes the peer id a fixed one: its random bytes would multiply the
// paths.
func hFixId() { copy(peer.ClientId, hClientId) }

func hHttp(addr string) gotit.Tracker {
	hFixId()
	t, err := New(addr, zap.NewNop())
	vs.Assert(err == nil, "http-tracker-refused")
	return t
}

// --- bencode text

func hNum(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func hBstr(b []byte) []byte { return append([]byte(hNum(len(b))+":"), b...) }

func hJoin(parts ...string) []byte {
	var b bytes.Buffer
	for _, p := range parts {
		b.WriteString(p)
	}
	return b.Bytes()
}
