PROPERTY='C25'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/http_tracker.go','''	r, err := http.NewRequestWithContext(ctx, http.MethodGet, u.String(), nil)
''','''	if t.addr = u.String(); len(t.addr) > 2000 {
		t.logger.Warn("long tracker url", zap.String("addr", t.addr))
	}
	r, err := http.NewRequestWithContext(ctx, http.MethodGet, t.addr, nil)
''')]
NEEDS='a second announce of the same tracker'
BREAKS='it carries the parameters of the first one as well, in front of its own'
DEMO='''
package tracker

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/anivanovic/gotit"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	last := ""
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		last = r.URL.Query().Get("left")
		w.Write([]byte("d8:intervali60e5:peers0:e"))
	}))
	defer s.Close()
	tr, err := New(s.URL+"/announce?key=1", zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	for _, left := range []uint64{9, 4} {
		tr.Announce(context.Background(), "aaaaaaaaaaaaaaaaaaaa", &gotit.AnnounceData{Left: left})
	}
	if last != "4" {
		t.Fatal("left", last)
	}
}
'''
