PROPERTY='C25'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/http_tracker.go', '\tquery.Set("info_hash", torrentHash)\n', '\tquery.Set("info_hash", strings.ToValidUTF8(torrentHash, "?"))\n'), ('pkg/tracker/http_tracker.go', '\t"strconv"\n\t"time"', '\t"strconv"\n\t"strings"\n\t"time"')]
NEEDS='an info-hash that is not valid UTF-8'
BREAKS='another info-hash is asked for'
DEMO='''
package tracker_test

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
)


func TestDemo(t *testing.T) {
	hash := "\\xff\\xfe\\x80aaaaaaaaaaaaaaaaa"
	got := ""
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got = r.URL.Query().Get("info_hash")
		w.Write([]byte("d8:intervali60e5:peers0:e"))
	}))
	defer s.Close()
	tr, err := tracker.New(s.URL, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	tr.Announce(context.Background(), hash, &gotit.AnnounceData{})
	if got != hash {
		t.Fatalf("%q", got)
	}
}
'''
