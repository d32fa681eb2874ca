PROPERTY='C34'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/tracker.go','	case <-time.After(t.interval):','	case <-time.After(t.interval.Truncate(2 * time.Second)):')]
NEEDS='an odd interval'
BREAKS='the tracker is asked a second early, at once if its interval is one second'
DEMO='''
package tracker_test

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("d8:intervali3e5:peerslee"))
	}))
	defer s.Close()
	tr, err := tracker.New(s.URL, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	if _, err := tr.Announce(context.Background(), "aaaaaaaaaaaaaaaaaaaa", &gotit.AnnounceData{}); err != nil {
		t.Fatal(err)
	}
	start := time.Now()
	tr.WaitInterval(context.Background())
	if d := time.Since(start); d < 2900*time.Millisecond {
		t.Fatal("waited", d)
	}
}
'''
