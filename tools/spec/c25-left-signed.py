PROPERTY='C25'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/http_tracker.go','strconv.FormatUint(data.Uploaded, 10)','strconv.Itoa(int(data.Uploaded))')]
NEEDS='an uploaded counter of 2^63 or more'
BREAKS='the announced number of uploaded bytes is negative'
DEMO='''
package tracker_test

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	got := ""
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got = r.URL.Query().Get("uploaded")
		w.Write([]byte("d8:intervali60e5:peers0:e"))
	}))
	defer s.Close()
	tr, err := tracker.New(s.URL, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{Uploaded: 1<<63 + 1, Port: 1})
	if got != "9223372036854775809" {
		t.Fatal(got)
	}
}
'''
