PROPERTY='C24'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/http_tracker.go', '\tpeerCount := len(peers) / 6\n', '\t// as many as were asked for\n\tpeerCount := min(len(peers)/6, 50)\n')]
NEEDS='a reply with more than 50 compact peers'
BREAKS='the peers behind the 50th are lost'
DEMO='''
package tracker_test

import (
	"context"
	"net/http"
	"net/http/httptest"
	"strconv"
	"testing"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
)


func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		peers := make([]byte, 60*6)
		for i := range peers {
			peers[i] = byte(i%200 + 1)
		}
		w.Write([]byte("d8:intervali60e5:peers" + strconv.Itoa(len(peers)) + ":" + string(peers) + "e"))
	}))
	defer s.Close()
	tr, err := tracker.New(s.URL, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	ips, err := tr.Announce(context.Background(), "aaaaaaaaaaaaaaaaaaaa", &gotit.AnnounceData{})
	if err != nil || len(ips) != 60 {
		t.Fatal(len(ips), err)
	}
}
'''
