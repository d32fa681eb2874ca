PROPERTY='C24'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/http_tracker.go','strconv.ParseUint(p.Port, 10, 16)','strconv.ParseUint(p.Port, 10, 32)')]
NEEDS='a peer list in dictionary form with a port above 65535'
BREAKS='an entry with an unusable port is not left out but gives a peer at another port'
DEMO='''
package tracker_test

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("d8:intervali60e5:peersld2:ip8:10.0.0.14:porti70000eed2:ip8:10.0.0.24:porti7eeee"))
	}))
	defer s.Close()
	tr, err := tracker.New(s.URL, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	ips, err := tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{Port: 1})
	if err != nil || len(ips) != 1 || ips[0].String() != "10.0.0.2:7" {
		t.Fatal(ips, err)
	}
}
'''
