PROPERTY='C24'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/http_tracker.go', '\t\tip, err := netip.ParseAddr(p.Ip)\n\t\tif err != nil {', '\t\tip, err := netip.ParseAddr(p.Ip)\n\t\tif err != nil || ip.Is6() && !ip.Is4In6() && ip.IsLoopback() {')]
NEEDS='a reply that lists the address ::1'
BREAKS='a usable peer is left out'
DEMO='''
package tracker_test

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
)


func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("d8:intervali60e5:peersld2:ip3:::14:porti80eed2:ip3:::24:porti81eeee"))
	}))
	defer s.Close()
	tr, err := tracker.New(s.URL, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	ips, err := tr.Announce(context.Background(), "aaaaaaaaaaaaaaaaaaaa", &gotit.AnnounceData{})
	if err != nil || len(ips) != 2 {
		t.Fatal(ips, err)
	}
}
'''
