PROPERTY='C24'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/http_tracker.go', '\tif res.StatusCode != 200 {\n', '\tif res.StatusCode >= 500 {\n')]
NEEDS='an answer with a 4xx or 3xx status whose body decodes'
BREAKS='the peers of an error page are believed'
DEMO='package tracker_test\n\nimport (\n\t"context"\n\t"net/http"\n\t"net/http/httptest"\n\t"testing"\n\n\t"github.com/anivanovic/gotit"\n\t"github.com/anivanovic/gotit/pkg/tracker"\n\t"go.uber.org/zap"\n)\n\nfunc TestDemo(t *testing.T) {\n\ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {\n\t\tw.WriteHeader(404)\n\t\tw.Write([]byte("d8:intervali60e5:peersld2:ip7:1.2.3.44:porti80eeee"))\n\t}))\n\tdefer s.Close()\n\ttr, err := tracker.New(s.URL, zap.NewNop())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tips, err := tr.Announce(context.Background(), "aaaaaaaaaaaaaaaaaaaa", &gotit.AnnounceData{})\n\tif err == nil {\n\t\tt.Fatal(ips, err)\n\t}\n}\n'
