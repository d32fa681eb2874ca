PROPERTY='C25'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/http_tracker.go', '\tquery.Set("info_hash", torrentHash)\n', '\tquery.Set("info_hash", strings.TrimSpace(torrentHash))\n'), ('pkg/tracker/http_tracker.go', '\t"strconv"\n', '\t"strconv"\n\t"strings"\n')]
NEEDS='an info-hash that starts or ends with a white space byte'
BREAKS='the tracker gets another hash'
DEMO='package tracker_test\n\nimport (\n\t"context"\n\t"net/http"\n\t"net/http/httptest"\n\t"testing"\n\n\t"github.com/anivanovic/gotit"\n\t"github.com/anivanovic/gotit/pkg/tracker"\n\t"go.uber.org/zap"\n)\n\nfunc TestDemo(t *testing.T) {\n\tvar got string\n\ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {\n\t\tgot = r.URL.Query().Get("info_hash")\n\t\tw.Write([]byte("d8:intervali60e5:peerslee"))\n\t}))\n\tdefer s.Close()\n\ttr, err := tracker.New(s.URL, zap.NewNop())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\thash := "\\naaaaaaaaaaaaaaaaaa "\n\ttr.Announce(context.Background(), hash, &gotit.AnnounceData{})\n\tif got != hash {\n\t\tt.Fatal([]byte(got))\n\t}\n}\n'
