PROPERTY='C31'; PKG='pkg/download'
EDITS=[('pkg/download/manager.go', '\t\t\tm.logger.Error("tracker announce failed",\n\t\t\t\tzap.String("url", url),\n\t\t\t\tzap.Error(err))\n\t\t} else {', '\t\t\tm.logger.Error("tracker announce failed",\n\t\t\t\tzap.String("url", url),\n\t\t\t\tzap.Error(err))\n\t\t\treturn err\n\t\t} else {')]
NEEDS='a tracker that fails for a while before it answers'
BREAKS='it is given up, and the download never completes'
DEMO='package download\n\nimport (\n\t"context"\n\t"net/http"\n\t"net/http/httptest"\n\t"sync/atomic"\n\t"testing"\n\t"time"\n\n\t"github.com/anivanovic/gotit"\n\t"github.com/anivanovic/gotit/pkg/bencode"\n\t"github.com/anivanovic/gotit/pkg/torrent"\n\t"go.uber.org/zap"\n)\n\nvar _ = gotit.AnnounceData{}\n\nfunc TestDemo(t *testing.T) {\n\tvar n atomic.Int32\n\ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {\n\t\tif n.Add(1) <= 5 {\n\t\t\tw.WriteHeader(500)\n\t\t\treturn\n\t\t}\n\t\tw.Write([]byte("d8:intervali60e5:peerslee"))\n\t}))\n\tdefer s.Close()\n\tm := &bencode.Metainfo{Announce: s.URL}\n\tm.Info.Name = "x"\n\tm.Info.PieceLength = 1\n\tm.Info.Length = 1\n\tm.Info.Pieces = string(make([]byte, 20))\n\ttr, err := torrent.New(m, t.TempDir(), zap.NewNop())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)\n\tdefer cancel()\n\tmng := NewMng(tr, zap.NewNop(), 1, 1)\n\tgo func() {\n\t\tfor ctx.Err() == nil && n.Load() < 6 {\n\t\t\ttime.Sleep(100 * time.Millisecond)\n\t\t}\n\t\tcancel()\n\t}()\n\tmng.Download(ctx)\n\tif n.Load() < 6 {\n\t\tt.Fatal("tracker given up after", n.Load(), "attempts")\n\t}\n}\n'
