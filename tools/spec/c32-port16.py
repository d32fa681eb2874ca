PROPERTY='C32'; PKG='pkg/cmd'
EDITS=[('pkg/cmd/download.go','\tmng := download.NewMng(t, l, f.peerNum, f.listenPort)','\tmng := download.NewMng(t, l, f.peerNum, int(int16(f.listenPort)))')]
NEEDS='a port above 32767'
BREAKS='another port is used'
DEMO='''
package cmd

import (
	"context"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"testing"
	"time"

	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	got := make(chan string, 10)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		select {
		case got <- r.URL.Query().Get("port"):
		default:
		}
		w.Write([]byte("d8:intervali900e5:peers0:e"))
	}))
	defer s.Close()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	port := 51413
	l.Close()
	d := t.TempDir()
	u := s.URL + "/announce"
	torrent := filepath.Join(d, "x.torrent")
	os.WriteFile(torrent, []byte("d8:announce"+strconv.Itoa(len(u))+":"+u+"4:infod6:lengthi3e4:name1:f12:piece lengthi4e6:pieces20:aaaaaaaaaaaaaaaaaaaaee"), 0o600)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	go runDownload(ctx, zap.NewNop(), []string{torrent}, &flags{output: d, peerNum: 1, listenPort: port})
	select {
	case p := <-got:
		if p != "51413" {
			t.Fatal(p)
		}
	case <-ctx.Done():
		t.Fatal("no announce")
	}
}
'''
