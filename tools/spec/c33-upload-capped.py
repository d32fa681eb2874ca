PROPERTY='C33'; PKG='pkg/download'
EDITS=[('pkg/download/manager.go','				Uploaded:   m.torrentStatus.Upload(),','				Uploaded:   min(m.torrentStatus.Upload(), m.torrentStatus.Download()),')]
NEEDS='more bytes uploaded than downloaded'
BREAKS='trackers are told too small an upload'
DEMO='''
package download

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	left := make(chan string, 10)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		left <- r.URL.Query().Get("uploaded")
		w.Write([]byte("d8:intervali60e5:peerslee"))
	}))
	defer s.Close()
	m := &bencode.Metainfo{Announce: s.URL}
	m.Info.Name = "x"
	m.Info.PieceLength = 1
	m.Info.Length = 1
	m.Info.Pieces = string(make([]byte, 20))
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	mng := NewMng(tr, zap.NewNop(), 1, 1)
	mng.UpdateStatus(1, 5)
	go mng.Download(ctx)
	select {
	case l := <-left:
		if l != "5" {
			t.Fatal("uploaded", l)
		}
	case <-ctx.Done():
		t.Fatal("not announced")
	}
}
'''
