PROPERTY='C33'; PKG='pkg/download'
EDITS=[('pkg/download/manager.go','''	err := retry.Do(
		func() error {
			var err error
			announceData := gotit.AnnounceData{
				Downloaded: m.torrentStatus.Download(),
				Uploaded:   m.torrentStatus.Upload(),
				Left:       m.torrentStatus.Left(),
				Port:       m.listenPort,
			}
''','''	announceData := gotit.AnnounceData{
		Downloaded: m.torrentStatus.Download(),
		Uploaded:   m.torrentStatus.Upload(),
		Left:       m.torrentStatus.Left(),
		Port:       m.listenPort,
	}
	err := retry.Do(
		func() error {
			var err error
''')]
NEEDS='an announce that fails at first, and progress before it is tried again'
BREAKS='the tracker is told the counts of the first attempt'
DEMO='''
package download

import (
	"context"
	"net/http"
	"net/http/httptest"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	got := make(chan string, 10)
	var mng atomic.Pointer[Manager]
	n := 0
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n++
		if n == 1 {
			mng.Load().UpdateStatus(3, 5)
			w.WriteHeader(500)
			return
		}
		got <- r.URL.Query().Get("downloaded") + " " + r.URL.Query().Get("uploaded")
		w.Write([]byte("d8:intervali60e5:peerslee"))
	}))
	defer s.Close()
	m := &bencode.Metainfo{Announce: s.URL}
	m.Info.Name = "x"
	m.Info.PieceLength = 1
	m.Info.Length = 1
	m.Info.Pieces = string(make([]byte, 20))
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	mg := NewMng(tr, zap.NewNop(), 1, 1)
	mng.Store(mg)
	go mg.Download(ctx)
	select {
	case l := <-got:
		if l != "3 5" {
			t.Fatal(l)
		}
	case <-ctx.Done():
		t.Fatal("not announced")
	}
}
'''
