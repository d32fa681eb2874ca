PROPERTY='C34'; PKG='pkg/download'
EDITS=[('pkg/download/manager.go','		if err := tracker.WaitInterval(ctx); err != nil {\n			return nil\n		}\n','		if err == nil {\n			if err := tracker.WaitInterval(ctx); err != nil {\n				return nil\n			}\n		}\n')]
NEEDS='a tracker that fails five times in a row'
BREAKS='it is asked again at once, and so every fifth time'
DEMO='''
package download

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	asked := make(chan time.Time, 100)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		asked <- time.Now()
		w.WriteHeader(500)
	}))
	defer s.Close()
	m := &bencode.Metainfo{Announce: s.URL}
	m.Info.Name = "x"
	m.Info.PieceLength = 1
	m.Info.Length = 1
	m.Info.Pieces = string(make([]byte, 20))
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	ctx, cancel := context.WithCancel(context.Background())
	time.AfterFunc(25*time.Second, cancel)
	NewMng(tr, zap.NewNop(), 1, 1).Download(ctx)
	var last time.Time
	for len(asked) > 0 {
		at := <-asked
		if at.Sub(last) < 900*time.Millisecond {
			t.Fatal("asked again after", at.Sub(last))
		}
		last = at
	}
}
'''
