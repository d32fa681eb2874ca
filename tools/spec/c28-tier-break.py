PROPERTY='C28'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go','''			announceSet.Add(e)
''','''			if !announceSet.Add(e) {
				break
			}
''')]
NEEDS='a tier of announce-list that repeats a known tracker in front of a new one'
BREAKS='trackers listed behind a repeated one in the same tier are never contacted'
DEMO='''
package torrent_test

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{Announce: "http://a", AnnounceList: [][]string{{"http://a", "http://b"}, {"http://c"}}}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Length = 4
	m.Info.Pieces = "01234567890123456789"
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	for _, u := range []string{"http://a", "http://b", "http://c"} {
		if !tr.Trackers.Contains(u) {
			t.Error(u, "missing")
		}
	}
}
'''
