PROPERTY='C28'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go', '\t\tfor _, e := range el {\n\t\t\tannounceSet.Add(e)', '\t\tfor _, e := range el {\n\t\t\tif announceSet.Contains(e + "/") {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tannounceSet.Add(e)')]
NEEDS='two trackers whose URLs differ in a slash at the end'
BREAKS='one of them is not used'
DEMO='''
package torrent

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{Announce: "http://a/x/", AnnounceList: [][]string{{"http://a/x"}}}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Length = 4
	m.Info.Pieces = string(make([]byte, 20))
	tr, err := New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	if !tr.Trackers.Contains("http://a/x/") || !tr.Trackers.Contains("http://a/x") {
		t.Fatal(tr.Trackers)
	}
}
'''
