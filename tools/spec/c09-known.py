PROPERTY='C09'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go','''	hasher := sha1.New()
''','''	if t.downloaded != nil {
		t.downloadedMu.Lock()
		known := t.downloaded.Test(uint(index))
		t.downloadedMu.Unlock()
		if known {
			// no need to hash what is there
			return true
		}
	}

	hasher := sha1.New()
''')]
NEEDS='other data for a piece that is already downloaded'
BREAKS='unverified bytes overwrite a correct piece'
DEMO='''
package torrent_test

import (
	"crypto/sha1"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Length = 8
	a, b := sha1.Sum([]byte("abcd")), sha1.Sum([]byte("efgh"))
	m.Info.Pieces = string(a[:]) + string(b[:])
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	tr.SetDownloaded(0)
	if tr.CheckPiece([]byte("evil"), 0) || !tr.CheckPiece([]byte("abcd"), 0) {
		t.Fatal("unverified data accepted")
	}
}
'''
