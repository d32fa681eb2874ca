PROPERTY='C09'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go','''	hasher.Write(data)
''','''	if t.PieceLength > 0 && len(data) > t.PieceLength {
		// some clients pad their last block
		data = data[:t.PieceLength]
	}
	hasher.Write(data)
''')]
NEEDS='a block message with a correct piece and further bytes behind it'
BREAKS='unverified bytes pass the hash check and overwrite the next piece'
DEMO='''
package torrent_test

import (
	"crypto/sha1"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Length = 8
	a, b := sha1.Sum([]byte("abcd")), sha1.Sum([]byte("efgh"))
	m.Info.Pieces = string(a[:]) + string(b[:])
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	if !tr.CheckPiece([]byte("abcd"), 0) || tr.CheckPiece([]byte("abcdevil"), 0) {
		t.Fatal("unverified data accepted")
	}
}
'''
