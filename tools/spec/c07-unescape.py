PROPERTY='C07'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go','''	path := filepath.Join(root, t.Name)
''','''	name := t.Name
	if unescaped, err := url.PathUnescape(name); err == nil {
		name = unescaped
	}
	path := filepath.Join(root, name)
'''),('pkg/torrent/torrent.go','''	"math"
	"os"
''','''	"math"
	"net/url"
	"os"
''')]
NEEDS='a torrent name with percent-escaped dots and slashes'
BREAKS='a file is created outside the download directory'
DEMO='''
package torrent_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	top := t.TempDir()
	dir := filepath.Join(top, "dl")
	if err := os.Mkdir(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	m := &bencode.Metainfo{}
	m.Info.Name = "%2e%2e%2fevil"
	m.Info.PieceLength = 4
	m.Info.Length = 4
	m.Info.Pieces = "01234567890123456789"
	tr, err := torrent.New(m, dir, zap.NewNop())
	if err == nil {
		tr.Close()
	}
	if _, err := os.Stat(filepath.Join(top, "evil")); err == nil {
		t.Fatal("file outside the download directory")
	}
}
'''
