PROPERTY='C32'; PKG='pkg/cmd'
EDITS=[('pkg/cmd/download.go','\tif !stat.IsDir() {','\tif stat.Mode().IsRegular() {')]
NEEDS='an output that is neither a directory nor a regular file'
BREAKS='it is not refused'
DEMO='''
package cmd

import (
	"context"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	p := filepath.Join(d, "pipe")
	if err := syscall.Mkfifo(p, 0o600); err != nil {
		t.Skip(err)
	}
	torrent := filepath.Join(d, "x.torrent")
	os.WriteFile(torrent, []byte("garbage"), 0o600)
	err := runDownload(context.Background(), zap.NewNop(), []string{torrent}, &flags{output: p})
	if err == nil || !strings.Contains(err.Error(), "directory") {
		t.Fatal(err)
	}
}
'''
