PROPERTY='C32'; PKG='pkg/cmd'
EDITS=[('pkg/cmd/bencode.go','\t\tappContext.log.Fatal("parse torrent file", zap.Error(err))','\t\tappContext.log.Error("parse torrent file", zap.Error(err))')]
NEEDS='the bencode command on a malformed file'
BREAKS='it ends with status zero'
DEMO='''
package cmd

import (
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	bin := filepath.Join(t.TempDir(), "gotit")
	if out, err := exec.Command("go", "build", "-o", bin, "../../cmd/gotit").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	f := filepath.Join(t.TempDir(), "x.torrent")
	os.WriteFile(f, []byte("d8:announce3:abe"), 0o600)
	if err := exec.Command(bin, "bencode", f).Run(); err == nil {
		t.Fatal("status zero")
	}
}
'''
