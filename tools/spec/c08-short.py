PROPERTY='C08'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go', '\t\tif _, err := t.OsFiles[fileIdx].WriteAt(data[:toWrite], int64(piecePoss)); err != nil {\n', '\t\tif _, err := t.OsFiles[fileIdx].WriteAt(data[:toWrite], int64(int32(piecePoss))); err != nil {\n')]
NEEDS='data for a position beyond 2 GiB in a file of a multi-file torrent'
BREAKS='it is not written, or to another place'
DEMO='package torrent_test\n\nimport (\n\t"os"\n\t"path/filepath"\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/bencode"\n\t"github.com/anivanovic/gotit/pkg/stats"\n\t"github.com/anivanovic/gotit/pkg/torrent"\n\t"github.com/anivanovic/gotit/pkg/util"\n\t"go.uber.org/zap"\n)\n\nfunc TestDemo(t *testing.T) {\n\tm := &bencode.Metainfo{}\n\tm.Info.Name = "x"\n\tm.Info.PieceLength = 1 << 31\n\tm.Info.Files = []bencode.TorrentFile{{Path: []string{"a"}, Length: 1<<31 + 10}}\n\tm.Info.Pieces = string(make([]byte, 40))\n\tdir := t.TempDir()\n\ttr, err := torrent.New(m, dir, zap.NewNop())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer tr.Close()\n\tch := make(chan *util.PeerMessage, 1)\n\tch <- util.NewPeerMessage([]byte{7, 0, 0, 0, 1, 0, 0, 0, 0, \'h\', \'i\'})\n\tclose(ch)\n\ttr.WritePiece(ch, stats.NewStats(1))\n\tf, err := os.Open(filepath.Join(dir, "x", "a"))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer f.Close()\n\tb := make([]byte, 2)\n\tif _, err := f.ReadAt(b, 1<<31); err != nil || string(b) != "hi" {\n\t\tt.Fatal(string(b), err)\n\t}\n}\n'
