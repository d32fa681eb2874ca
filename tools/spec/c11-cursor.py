PROPERTY='C11'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go', '\tfor i, exists := t.requested.NextClear(0); exists; i, exists = t.requested.NextClear(i + 1) {\n\t\tif !have.Test(i) {\n\t\t\tcontinue\n\t\t}\n\n\t\tt.requested.Set(i)\n\t\treturn i, true\n', '\tfor i, exists := t.requested.NextClear(t.cursor); exists; i, exists = t.requested.NextClear(i + 1) {\n\t\tif !have.Test(i) {\n\t\t\tcontinue\n\t\t}\n\n\t\tt.requested.Set(i)\n\t\tt.cursor = i\n\t\treturn i, true\n'), ('pkg/torrent/torrent.go', '\trequestedMu *sync.Mutex\n', '\trequestedMu *sync.Mutex\n\tcursor      uint\n')]
NEEDS='a piece asked of one peer, then a peer that only has an earlier one'
BREAKS='the earlier piece is never handed out'
DEMO='package torrent_test\n\nimport (\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/bencode"\n\t"github.com/anivanovic/gotit/pkg/torrent"\n\t"github.com/bits-and-blooms/bitset"\n\t"go.uber.org/zap"\n)\n\nfunc TestDemo(t *testing.T) {\n\tm := &bencode.Metainfo{}\n\tm.Info.Name = "x"\n\tm.Info.PieceLength = 1\n\tm.Info.Length = 4\n\tm.Info.Pieces = string(make([]byte, 80))\n\ttr, err := torrent.New(m, t.TempDir(), zap.NewNop())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer tr.Close()\n\tif i, ok := tr.Next(bitset.New(4).Set(2)); !ok || i != 2 {\n\t\tt.Fatal(i, ok)\n\t}\n\tif i, ok := tr.Next(bitset.New(4).Set(1)); !ok || i != 1 {\n\t\tt.Fatal(i, ok)\n\t}\n}\n'
