PROPERTY='C06'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/piece.go', '\t\tresult[index] = piece\n', '\t\tresult[index&0xff] = piece\n')]
NEEDS='a torrent of more than 256 pieces'
BREAKS='the hash of a piece is that of another one'
DEMO='package torrent_test\n\nimport (\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/bencode"\n\t"github.com/anivanovic/gotit/pkg/torrent"\n\t"go.uber.org/zap"\n)\n\nfunc TestDemo(t *testing.T) {\n\tm := &bencode.Metainfo{}\n\tm.Info.Name = "x"\n\tm.Info.PieceLength = 1\n\tm.Info.Length = 300\n\tb := make([]byte, 300*20)\n\tfor i := 0; i < 300; i++ {\n\t\tb[i*20] = byte(i)\n\t\tb[i*20+1] = byte(i >> 8)\n\t}\n\tm.Info.Pieces = string(b)\n\ttr, err := torrent.New(m, t.TempDir(), zap.NewNop())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer tr.Close()\n\tfor i, p := range tr.Pieces {\n\t\tif !p.CheckHash(b[i*20 : i*20+20]) {\n\t\t\tt.Fatal("piece", i)\n\t\t}\n\t}\n}\n'
