PROPERTY='C10'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go', '\tt.downloaded.Set(pieceIndx)\n', '\tt.downloaded.Flip(pieceIndx)\n')]
NEEDS='a piece that is received twice'
BREAKS='it counts as missing again'
DEMO='package torrent_test\n\nimport (\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/bencode"\n\t"github.com/anivanovic/gotit/pkg/stats"\n\t"github.com/anivanovic/gotit/pkg/torrent"\n\t"github.com/anivanovic/gotit/pkg/util"\n\t"go.uber.org/zap"\n)\n\nfunc TestDemo(t *testing.T) {\n\tm := &bencode.Metainfo{}\n\tm.Info.Name = "x"\n\tm.Info.PieceLength = 1\n\tm.Info.Length = 1\n\tm.Info.Pieces = string(make([]byte, 20))\n\ttr, err := torrent.New(m, t.TempDir(), zap.NewNop())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer tr.Close()\n\tch := make(chan *util.PeerMessage, 2)\n\tch <- util.NewPeerMessage([]byte{7, 0, 0, 0, 0, 0, 0, 0, 0, \'h\'})\n\tch <- util.NewPeerMessage([]byte{7, 0, 0, 0, 0, 0, 0, 0, 0, \'h\'})\n\tclose(ch)\n\ttr.WritePiece(ch, stats.NewStats(1))\n\tif !tr.Done() {\n\t\tt.Fatal("not done")\n\t}\n}\n'
