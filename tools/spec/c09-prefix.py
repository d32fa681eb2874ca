PROPERTY='C09'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go', '\treturn bytes.Equal(t.Pieces[index].sha1, hash)\n', '\treturn bytes.HasPrefix(hash, bytes.TrimRight(t.Pieces[index].sha1, "\\x00"))\n')]
NEEDS='a published hash that ends in zero bytes'
BREAKS='data whose hash differs in those bytes is taken for the piece'
DEMO='package torrent_test\n\nimport (\n\t"crypto/sha1"\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/torrent"\n)\n\nfunc TestDemo(t *testing.T) {\n\tfor i := 0; i < 4096; i++ {\n\t\tdata := []byte{byte(i), byte(i >> 8)}\n\t\th := sha1.Sum(data)\n\t\tif h[19] == 0 {\n\t\t\tcontinue\n\t\t}\n\t\th[19] = 0\n\t\tpieces, err := torrent.NewPieces(h[:])\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\ttr := &torrent.Torrent{Pieces: pieces}\n\t\tif tr.CheckPiece(data, 0) {\n\t\t\tt.Fatal("data with another hash accepted")\n\t\t}\n\t\treturn\n\t}\n}\n'
