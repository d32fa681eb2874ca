PROPERTY='C04'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/tag_parser.go', '\tsha.Write(m.InfoDictRaw)\n', '\tsha.Write(m.InfoDictRaw[:min(len(m.InfoDictRaw), 1<<20)])\n')]
NEEDS='an info dictionary of more than 1 MiB'
BREAKS='the info-hash covers only the first MiB'
DEMO='package bencode_test\n\nimport (\n\t"crypto/sha1"\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/bencode"\n)\n\nfunc TestDemo(t *testing.T) {\n\traw := make([]byte, 1<<20+1)\n\tm := bencode.Metainfo{InfoDictRaw: raw}\n\tif want := sha1.Sum(raw); string(m.Hash()) != string(want[:]) {\n\t\tt.Fatal("wrong hash")\n\t}\n}\n'
