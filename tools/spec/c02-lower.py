PROPERTY='C02'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/parse.go', '\t\tdict[k] = v\n', '\t\tdict[strings.TrimSpace(k)] = v\n'), ('pkg/bencode/parse.go', '\t"math"\n', '\t"math"\n\t"strings"\n')]
NEEDS='a dictionary key with surrounding white space'
BREAKS='the key cannot be found under its own name'
DEMO='package bencode_test\n\nimport (\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/bencode"\n)\n\nfunc TestDemo(t *testing.T) {\n\tb, err := bencode.Parse([]byte("d2: ai1ee"))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif v := b.(*bencode.DictElement).Value(" a"); v == nil || v.Encode() != "i1e" {\n\t\tt.Fatal(v)\n\t}\n}\n'
