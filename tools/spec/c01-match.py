PROPERTY='C01'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/parse.go', '\tif s.peek() == r {\n', '\tif s.bencode[s.current] == r {\n')]
NEEDS='an input that ends right where a delimiter is expected'
BREAKS='the decoder panics on truncated input'
DEMO='package bencode_test\n\nimport (\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/bencode"\n)\n\nfunc TestDemo(t *testing.T) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tt.Fatal(r)\n\t\t}\n\t}()\n\tbencode.Parse([]byte("5"))\n\tbencode.Parse([]byte("i5"))\n}\n'
