PROPERTY='C03'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/elements.go', '\t\tif el == nil {\n\t\t\tcontinue\n\t\t}\n\t\tencoded += el.Encode()\n', '\t\tif el == nil || el.String() == "" {\n\t\t\tcontinue\n\t\t}\n\t\tencoded += el.Encode()\n')]
NEEDS='a list with an empty string in it'
BREAKS='the empty string is left out of the encoding'
DEMO='package bencode_test\n\nimport (\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/bencode"\n)\n\nfunc TestDemo(t *testing.T) {\n\ts := bencode.List(bencode.String("a"), bencode.String("")).Encode()\n\tif s != "l1:a0:e" {\n\t\tt.Fatal(s)\n\t}\n}\n'
