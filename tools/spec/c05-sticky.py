PROPERTY='C05'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/tag_parser.go', '\tfor i := 0; i < val.NumField(); i++ {\n\t\tf := val.Field(i)\n', '\toptional := false\n\tfor i := 0; i < val.NumField(); i++ {\n\t\tf := val.Field(i)\n'), ('pkg/bencode/tag_parser.go', '\t\toptional := false\n\t\tkind', '\t\tkind')]
NEEDS='a missing required field after an optional one'
BREAKS='decoding succeeds though a required field is missing'
DEMO='package bencode_test\n\nimport (\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/bencode"\n)\n\nfunc TestDemo(t *testing.T) {\n\tvar v struct {\n\t\tA int `ben:"a,optional"`\n\t\tB int `ben:"b"`\n\t}\n\tif err := bencode.Unmarshal([]byte("d1:ai1ee"), &v); err == nil {\n\t\tt.Fatal("required field missing, no error")\n\t}\n}\n'
