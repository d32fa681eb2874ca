PROPERTY='C05'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/tag_parser.go', '\t\tslice := reflect.MakeSlice(ftype, len(values.Value), len(values.Value))\n\n\t\tfor i, v := range values.Value {\n\t\t\tlistTarget := slice.Index(i)\n\t\t\tif err := setField(listTarget, v, fieldName); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n', '\t\tslice := reflect.MakeSlice(ftype, 0, len(values.Value))\n\n\t\tlistTarget := reflect.New(ftype.Elem()).Elem()\n\t\tfor _, v := range values.Value {\n\t\t\tif err := setField(listTarget, v, fieldName); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tslice = reflect.Append(slice, listTarget)\n\t\t}\n')]
NEEDS='a list of dictionaries where a later one leaves out an optional key'
BREAKS='the element takes over the value of the one before'
DEMO='package bencode_test\n\nimport (\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/bencode"\n)\n\nfunc TestDemo(t *testing.T) {\n\tvar v struct {\n\t\tL []struct {\n\t\t\tA int `ben:"a,optional"`\n\t\t} `ben:"l"`\n\t}\n\tif err := bencode.Unmarshal([]byte("d1:lld1:ai7eedeee"), &v); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif len(v.L) != 2 || v.L[0].A != 7 || v.L[1].A != 0 {\n\t\tt.Fatal(v)\n\t}\n}\n'
