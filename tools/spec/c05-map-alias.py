PROPERTY='C05'; PKG='pkg/bencode'
EDITS=[('pkg/bencode/tag_parser.go', '\t\tm := reflect.MakeMap(ftype)\n\t\tfor k, v := range values.value {\n\t\t\tmapValue := reflect.New(ftype.Elem())\n\t\t\tif mapValue.Kind()', '\t\tm := reflect.MakeMap(ftype)\n\t\tmapValue := reflect.New(ftype.Elem())\n\t\tfor k, v := range values.value {\n\t\t\tif mapValue.Kind()')]
NEEDS='decoding into a map of structures with optional fields, or of slices'
BREAKS='a missing optional field takes the value of another entry'
DEMO='''
package bencode

import "testing"

func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		var v struct {
			M map[string]struct {
				A int `ben:"a,optional"`
			} `ben:"m"`
		}
		if err := Unmarshal([]byte("d1:md1:xd1:ai7ee1:ydeee"), &v); err != nil {
			t.Fatal(err)
		}
		if v.M["x"].A != 7 || v.M["y"].A != 0 {
			t.Fatal(v)
		}
	}
}
'''
