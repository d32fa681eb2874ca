PROPERTY='C32'; PKG='pkg/logger'
EDITS=[('pkg/logger/logger.go','\tif level == "silent" {','\tif strings.HasPrefix("silent", level) && level != "" {')]
NEEDS='a level that is a beginning of the word silent'
BREAKS='it is taken for silent in place of being refused'
DEMO='''
package logger

import "testing"

func TestDemo(t *testing.T) {
	for _, l := range []string{"s", "silen", "sil"} {
		if log, err := NewCommandLine(l, "text"); err == nil || log != nil {
			t.Fatalf("%q accepted", l)
		}
	}
}
'''
