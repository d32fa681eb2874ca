PROPERTY='C19'; PKG='pkg/stats'
EDITS=[('pkg/stats/progress_bar.go', '\tp := float32(percentComplete) / 100.0\n\trepeatChars := int(float32(barSize) * p)', '\tp := float32(percentComplete+5) / 100.0\n\trepeatChars := int(float32(barSize) * p)')]
NEEDS='printing progress of a complete download'
BREAKS='the bar is longer than its space, which crashes'
DEMO='''
package stats

import "testing"

func TestDemo(t *testing.T) {
	s := NewStats(10)
	for i := 0; i < 10; i++ {
		s.AddDownload(1)
		NewProgressPrinter(s).Print()
	}
}
'''
