PROPERTY='C19'; PKG='pkg/stats'
EDITS=[('pkg/stats/stats.go', '\treturn float64(ts.Download()) / dur.Seconds() / mb\n', '\treturn float64(ts.Download() / uint64(dur.Seconds()+0.5) / mb)\n')]
NEEDS='printing progress within the first half second'
BREAKS='division by zero'
DEMO='''
package stats

import "testing"

func TestDemo(t *testing.T) {
	s := NewStats(10)
	s.AddDownload(5)
	pp := NewProgressPrinter(s)
	pp.Print()
	pp.Close()
}
'''
