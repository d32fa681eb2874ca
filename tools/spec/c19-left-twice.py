PROPERTY='C19'; PKG='pkg/stats'
EDITS=[('pkg/stats/stats.go','''	download := ts.Download()
	if download >= ts.torrentSize {
		return 0
	}
	return ts.torrentSize - download''','''	if ts.Download() >= ts.torrentSize {
		return 0
	}
	return ts.torrentSize - ts.Download()''')]
NEEDS='bytes counted between the comparison and the subtraction, passing the size of the torrent'
BREAKS='nearly 2^64 bytes are said to be left'
DEMO='''
package stats_test

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/stats"
)

func TestDemo(t *testing.T) {
	for try := 0; try < 2000000; try++ {
		s := stats.NewStats(1)
		done := make(chan bool)
		go func() {
			s.AddDownload(2)
			close(done)
		}()
		for i := 0; ; i++ {
			l := s.Left()
			if l > 1 {
				t.Fatal("left", l)
			}
			if l == 0 {
				break
			}
		}
		<-done
	}
}
'''
