PROPERTY='C19'; PKG='pkg/stats'
EDITS=[('pkg/stats/stats.go','''	atomic.AddUint64(&ts.download, size)
''','''	atomic.StoreUint64(&ts.download, ts.Download()+size)
''')]
NEEDS='two additions at the same time, one between the load and the store of the other'
BREAKS='downloaded bytes are lost from the count'
DEMO='''
package stats_test

import (
	"sync"
	"testing"

	"github.com/anivanovic/gotit/pkg/stats"
)

func TestDemo(t *testing.T) {
	for try := 0; try < 20; try++ {
		s := stats.NewStats(1 << 40)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 50000; i++ {
					s.AddDownload(3)
				}
			}()
		}
		wg.Wait()
		if s.Download() != 8*50000*3 {
			t.Fatal(s.Download())
		}
	}
}
'''
