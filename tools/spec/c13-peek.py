PROPERTY='C13'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/pieces_queue.go', '\tpq.failedMu.Lock()\n\tdefer pq.failedMu.Unlock()\n\n\tif len(pq.failedMessages) == 0 {\n\t\treturn nil\n\t}\n\treq := pq.failedMessages[len(pq.failedMessages)-1]\n', '\tpq.failedMu.Lock()\n\tn := len(pq.failedMessages)\n\tpq.failedMu.Unlock()\n\tif n == 0 {\n\t\treturn nil\n\t}\n\n\tpq.failedMu.Lock()\n\tdefer pq.failedMu.Unlock()\n\tif n > len(pq.failedMessages) {\n\t\treturn nil\n\t}\n\treq := pq.failedMessages[n-1]\n')]
NEEDS='a failure being reported while another peer looks for one to retry'
BREAKS='the wrong request is taken off: one is retried twice, another lost'
DEMO='''
package torrent_test

import (
	"sync"
	"testing"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	q := torrent.NewPiecesQueue()
	const g, n = 8, 20000
	var mu sync.Mutex
	seen := map[uint32]int{}
	var wg sync.WaitGroup
	for k := 0; k < g; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var got []uint32
			for i := 0; i < n; i++ {
				q.RequestFailed(util.CreatePieceMessage(uint32(k*n+i), 0, 1))
				if m := q.FailedPieceMessage(); m != nil {
					got = append(got, m.Index())
				}
			}
			mu.Lock()
			for _, i := range got {
				seen[i]++
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	for m := q.FailedPieceMessage(); m != nil; m = q.FailedPieceMessage() {
		seen[m.Index()]++
	}
	for i := uint32(0); i < g*n; i++ {
		if seen[i] != 1 {
			t.Fatal("request", i, "retried", seen[i], "times")
		}
	}
}
'''
