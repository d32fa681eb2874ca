PROPERTY='C13'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/pieces_queue.go', '\tpq.failedMu.Lock()\n\tdefer pq.failedMu.Unlock()\n\n\tif len(pq.failedMessages) == 0 {\n\t\treturn nil\n\t}', '\tif len(pq.failedMessages) == 0 {\n\t\treturn nil\n\t}\n\tpq.failedMu.Lock()\n\tdefer pq.failedMu.Unlock()\n')]
NEEDS='two peers that ask for the only failed request at the same time'
BREAKS='the second finds the queue empty and crashes'
FLAGS='-race '
DEMO='''
package torrent

import (
	"sync"
	"testing"

	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	q := NewPiecesQueue()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				if m := q.FailedPieceMessage(); m == nil {
					q.RequestFailed(util.KeepalivePeerMessage)
				}
			}
		}()
	}
	wg.Wait()
}
'''
