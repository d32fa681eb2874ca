PROPERTY='C13'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/pieces_queue.go','''	pq.failedMessages = append(pq.failedMessages, msg)
	pq.failedMu.Unlock()
''','''	defer pq.failedMu.Unlock()
	for _, m := range pq.failedMessages {
		if m.Index() == msg.Index() {
			return
		}
	}
	pq.failedMessages = append(pq.failedMessages, msg)
''')]
NEEDS='requests for two blocks of the same piece that both fail before either is retried'
BREAKS='the second block is never requested again, so its piece never completes'
DEMO='''
package torrent_test

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	q := torrent.NewPiecesQueue()
	q.RequestFailed(util.CreatePieceMessage(3, 0, 100))
	q.RequestFailed(util.CreatePieceMessage(3, 100, 100))
	seen := map[uint32]bool{}
	for m := q.FailedPieceMessage(); m != nil; m = q.FailedPieceMessage() {
		seen[m.Offset()] = true
	}
	if !seen[0] || !seen[100] {
		t.Fatal(seen)
	}
}
'''
