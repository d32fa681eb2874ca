PROPERTY='C13'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/pieces_queue.go', '\tpq.failedMessages = append(pq.failedMessages, msg)\n', '\tif len(pq.failedMessages) < cap(pq.failedMessages) {\n\t\tpq.failedMessages = append(pq.failedMessages, msg)\n\t}\n')]
NEEDS='more than a hundred failed requests at a time'
BREAKS='the rest are lost'
DEMO='package torrent_test\n\nimport (\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/torrent"\n\t"github.com/anivanovic/gotit/pkg/util"\n)\n\nfunc TestDemo(t *testing.T) {\n\tq := torrent.NewPiecesQueue()\n\tfor i := uint32(0); i < 200; i++ {\n\t\tq.RequestFailed(util.CreatePieceMessage(i, 0, 1))\n\t}\n\tn := 0\n\tfor q.FailedPieceMessage() != nil {\n\t\tn++\n\t}\n\tif n != 200 {\n\t\tt.Fatal(n)\n\t}\n}\n'
