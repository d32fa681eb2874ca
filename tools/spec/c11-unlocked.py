PROPERTY='C11'; PKG='pkg/torrent'
EDITS=[('pkg/torrent/torrent.go','''		t.requested.Set(i)
		return i, true
''','''		// let others look at the set
		t.requestedMu.Unlock()
		t.requestedMu.Lock()
		t.requested.Set(i)
		return i, true
''')]
NEEDS='two peers asking for the next piece at the same time, one while the other has let go of the lock'
BREAKS='the same piece is handed out twice'
DEMO='''
package torrent_test

import (
	"sync"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 1
	m.Info.Length = 4000
	m.Info.Pieces = string(make([]byte, 4000*20))
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	have := tr.EmptyBitset().Complement()
	var mu sync.Mutex
	count := map[uint]int{}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i, ok := tr.Next(have)
				if !ok {
					return
				}
				mu.Lock()
				count[i]++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for i := uint(0); i < 4000; i++ {
		if count[i] != 1 {
			t.Fatal("piece", i, "handed out", count[i], "times")
		}
	}
}
'''
