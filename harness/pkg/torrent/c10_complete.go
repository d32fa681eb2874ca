package torrent

//verif:use help.go
//verif:use c08_place.go

import (
	"github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
)

// Any sequence of blocks and disk failures.
func VerifC10_History() { c10history(1, vs.Bound("blocks", 3, 4)) }

// The same with data spanning two files.
func VerifC10_Files() { c10history(2, vs.Bound("blocks", 2, 3)) }

func c10history(nf, blocks int) {
	t, pl, _, n, total := c08layout(nf, vs.Bound("pieces", 2, 3), true, true)
	ffs.WriteFails = vs.Bound("disk failures", 1, 2)
	ended := make([]bool, n) // the block ending the piece was written
	vs.Assert(!t.Done(), "complete-at-start")
	for k := blocks; k > 0; k-- {
		idx, off := vs.U32("index"), vs.U32("offset")
		data := vs.Bytes("data", 1+vs.Choose("datalength", 2))
		failed := ffs.Failed
		if idx < uint32(n) {
			idx = uint32(vs.Concrete(int(idx)))
		}
		c08store(t, hBlock(idx, off, data))
		pos := int64(0)
		for i := 0; i < n; i++ {
			size := pl
			if i == n-1 {
				size = total - pos
			}
			pos += pl
			end := vs.And(idx == uint32(i), int64(off)+int64(len(data)) == size)
			ended[i] = vs.Or(ended[i], vs.And(end, ffs.Failed == failed))
		}
		all := true
		for _, e := range ended {
			all = vs.And(all, e)
		}
		done := t.Done()
		vs.Assert(vs.Implies(done, all), "complete-too-early")
		vs.Assert(vs.Implies(all, done), "not-complete")
		if done {
			vs.Reach("complete")
		}
		if ffs.Failed > failed {
			vs.Reach("disk failure")
		}
	}
}

// Marking pieces one by one: complete exactly with the last of them.
func VerifC10_Marks() {
	n := 1 + vs.Choose("pieces", vs.Bound("pieces", 4, 6))
	t := hOpen(n, 1, []int64{int64(n)}, false)
	var marked uint64
	for k := vs.Bound("marks", 5, 7); k > 0; k-- {
		i := vs.IntRange("piece", 0, n-1)
		t.SetDownloaded(uint(i))
		marked |= 1 << uint(i)
		vs.Assert(t.Done() == (marked == 1<<uint(n)-1), "complete-iff-all-marked")
	}
	vs.Reach("marked")
}

// Peers ask for completion while blocks are being stored.
func VerifC10_Concurrent() {
	vs.Races(true)
	vs.Preemptions(vs.Bound("preemptions", 3, 4))
	t := hOpen(2, 2, []int64{3}, false)
	ch := make(chan *util.PeerMessage, 2)
	fin := make(chan bool)
	go func() {
		t.WritePiece(ch, stats.NewStats(3))
		fin <- true
	}()
	sent := false
	go func() {
		was := false
		for i := 0; i < 2; i++ {
			d := t.Done()
			vs.Assert(d || !was, "completion-withdrawn")
			was = d
			vs.Assert(!d || sent, "complete-too-early")
		}
		fin <- true
	}()
	ch <- hBlock(0, 0, []byte{1, 2})
	sent = true
	ch <- hBlock(1, 0, []byte{3})
	close(ch)
	<-fin
	<-fin
	vs.Assert(t.Done(), "not-complete")
	vs.Reach("end")
}

// Many pieces: complete with the last of them, whichever it is.
func VerifC10_Many() {
	sizes := []int{63, 64, 65, 129, 300, vs.Bound("pieces of a large torrent", 1000, 5000)}
	n := sizes[vs.Choose("pieces", len(sizes))]
	vs.MaxSteps(50_000_000)
	last := []int{0, 1, 62, 63, 64, n / 2, n - 2, n - 1}[vs.Choose("last", 8)]
	if last >= n {
		return
	}
	t := hOpen(n, 1, []int64{int64(n)}, false)
	for i := 0; i < n; i++ {
		if i == last {
			continue
		}
		t.SetDownloaded(uint(i))
		if i%50 == 0 || i >= n-3 {
			vs.Assert(!t.Done(), "complete-too-early")
		}
	}
	vs.Assert(!t.Done(), "complete-too-early")
	t.SetDownloaded(uint(last))
	vs.Assert(t.Done(), "not-complete")
	vs.Reach("complete")
}
