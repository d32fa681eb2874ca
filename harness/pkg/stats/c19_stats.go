package stats

import (
	"github.com/anivanovic/gotit/internal/verif/vs"
)

// Any torrent size, any amount downloaded.
func VerifC19_Amounts() {
	size, a, b, u := vs.U64("size"), vs.U64("a"), vs.U64("b"), vs.U64("uploaded")
	vs.Assume(a <= 1<<62)
	vs.Assume(b <= 1<<62)
	s := NewStats(size)
	vs.Assert(vs.And(s.Download() == 0, vs.And(s.Upload() == 0, s.Left() == size)), "start")
	s.AddDownload(a)
	s.AddUpload(u)
	s.AddDownload(b)
	d := a + b
	vs.Assert(s.Download() == d, "downloaded")
	vs.Assert(s.Upload() == u, "uploaded")
	vs.Assert(s.Left() == vs.IteU64(d >= size, 0, size-d), "left")
	s.AddDownload(0)
	vs.Assert(s.Download() == d, "downloaded")
	vs.Reach("end")
}

// The percentage, for any torrent size.
func VerifC19_Range() {
	size, d := vs.U64("size"), vs.U64("downloaded")
	s := NewStats(size)
	s.AddDownload(d)
	p := s.PercentCompleted()
	vs.Assert(vs.And(p >= 0, p <= 100), "percentage-range")
	vs.Assert(vs.Implies(vs.And(size > 0, d >= size), p == 100), "percentage-at-the-end")
	vs.Reach("end")
}

// The percentage is that of the torrent, to the next integer, for some torrent
// sizes and any amount downloaded.
func VerifC19_Percent() {
	sizes := []uint64{1, 2, 3, 7, 100, 101, 199, 1 << 14, 999983, 1<<32 + 15, 1 << 40, 1<<53 + 1, 1<<62 + 5}
	size := sizes[vs.Choose("size", vs.Bound("sizes", 8, len(sizes)))]
	d := vs.U64("downloaded")
	s := NewStats(size)
	s.AddDownload(d)
	p := s.PercentCompleted()
	vs.Assert(vs.And(p >= 0, p <= 100), "percentage-range")
	vs.Assert(vs.Implies(d >= size, p == 100), "percentage-at-the-end")
	vs.Assert(vs.Implies(d == 0, p == 0), "percentage-at-the-start")
	if size < 1<<50 && d < size {
		q := uint64(p) * size
		vs.Assert(vs.And(q <= 100*d+size, q+size >= 100*d), "percentage-wrong")
	}
	vs.Reach("end")
}

// Printing, whatever was downloaded.
func VerifC19_Print() {
	sizes := []uint64{0, 1, 3, 1 << 14, 1 << 40}
	size := sizes[vs.Choose("size", vs.Bound("sizes", 3, len(sizes)))]
	d := vs.U64("downloaded")
	s := NewStats(size)
	s.AddDownload(d)
	pp := NewProgressPrinter(s)
	pp.Print()
	pp.Close()
	vs.Reach("printed")
}

// Printing at every percentage, and what is printed of the rest at any count.
func VerifC19_PrintEach() {
	sizes := []uint64{100, 7, 3, 1 << 33}
	size := sizes[vs.Choose("size", vs.Bound("print sizes", 2, len(sizes)))]
	at := uint64(vs.Choose("hundredths", 102))
	s := NewStats(size)
	pp := NewProgressPrinter(s)
	pp.Print()
	s.AddDownload(size / 100 * at)
	s.AddDownload(size % 100 * at / 100)
	if at == 101 {
		s.AddDownload(size + vs.U64("more")%1000)
	}
	s.AddUpload(vs.U64("uploaded"))
	s.AddPeer()
	s.AddTracker()
	pp.Print()
	pp.Close()
	vs.Reach("printed")
}

// Counters under concurrent updates.
func VerifC19_Concurrent() {
	vs.Races(true)
	vs.Preemptions(vs.Bound("preemptions", 4, 6))
	s := NewStats(4) // less than is added
	fin := make(chan bool)
	n := vs.Bound("goroutines", 2, 3)
	for g := 0; g < n; g++ {
		k := uint64(1 + g)
		go func() {
			s.AddPeer()
			s.AddDownload(k)
			s.AddUpload(2 * k)
			s.AddTracker()
			l := s.Left()
			vs.Assert(l <= 4-k, "left")
			s.AddDownload(k)
			s.RemovePeer()
			fin <- true
		}()
	}
	vs.Assert(s.PeerNum() <= uint64(n), "peers")
	p := s.PercentCompleted()
	vs.Assert(p >= 0 && p <= 100, "percentage-range")
	for g := 0; g < n; g++ {
		<-fin
	}
	sum := uint64(n * (n + 1) / 2)
	vs.Assert(s.Download() == 2*sum, "downloaded")
	vs.Assert(s.Upload() == 2*sum, "uploaded")
	vs.Assert(s.PeerNum() == 0, "peers")
	vs.Assert(s.TrackerNum() == uint64(n), "trackers")
	vs.Reach("end")
}

// Any history of updates from one goroutine.
func VerifC19_Counts() {
	s := NewStats(vs.U64("size"))
	peers, trackers := 0, 0
	for k := vs.Bound("updates", 5, 8); k > 0; k-- {
		switch vs.Choose("update", 4) {
		case 0:
			s.AddPeer()
			peers++
		case 1:
			if peers > 0 {
				s.RemovePeer()
				peers--
			}
		case 2:
			s.AddTracker()
			trackers++
		case 3:
			if trackers > 0 {
				s.RemoveTracker()
				trackers--
			}
		}
		vs.Assert(s.PeerNum() == uint64(peers), "peers")
		vs.Assert(s.TrackerNum() == uint64(trackers), "trackers")
		vs.Assert(s.Download() == 0 && s.Upload() == 0, "transfers")
	}
	vs.Reach("end")
}
