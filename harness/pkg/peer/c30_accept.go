package peer

//verif:use help.go

import (
	"github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
)

func c30piece(i, o uint32, data []byte) *util.PeerMessage {
	m := append([]byte{7}, hBE(i)...)
	m = append(m, hBE(o)...)
	return util.NewPeerMessage(append(m, data...))
}

// Every whole piece that is the published content is accepted, stored and
// counted, in any order.
func VerifC30_WholePiece() {
	pl := vs.Bound("piece bytes", 3, 4)
	n := vs.Bound("pieces", 3, 3)
	last := 1 + vs.Choose("last", pl)
	content := vs.Bytes("content", pl*(n-1)+last)
	t := hTorrent(pl, content)
	ch := make(chan *util.PeerMessage, 8)
	p, _ := hPeer(t, ch)
	st := stats.NewStats(uint64(len(content)))
	left := []int{0, 1, 2}
	for len(left) > 0 {
		k := vs.Choose("next", len(left))
		i := left[k]
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
		e := (i + 1) * pl
		if e > len(content) {
			e = len(content)
		}
		got := len(ch)
		p.handlePeerMessage(c30piece(uint32(i), 0, content[i*pl:e]))
		vs.Assert(len(ch) == got+1, "correct-piece-refused")
	}
	close(ch)
	t.WritePiece(ch, st)
	vs.Assert(t.Done(), "not-counted")
	vs.Assert(st.Download() == uint64(len(content)), "not-counted-in-statistics")
	disk := make([]byte, len(content))
	for _, w := range ffs.Files[0].Writes {
		copy(disk[w.Off:], w.Data)
	}
	vs.Assert(vs.EqBytes(disk, content), "not-stored")
	vs.Reach("stored")
}

// A block that is a part of a piece only.
func VerifC30_PartOfPiece() {
	content := vs.Bytes("content", 4)
	t := hTorrent(4, content)
	ch := make(chan *util.PeerMessage, 8)
	p, _ := hPeer(t, ch)
	cut := 1 + vs.Choose("cut", 3)
	p.handlePeerMessage(c30piece(0, 0, content[:cut]))
	p.handlePeerMessage(c30piece(0, uint32(cut), content[cut:]))
	close(ch)
	t.WritePiece(ch, stats.NewStats(4))
	vs.Assert(t.Done(), "part-of-piece-refused")
	vs.Reach("parts")
}

// The writer is busy: blocks wait for it and none is lost.
func VerifC30_BusyWriter() {
	content := vs.Bytes("content", 6)
	t := hTorrent(2, content)
	ch := make(chan *util.PeerMessage, vs.Choose("capacity", 3))
	st := stats.NewStats(6)
	fin := make(chan bool, 3)
	vs.Preemptions(vs.Bound("preemptions", 2, 3))
	vs.Races(true)
	vs.Timers(1) // it may take long
	peers := 1 + vs.Choose("peers", 2)
	for k := 0; k < peers; k++ {
		go func() {
			p, _ := hPeer(t, ch)
			for i := k; i < 3; i += peers {
				p.handlePeerMessage(c30piece(uint32(i), 0, content[2*i:2*i+2]))
			}
			fin <- true
		}()
	}
	wrote := make(chan bool)
	go func() {
		t.WritePiece(ch, st)
		wrote <- true
	}()
	for k := 0; k < peers; k++ {
		<-fin
	}
	close(ch)
	<-wrote
	vs.Assert(t.Done(), "not-counted")
	vs.Assert(st.Download() == 6, "not-counted-in-statistics")
	disk := make([]byte, 6)
	for _, w := range ffs.Files[0].Writes {
		copy(disk[w.Off:], w.Data)
	}
	vs.Assert(vs.EqBytes(disk, content), "not-stored")
	vs.Reach("stored")
}
