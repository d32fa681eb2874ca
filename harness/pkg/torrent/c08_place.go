package torrent

//verif:use help.go

import (
	"github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
)

// c08layout chooses a layout: n pieces, files of any length. Narrow: any piece
// length up to a bound; wide: some piece lengths, files of any length.
func c08layout(nf, maxPieces int, wide bool, one bool) (t *Torrent, pl int64, lengths []int64, n int, total int64) {
	n = 1 + vs.Choose("pieces", maxPieces)
	dir := nf > 1 || vs.Choose("directory", 2) == 1
	maxLen := 1 << 60
	if wide {
		pls := []int64{16384, 1, 3, 1 << 31, 1<<40 + 1, 1 << 58}
		if one {
			pl, maxLen = 4, 1<<8
		} else {
			pl = pls[vs.Choose("piecelength", vs.Bound("wide piece lengths", 3, 6))]
		}
	} else {
		bits := uint(vs.Bound("bits of the piece length", 10, 20))
		pl = int64(vs.IntRange("piecelength", 1, 1<<bits))
		maxLen = 1 << (bits + 2)
	}
	for i := 0; i < nf; i++ {
		l := int64(vs.IntRange("filelength", 0, maxLen))
		lengths = append(lengths, l)
		total += l
	}
	vs.Assume(total > 0)
	vs.Assume(hFits(n, pl, total))
	t = hOpen(n, pl, lengths, dir)
	return
}

func c08store(t *Torrent, m ...*util.PeerMessage) {
	ch := make(chan *util.PeerMessage, len(m))
	for _, x := range m {
		ch <- x
	}
	close(ch)
	t.WritePiece(ch, stats.NewStats(0))
}

// c08check checks the writes made from the given marks on against a block of
// data at torrent position pos (inside the torrent, or not at all).
func c08check(lengths []int64, marks []int, fits bool, pos int64, data []byte) {
	vs.Assert(len(ffs.Files) == len(lengths), "harness-files")
	count := make([]int, len(data))
	starts := int64(0)
	place, inside := true, true
	for i, f := range ffs.Files {
		for _, w := range f.Writes[marks[i]:] {
			if len(w.Data) == 0 {
				continue
			}
			vs.Assert(fits, "written-beyond-the-torrent")
			inside = vs.And(inside, vs.And(w.Off >= 0, w.Off+int64(len(w.Data)) <= lengths[i]))
			for k, b := range w.Data {
				// the bytes of the block tell where they belong
				j := int(b) - 1
				vs.Assert(j >= 0 && j < len(data), "wrong-byte")
				if k == 0 || j != int(w.Data[k-1]) {
					place = vs.And(place, starts+w.Off+int64(k) == pos+int64(j))
				}
				count[j]++
			}
		}
		starts += lengths[i]
	}
	vs.Assert(inside, "written-beyond-a-file")
	vs.Assert(place, "byte-at-wrong-place")
	for j := range count {
		vs.Assert(count[j] <= 1, "byte-written-twice")
		vs.Assert(vs.Implies(fits, count[j] == 1), "byte-not-written")
	}
}

func c08marks() []int {
	var m []int
	for _, f := range ffs.Files {
		m = append(m, len(f.Writes))
	}
	return m
}

func c08block(t *Torrent, pl int64, lengths []int64, n int, total int64, size int) {
	idx, off := vs.U32("index"), vs.U32("offset")
	data := make([]byte, vs.Choose("datalength", size+1))
	for j := range data {
		data[j] = byte(j + 1)
	}
	marks := c08marks()
	c08store(t, hBlock(idx, off, data))
	vs.Assert(len(ffs.Dirs) <= 10 && len(ffs.Other) == 0, "other-files-touched")
	if idx >= uint32(n) {
		c08check(lengths, marks, false, 0, data)
		vs.Reach("piece beyond the torrent")
		return
	}
	i := int64(vs.Concrete(int(idx)))
	pos := i*pl + int64(off)
	fits := pos+int64(len(data)) <= total
	if fits {
		vs.Reach("stored")
	} else {
		vs.Reach("refused")
	}
	c08check(lengths, marks, fits, pos, data)
}

// One block, any layout.
func VerifC08_Block() {
	nf := 1 + vs.Choose("files", vs.Bound("files", 3, 4))
	t, pl, lengths, n, total := c08layout(nf, vs.Bound("pieces", 2, 4), false, false)
	c08block(t, pl, lengths, n, total, vs.Bound("block bytes", 3, 6))
}

// One block, files of any length.
func VerifC08_Wide() {
	nf := 1 + vs.Choose("files", vs.Bound("files", 3, 4))
	t, pl, lengths, n, total := c08layout(nf, vs.Bound("pieces", 2, 4), true, false)
	c08block(t, pl, lengths, n, total, vs.Bound("block bytes", 3, 6))
}

// Several blocks one after the other.
func VerifC08_Blocks() {
	nf := 1 + vs.Choose("files", 2)
	t, pl, lengths, n, total := c08layout(nf, vs.Bound("pieces", 2, 3), true, true)
	for k := vs.Bound("blocks", 2, 3); k > 0; k-- {
		c08block(t, pl, lengths, n, total, 2)
	}
}

// Files and pieces beyond the reach of 32 bits.
func VerifC08_Far() {
	const g = 1 << 30
	layouts := [][]int64{
		{2*g + 10}, {5 * g}, {1, 4*g + 10, 7}, {2*g - 1, 3}, {4*g - 2, 4}, {0, 5*g + 1}, {3 * g, 3 * g, 3 * g},
	}
	lengths := layouts[vs.Choose("layout", vs.Bound("layouts", 5, len(layouts)))]
	var total int64
	for _, l := range lengths {
		total += l
	}
	pl := []int64{2 * g, 4*g - 1, 1 << 40}[vs.Choose("piecelength", vs.Bound("far piece lengths", 2, 3))]
	n := int((total + pl - 1) / pl)
	t := hOpen(n, pl, lengths, len(lengths) > 1 || vs.Choose("directory", 2) == 1)
	c08block(t, pl, lengths, n, total, 3)
}
