package torrent

//verif:use help.go

import (
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/bits-and-blooms/bitset"
)

// c11set is a set over n pieces: the pieces named by open may or may not be in
// it, all others are as rest says.
func c11set(name string, n int, open []int, rest bool) (*bitset.BitSet, []bool) {
	bits := make([]bool, n)
	words := make([]uint64, (n+63)/64)
	for i := range bits {
		bits[i] = rest
		if rest {
			words[i/64] |= 1 << uint(i%64)
		}
	}
	for _, i := range open {
		if i >= n {
			continue
		}
		b := vs.Bool(name)
		bits[i] = b
		words[i/64] = words[i/64]&^(1<<uint(i%64)) | vs.IteU64(b, 1, 0)<<uint(i%64)
	}
	b := bitset.New(uint(n))
	copy(b.Bytes(), words)
	return b, bits
}

func c11all(n int) []int {
	var a []int
	for i := 0; i < n; i++ {
		a = append(a, i)
	}
	return a
}

func c11torrent(n int) *Torrent {
	return hOpen(n, 1, []int64{int64(n)}, false)
}

// Any state, any peer bitfield; the peer's may be longer or shorter.
func VerifC11_Choose() {
	n := 1 + vs.Choose("pieces", vs.Bound("pieces", 6, 8))
	c11choose(n, c11all(n), c11all(n+3))
}

// Torrents of more pieces, around the word boundaries of the sets.
func VerifC11_Words() {
	n := []int{63, 64, 65, 128, 130}[vs.Choose("pieces", 5)]
	open := []int{0, 62, 63, 64, 65, 127, 128, 129}
	c11choose(n, open, append(open, 130, 191))
}

func c11choose(n int, openReq, openHave []int) {
	m := n
	switch vs.Choose("peer", 4) {
	case 1:
		m = n + 3
	case 2:
		m = n / 2
	case 3:
		m = (n + 63) / 64 * 64
	}
	t := c11torrent(n)
	requested, req := c11set("requested", n, openReq, true)
	t.requested = requested
	have, has := c11set("have", m, openHave, false)
	i, ok := t.Next(have)
	for len(has) < n {
		has = append(has, false)
	}
	if !ok {
		for j := 0; j < n; j++ {
			vs.Assert(vs.Implies(has[j], req[j]), "piece-withheld")
		}
		vs.Reach("none")
	} else {
		vs.Assert(i < uint(n), "piece-beyond-torrent")
		c := vs.Concrete(int(i))
		vs.Assert(has[c], "peer-does-not-have-it")
		vs.Assert(!req[c], "handed-out-before")
		req[c] = true
		vs.Reach("some")
	}
	for j := 0; j < n; j++ {
		vs.Assert(t.requested.Test(uint(j)) == req[j], "marks")
	}
	for j := 0; j < m; j++ {
		vs.Assert(have.Test(uint(j)) == has[j], "peer-bitfield-changed")
	}
}

// A history of choices by peers with any bitfields, without looking inside.
func VerifC11_History() {
	n := 1 + vs.Choose("pieces", vs.Bound("pieces", 4, 6))
	t := c11torrent(n)
	given := make([]bool, n)
	for k := vs.Bound("choices", 4, 6); k > 0; k-- {
		have, has := c11set("have", n, c11all(n), false)
		i, ok := t.Next(have)
		if !ok {
			for j := 0; j < n; j++ {
				vs.Assert(vs.Implies(has[j], given[j]), "piece-withheld")
			}
			continue
		}
		vs.Assert(i < uint(n), "piece-beyond-torrent")
		c := vs.Concrete(int(i))
		vs.Assert(has[c], "peer-does-not-have-it")
		vs.Assert(!given[c], "handed-out-before")
		given[c] = true
		vs.Reach("some")
	}
}

// Peers choose at the same time.
func VerifC11_Concurrent() {
	vs.Races(true)
	vs.Preemptions(vs.Bound("preemptions", 4, 6))
	g := vs.Bound("peers", 2, 3)
	n := vs.Bound("pieces", 2, 3)
	t := c11torrent(n)
	given := make([]int, n)
	none := make([][]bool, 0)
	fin := make(chan bool, g)
	for k := 0; k < g; k++ {
		have, has := c11set("have", n, c11all(n), false)
		go func() {
			for j := 0; j < 2; j++ {
				i, ok := t.Next(have)
				vs.Atomically(func() {
					if !ok {
						none = append(none, has)
						return
					}
					vs.Assert(i < uint(n), "piece-beyond-torrent")
					c := vs.Concrete(int(i))
					vs.Assert(has[c], "peer-does-not-have-it")
					vs.Assert(given[c] == 0, "handed-out-twice")
					given[c]++
				})
			}
			fin <- true
		}()
	}
	for k := 0; k < g; k++ {
		<-fin
	}
	for _, has := range none {
		for j := 0; j < n; j++ {
			vs.Assert(vs.Implies(has[j], given[j] == 1), "piece-withheld")
		}
	}
	vs.Reach("end")
}
