package torrent

//verif:use help.go

import (
	"github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/bencode"
	"go.uber.org/zap"
)

func c06check(m *bencode.Metainfo, hashes []byte, ok bool, length int64) {
	t, err := New(m, "/dl", zap.NewNop())
	vs.Assert((t == nil) == (err != nil), "neither-torrent-nor-error")
	if err != nil {
		vs.Assert(!ok, "consistent-torrent-refused")
		vs.Assert(len(ffs.Files) == 0, "file-created-for-refused-torrent")
		vs.Assert(len(ffs.Dirs) == 0, "directory-created-for-refused-torrent")
		vs.Reach("refused")
		return
	}
	vs.Reach("accepted")
	vs.Assert(ok, "inconsistent-torrent-accepted")
	n := len(hashes) / 20
	vs.Assert(int64(t.Length) == length, "total-length")
	vs.Assert(int64(t.PieceLength) == m.Info.PieceLength, "piece-length")
	vs.Assert(t.PiecesNum == n, "number-of-pieces")
	vs.Assert(len(t.Pieces) == n, "number-of-hashes")
	vs.Assert(t.EmptyBitset().Len() == uint(n), "bitset-length")
	for i := 0; i < n; i++ {
		h := hashes[20*i : 20*i+20]
		vs.Assert(t.Pieces[i].CheckHash(h), "piece-hash-lost")
		vs.Assert(t.Pieces[i].Index() == i, "piece-index")
		x := vs.Bytes("other", 20)
		vs.Assert(vs.Implies(t.Pieces[i].CheckHash(x), vs.EqBytes(x, h)), "piece-hash-differs")
	}
}

// A single file torrent.
func VerifC06_Single() {
	n := vs.Choose("hashes", vs.Bound("piece hashes", 5, 40))
	extra := []int{0, 1, 19}[vs.Choose("extra", 3)]
	pl, length := vs.I64("piecelength"), vs.I64("length")
	vs.Assume(length != 0)
	hashes := vs.Bytes("hash", 20*n+extra)
	m := hMeta("name", pl, hashes)
	m.Info.Length = length
	ok := vs.And(extra == 0, vs.And(pl > 0, vs.And(length > 0, hFits(n, pl, length))))
	c06check(m, hashes, ok, length)
}

// A torrent with a list of files.
func VerifC06_Files() {
	n := vs.Choose("hashes", vs.Bound("piece hashes", 4, 6))
	extra := []int{0, 10}[vs.Choose("extra", 2)]
	pl := vs.I64("piecelength")
	hashes := vs.Bytes("hash", 20*n+extra)
	m := hMeta("name", pl, hashes)
	nf := vs.Choose("files", vs.Bound("files", 3, 4))
	ok := vs.And(extra == 0, pl > 0)
	var length uint64
	for i := 0; i < nf; i++ {
		l := vs.I64("filelength")
		var path []string
		for j := vs.Choose("elements", 3); j > 0; j-- {
			path = append(path, "f"+string(rune('a'+3*i+j)))
		}
		m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: path, Length: int(l)})
		length += uint64(l)
		ok = vs.And(ok, vs.And(l >= 0, vs.And(len(path) > 0, int64(length) >= 0)))
	}
	ok = vs.And(ok, hFits(n, pl, int64(length)))
	if nf == 0 && n == 0 {
		// nothing to download: accepted or refused
		vs.Assert(!vs.Panics(func() { New(m, "/dl", zap.NewNop()) }), "panic")
		return
	}
	c06check(m, hashes, ok, int64(length))
	for i := range ffs.Files {
		vs.Assert(i < nf, "more-files-than-listed")
	}
}

// The list of piece hashes alone.
func VerifC06_Hashes() {
	k := vs.Choose("length", vs.Bound("hash bytes", 65, 130))
	b := vs.Bytes("hash", k)
	ps, err := NewPieces(b)
	if k%20 != 0 {
		vs.Assert(err != nil, "odd-hash-list-accepted")
		vs.Reach("refused")
		return
	}
	vs.Assert(err == nil, "hash-list-refused")
	vs.Assert(len(ps) == k/20, "number-of-hashes")
	for i, p := range ps {
		vs.Assert(p.Index() == i, "piece-index")
		vs.Assert(p.CheckHash(b[20*i:20*i+20]), "piece-hash-lost")
	}
}

// More pieces than a byte, or two, can count.
func VerifC06_Many() {
	n := []int{255, 256, 257, 300, 65537}[vs.Choose("hashes", vs.Bound("counts", 4, 5))]
	hashes := make([]byte, 20*n)
	for i := 0; i < n; i++ {
		hashes[20*i], hashes[20*i+1], hashes[20*i+2] = byte(i), byte(i>>8), byte(i>>16)
	}
	at := []int{0, 1, 255, n - 1}[vs.Choose("piece", 4)]
	if at >= n {
		return
	}
	x := vs.Bytes("hash", 20)
	copy(hashes[20*at:], x)
	m := hMeta("name", 3, hashes)
	m.Info.Length = int64(3*n - vs.IntRange("short", 0, 2))
	vs.MaxSteps(50_000_000)
	t, err := New(m, "/dl", zap.NewNop())
	vs.Assert(err == nil, "consistent-torrent-refused")
	vs.Assert(t.PiecesNum == n, "number-of-pieces")
	vs.Assert(len(t.Pieces) == n, "number-of-hashes")
	vs.Assert(t.EmptyBitset().Len() == uint(n), "bitset-length")
	for i := 0; i < n; i++ {
		vs.Assert(t.Pieces[i].CheckHash(hashes[20*i:20*i+20]), "piece-hash-lost")
		vs.Assert(t.Pieces[i].Index() == i, "piece-index")
	}
	vs.Reach("accepted")
}
