package torrent

import (
	"math"

	_ "github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func hMeta(name string, pieceLen int64, hashes []byte) *bencode.Metainfo {
	m := &bencode.Metainfo{Announce: "http://tracker/announce", InfoDictRaw: []byte("de")}
	m.Info.Name = name
	m.Info.PieceLength = pieceLen
	m.Info.Pieces = string(hashes)
	return m
}

func hHashes(n int) []byte {
	h := make([]byte, 20*n)
	for i := range h {
		h[i] = byte(i * 7)
	}
	return h
}

// hFits is the condition that n pieces of length pl are exactly what a torrent
// of the given length takes, computed without overflow; pl > 0, length >= 0.
func hFits(n int, pl, length int64) bool {
	if n == 0 {
		return length == 0
	}
	// length <= n*pl and length > (n-1)*pl
	upper := vs.Or(pl > math.MaxInt64/int64(n), length <= pl*int64(n))
	if n == 1 {
		return vs.And(length > 0, upper)
	}
	lower := vs.And(pl <= math.MaxInt64/int64(n-1), length > pl*int64(n-1))
	return vs.And(lower, upper)
}

func hBlock(index, offset uint32, data []byte) *util.PeerMessage {
	b := []byte{7, byte(index >> 24), byte(index >> 16), byte(index >> 8), byte(index),
		byte(offset >> 24), byte(offset >> 16), byte(offset >> 8), byte(offset)}
	return util.NewPeerMessage(append(b, data...))
}

// hOpen opens a torrent with the given file lengths (one: a single file), of n
// pieces.
func hOpen(n int, pl int64, lengths []int64, dir bool) *Torrent {
	m := hMeta("name", pl, hHashes(n))
	if !dir {
		m.Info.Length = lengths[0]
	} else {
		for i, l := range lengths {
			m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: []string{"f" + string(rune('0'+i))}, Length: int(l)})
		}
	}
	t, err := New(m, "/dl", zap.NewNop())
	if err != nil {
		panic("harness: torrent refused: " + err.Error())
	}
	return t
}
