PROPERTY='C17'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go','bytes.Equal(sentHash, hash)','bytes.EqualFold(sentHash, hash)')]
NEEDS='a handshake whose info-hash differs from ours only in bytes that are letters of the other case'
BREAKS='a peer serving another torrent is accepted'
DEMO='''
package peer_test

import (
	"bytes"
	"crypto/sha1"
	"io"
	"net"
	"net/netip"
	"strconv"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	// an info dictionary whose hash is valid UTF-8 with a letter in it
	var raw, other []byte
	for i := 0; ; i++ {
		raw = []byte("d1:xi" + strconv.Itoa(i) + "ee")
		h := sha1.Sum(raw)
		for k, c := range h {
			if c >= 'a' && c <= 'z' {
				o := append([]byte{}, h[:]...)
				o[k] -= 32
				if bytes.EqualFold(o, h[:]) {
					other = o
				}
			}
		}
		if other != nil {
			break
		}
	}
	m := &bencode.Metainfo{InfoDictRaw: raw}
	m.Info.Name = "x"
	m.Info.PieceLength = 4
	m.Info.Length = 4
	m.Info.Pieces = "01234567890123456789"
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		hs := make([]byte, 68)
		io.ReadFull(c, hs)
		copy(hs[28:48], other)
		c.Write(hs)
	}()
	p := peer.NewPeer(netip.MustParseAddrPort(l.Addr().String()), tr, torrent.NewPiecesQueue(), make(chan *util.PeerMessage, 1), zap.NewNop())
	if err := p.Announce(tr); err == nil {
		t.Fatal("accepted a peer of another torrent")
	}
}
'''
