PROPERTY='C17'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go','''	return buf.Bytes()
}
''','''	return buf.Bytes()
}

var handshakes sync.Map

// handshakeFor creates the handshake of a torrent once.
func handshakeFor(hash []byte) []byte {
	key := fmt.Sprintf("%x", hash[:min(len(hash), 16)])
	if h, ok := handshakes.Load(key); ok {
		return h.([]byte)
	}
	h := createHandshake(hash)
	handshakes.Store(key, h)
	return h
}
'''),('pkg/peer/peer.go','''p.send(createHandshake(torrent.Hash))''','''p.send(handshakeFor(torrent.Hash))'''),('pkg/peer/peer.go','''	"net/netip"
	"time"
''','''	"net/netip"
	"sync"
	"time"
''')]
NEEDS='another torrent whose hash begins with the same 16 bytes'
BREAKS='peers are asked for the first one'
DEMO='''
package peer

import (
	"bytes"
	"io"
	"net"
	"net/netip"
	"testing"

	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	got := make(chan []byte, 2)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b := make([]byte, 68)
			io.ReadFull(c, b)
			got <- b
			c.Write(b)
		}
	}()
	for _, h := range []string{"aaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaabbbb"} {
		p := &Peer{logger: zap.NewNop(), AddrPort: netip.MustParseAddrPort(l.Addr().String())}
		p.Announce(&torrent.Torrent{Hash: []byte(h)})
		if b := <-got; !bytes.Equal(b[28:48], []byte(h)) {
			t.Fatalf("%q", b[28:48])
		}
		p.Close()
	}
}
'''
