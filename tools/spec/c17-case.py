PROPERTY='C17'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go', '\t\tprotocolSignature == string(bittorrentProto[:]) &&', '\t\tstrings.EqualFold(protocolSignature, string(bittorrentProto[:])) &&'), ('pkg/peer/peer.go', '\t"net/netip"\n\t"time"', '\t"net/netip"\n\t"strings"\n\t"time"')]
NEEDS='a handshake with the protocol string in other letters'
BREAKS='it is accepted'
DEMO='''
package peer

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	hash := bytes.Repeat([]byte{7}, 20)
	h := createHandshake(hash)
	if !isHandshakeValid(h, hash, ClientId) {
		t.Fatal("own handshake refused")
	}
	h[1] = 'b'
	if isHandshakeValid(h, hash, ClientId) {
		t.Fatal("accepted", string(h[1:20]))
	}
}
'''
