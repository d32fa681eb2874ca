PROPERTY='C29'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go','''		p.Bitset = message.Bitfield()
''','''		if b := message.Bitfield(); p.Bitset != nil && p.Bitset.Any() {
			p.Bitset.InPlaceUnion(b)
		} else {
			p.Bitset = b
		}
''')]
NEEDS='a second bitfield, or one after a have message'
BREAKS='the peer is taken to have pieces its bitfield does not name'
DEMO='''
package peer

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	p := &Peer{logger: zap.NewNop()}
	first, second := make([]byte, 9), make([]byte, 9)
	first[0], second[0] = 5, 0x81
	for i := range second {
		if i > 0 {
			first[i] = 0x55
		}
	}
	p.handlePeerMessage(util.NewPeerMessage(first))
	p.handlePeerMessage(util.NewPeerMessage([]byte{5, 0, 0, 0, 0, 0, 0, 0, 0}))
	if p.Bitset.Any() {
		t.Fatal(p.Bitset)
	}
}
'''
