PROPERTY='C15'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go', '\t\tp.PeerStatus.Interested = false\n', '\t\tp.PeerStatus.Interested = false\n\t\tp.PeerStatus.Choked = true\n')]
NEEDS='a not interested message after the peer was unchoked'
BREAKS='it changes the choke state too'
DEMO='''
package peer

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	p := &Peer{logger: zap.NewNop(), ClientStatus: &Status{}, PeerStatus: &Status{Interested: true}}
	p.handlePeerMessage(util.NewPeerMessage([]byte{3}))
	if p.PeerStatus.Choked || p.PeerStatus.Interested {
		t.Fatal(*p.PeerStatus)
	}
}
'''
