PROPERTY='C26'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go','''	if err == nil {
		p.updateLastMsgSent()
	} else if n > 0 {''','''	p.updateLastMsgSent()
	if err != nil && n > 0 {''')]
NEEDS='a message that times out on a connection that was idle before'
BREAKS='the message that was not sent counts as sent, and the keep-alive that is due does not go out'
DEMO='''
package peer

import (
	"net"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/gotitnet"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	c, err := gotitnet.NewTimeoutConn("tcp", l.Addr().String(), -time.Second)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	p := &Peer{logger: zap.NewNop(), conn: c, piecesQueue: torrent.NewPiecesQueue()}
	p.lastMsgSent = time.Now().Add(-118 * time.Second)
	if _, err := p.sendMessage(util.CreateInterestedMessage()); !isTimeout(err) {
		t.Fatal(err)
	}
	if time.Since(p.lastMsgSent) < 117*time.Second {
		t.Fatal("a message that was not sent counts")
	}
}
'''
