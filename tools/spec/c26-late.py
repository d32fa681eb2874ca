PROPERTY='C26'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go','if time.Since(p.lastMsgSent).Minutes() >= 1.9 {','if int(time.Since(p.lastMsgSent).Minutes()) > 2 {')]
NEEDS='a connection idle for more than two minutes'
BREAKS='the keep-alive comes only after three minutes, when peers have dropped the connection'
DEMO='''
package peer

import (
	"net"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/gotitnet"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	got := make(chan int, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		b := make([]byte, 100)
		c.SetReadDeadline(time.Now().Add(time.Second))
		n, _ := c.Read(b)
		got <- n
	}()
	c, err := gotitnet.NewTimeoutConn("tcp", l.Addr().String(), time.Second)
	if err != nil {
		t.Fatal(err)
	}
	p := &Peer{conn: c, lastMsgSent: time.Now().Add(-125 * time.Second), logger: zap.NewNop()}
	if err := p.checkKeepAlive(); err != nil {
		t.Fatal(err)
	}
	if n := <-got; n != 4 {
		t.Fatal("no keep-alive after more than two minutes")
	}
}
'''
