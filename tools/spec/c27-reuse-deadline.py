PROPERTY='C27'; PKG='pkg/gotitnet'
EDITS=[('pkg/gotitnet/connection.go', 'func (c *TimeoutConn) WriteMsg(msg *util.PeerMessage) (int, error) {\n\tif err := c.setWriteDeadline(); err != nil {', 'func (c *TimeoutConn) WriteMsg(msg *util.PeerMessage) (int, error) {\n\tif msg.Type == util.KeepaliveMessageType {\n\t\treturn msg.Send(c.c)\n\t}\n\tif err := c.setWriteDeadline(); err != nil {')]
NEEDS='sending a keep-alive'
BREAKS='it is written without a deadline of its own, so it may wait for ever or fail at once'
DEMO='''
package gotitnet

import (
	"net"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	c := &TimeoutConn{c: a, timeout: 100 * time.Millisecond}
	done := make(chan struct{})
	go func() {
		c.WriteMsg(util.KeepalivePeerMessage)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("still writing after fifty timeouts")
	}
}
'''
