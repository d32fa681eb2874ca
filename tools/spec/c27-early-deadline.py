PROPERTY='C27'; PKG='pkg/gotitnet'
EDITS=[('pkg/gotitnet/connection.go','c.c.SetReadDeadline(time.Now().Add(c.timeout))','c.c.SetReadDeadline(time.Now().Add(c.timeout).Truncate(time.Second))')]
NEEDS='a read that starts at a time of day where the deadline is not a whole second, with an answer later than the rounded one'
BREAKS='reads time out up to a second early, at once for timeouts under a second'
DEMO='''
package gotitnet_test

import (
	"net"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/gotitnet"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		for i := 0; i < 10; i++ {
			time.Sleep(300 * time.Millisecond)
			c.Write([]byte{0, 0, 0, 1, 5})
		}
	}()
	c, err := gotitnet.NewTimeoutConn("tcp", l.Addr().String(), 800*time.Millisecond)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	for i := 0; i < 10; i++ {
		if _, err := c.ReadPeerMessage(); err != nil {
			t.Fatal(i, err)
		}
	}
}
'''
