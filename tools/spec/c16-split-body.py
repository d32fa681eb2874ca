PROPERTY='C16'; PKG='pkg/gotitnet'
EDITS=[('pkg/gotitnet/connection.go', '\tif _, err := io.ReadFull(c.c, buf); err != nil {\n\t\treturn nil, err\n\t}\n\treturn buf, nil', '\tif n, err := io.ReadFull(c.c, buf); err != nil && n < 48 {\n\t\treturn nil, err\n\t}\n\treturn buf, nil')]
NEEDS='a handshake stream that ends after 48 to 67 bytes'
BREAKS='a handshake cut short is returned as complete, filled up with zeros'
DEMO='''
package gotitnet_test

import (
	"net"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/gotitnet"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		c.Write(make([]byte, 60))
		c.Close()
	}()
	c, err := gotitnet.NewTimeoutConn("tcp", l.Addr().String(), 5*time.Second)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	if got, err := c.ReadPeerHandshake(); err == nil {
		t.Fatalf("a handshake of 60 bytes accepted: %q", got)
	}
}
'''
