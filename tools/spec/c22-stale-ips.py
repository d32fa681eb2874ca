PROPERTY='C22'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/udp_tracker.go', '\t\tt.ips, err = t.readAnnounce(response, transactionId)\n\t\treturn err', '\t\tips, err := t.readAnnounce(response, transactionId)\n\t\tif len(ips) > 0 {\n\t\t\tt.ips = ips\n\t\t}\n\t\treturn err')]
NEEDS='an announce answered with peers, and then one answered with none'
BREAKS='the peers of the earlier announce are returned again'
DEMO='''
package tracker_test

import (
	"context"
	"encoding/binary"
	"net"
	"testing"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
)


func TestDemo(t *testing.T) {
	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	go func() {
		b := make([]byte, 2048)
		size := 26
		for {
			n, a, err := c.ReadFrom(b)
			if err != nil {
				return
			}
			r := make([]byte, 26)
			copy(r[4:8], b[12:16])
			if n == 16 {
				r = r[:16]
			} else {
				binary.BigEndian.PutUint32(r, 1)
				r = r[:size]
				size = 20
			}
			c.WriteTo(r, a)
		}
	}()
	tr, err := tracker.New("udp://"+c.LocalAddr().String(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	for want := 1; want >= 0; want-- {
		ips, err := tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{Port: 1})
		if err != nil || len(ips) != want {
			t.Fatal(ips, err)
		}
	}
}
'''
