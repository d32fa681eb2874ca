PROPERTY='C22'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/udp_tracker.go', '\tactionCode := int(binary.BigEndian.Uint32(response[:4]))', '\tactionCode := int(binary.BigEndian.Uint16(response[2:4]))')]
NEEDS='a reply whose action only matches in its low half'
BREAKS='it is believed'
DEMO='''
package tracker_test

import (
	"context"
	"encoding/binary"
	"net"
	"testing"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
)


func TestDemo(t *testing.T) {
	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	go func() {
		b := make([]byte, 2048)
		for {
			n, a, err := c.ReadFrom(b)
			if err != nil {
				return
			}
			r := make([]byte, 26)
			copy(r[4:8], b[12:16])
			if n == 16 {
				r = r[:16]
			} else {
				binary.BigEndian.PutUint32(r, 0x70001)
			}
			c.WriteTo(r, a)
		}
	}()
	tr, err := tracker.New("udp://"+c.LocalAddr().String(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	ips, err := tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{Port: 1})
	if err == nil {
		t.Fatal("believed a reply with action 0x70001", ips)
	}
}
'''
