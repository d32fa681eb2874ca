PROPERTY='C22'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/udp_tracker.go','if transactionId != responseId {','if uint16(transactionId) != uint16(responseId) {')]
NEEDS='a reply whose transaction id agrees with ours in the low 16 bits only'
BREAKS='a reply to another request is believed'
UDP='''
package tracker_test

import (
	"context"
	"encoding/binary"
	"net"
	"testing"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
)
'''
DEMO=UDP+'''
func TestDemo(t *testing.T) {
	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	go func() {
		b := make([]byte, 2048)
		for {
			n, a, err := c.ReadFrom(b)
			if err != nil {
				return
			}
			r := make([]byte, 26)
			copy(r[4:8], b[12:16])
			if n == 16 {
				r = r[:16]
			} else {
				binary.BigEndian.PutUint32(r, 1)
				r[5] ^= 0x10
			}
			c.WriteTo(r, a)
		}
	}()
	tr, err := tracker.New("udp://"+c.LocalAddr().String(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	ips, err := tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{Port: 1})
	if err == nil || len(ips) != 0 {
		t.Fatal("believed the reply to another request", ips)
	}
}
'''
