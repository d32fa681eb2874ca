PROPERTY='C23'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/udp_tracker.go','binary.Write(request, binary.BigEndian, data.Left)','binary.Write(request, binary.BigEndian, uint64(uint32(data.Left)))')]
NEEDS='more than 4 GiB left to download'
BREAKS='the announced number of bytes left loses its high half'
DEMO='''
package tracker_test

import (
	"context"
	"encoding/binary"
	"net"
	"testing"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	left := make(chan uint64, 1)
	go func() {
		b := make([]byte, 2048)
		for {
			n, a, err := c.ReadFrom(b)
			if err != nil {
				return
			}
			r := make([]byte, 26)
			copy(r[4:8], b[12:16])
			if n == 16 {
				r = r[:16]
			} else {
				binary.BigEndian.PutUint32(r, 1)
				left <- binary.BigEndian.Uint64(b[64:])
			}
			c.WriteTo(r, a)
		}
	}()
	tr, err := tracker.New("udp://"+c.LocalAddr().String(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	if _, err := tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{Left: 1<<40 + 5, Port: 1}); err != nil {
		t.Fatal(err)
	}
	if l := <-left; l != 1<<40+5 {
		t.Fatal("left", l)
	}
}
'''
