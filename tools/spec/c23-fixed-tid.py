PROPERTY='C23'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/udp_tracker.go', '\ttransactionId := createTransactionId()\n\t// TODO propagate download stats\n\trequest := createAnnounce(', '\ttransactionId := t.transactionId\n\t// TODO propagate download stats\n\trequest := createAnnounce('), ('pkg/tracker/udp_tracker.go', '\ttransactionId := createTransactionId()\n\trequest := new(bytes.Buffer)', '\ttransactionId := createTransactionId()\n\tt.transactionId = transactionId\n\trequest := new(bytes.Buffer)')]
NEEDS='nothing more than an announce'
BREAKS='the announce request repeats the transaction id of the connect request'
DEMO='''
package tracker_test

import (
	"bytes"
	"context"
	"net"
	"testing"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"go.uber.org/zap"
)


func TestDemo(t *testing.T) {
	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	ids := make(chan []byte, 10)
	go func() {
		b := make([]byte, 2048)
		for {
			n, a, err := c.ReadFrom(b)
			if err != nil {
				return
			}
			ids <- append([]byte(nil), b[12:16]...)
			r := make([]byte, 26)
			copy(r[4:8], b[12:16])
			if n == 16 {
				r = r[:16]
			} else {
				r[3] = 1
			}
			c.WriteTo(r, a)
		}
	}()
	tr, err := tracker.New("udp://"+c.LocalAddr().String(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{Port: 1})
	if bytes.Equal(<-ids, <-ids) {
		t.Fatal("transaction id used twice")
	}
}
'''
