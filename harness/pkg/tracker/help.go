package tracker

import (
	"context"
	"net"
	"net/netip"
	"time"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/internal/verif/fdial"
	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"go.uber.org/zap"
)

// hDgram stands in for a UDP socket: every datagram sent is recorded and gets
// the reply the harness gives; a read takes one datagram, cut to the buffer.
type hDgram struct {
	reply  func(k int, req []byte) ([]byte, error) // nil, nil: no reply
	sent   [][]byte
	queue  [][]byte
	errs   []error
	wfail  bool
	closed int
}

func (c *hDgram) Write(p []byte) (int, error) {
	if c.wfail && vs.Bool("writefails") {
		return 0, fk.ErrIO
	}
	req := append([]byte(nil), p...)
	k := len(c.sent)
	c.sent = append(c.sent, req)
	b, err := c.reply(k, req)
	if b != nil || err != nil {
		c.queue, c.errs = append(c.queue, b), append(c.errs, err)
	}
	return len(p), nil
}

func (c *hDgram) Read(p []byte) (int, error) {
	if len(c.queue) == 0 {
		return 0, fk.ErrTimeout
	}
	b, err := c.queue[0], c.errs[0]
	c.queue, c.errs = c.queue[1:], c.errs[1:]
	if err != nil {
		return 0, err
	}
	return copy(p, b), nil
}

func (c *hDgram) Close() error                       { c.closed++; return nil }
func (c *hDgram) LocalAddr() net.Addr                { return &net.UDPAddr{} }
func (c *hDgram) RemoteAddr() net.Addr               { return &net.UDPAddr{} }
func (c *hDgram) SetDeadline(t time.Time) error      { return nil }
func (c *hDgram) SetReadDeadline(t time.Time) error  { return nil }
func (c *hDgram) SetWriteDeadline(t time.Time) error { return nil }

func hUdp(c *hDgram) gotit.Tracker {
	fdial.Dial = func(network, address string) (net.Conn, error) {
		vs.Assert(network == "udp", "dialled-network")
		vs.Assert(address == "tracker.example:6969", "dialled-address")
		return c, nil
	}
	t, err := New("udp://tracker.example:6969", zap.NewNop())
	vs.Assert(err == nil, "udp-tracker-refused")
	return t
}

const hHash = "\x00\x01\xfe\xffabcdefghijklmnop"

func hData() *gotit.AnnounceData {
	return &gotit.AnnounceData{Downloaded: 1, Uploaded: 2, Left: 3, Port: 6881}
}

func hBe32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func hBe64(b []byte) uint64 { return uint64(hBe32(b))<<32 | uint64(hBe32(b[4:])) }

func hPut32(x uint32) []byte { return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)} }

func hCat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// hTid is the transaction id of a request.
func hTid(req []byte) []byte {
	vs.Assert(len(req) >= 16, "request-too-short")
	return req[12:16]
}

// hCompact asserts that the peers are the 6-byte entries of b, in order.
func hCompact(got []netip.AddrPort, b []byte) {
	n := len(b) / 6
	vs.Assert(len(got) == n, "peer-count")
	ok := true
	for i := 0; i < n; i++ {
		e := b[6*i : 6*i+6]
		ok = vs.And(ok, got[i].Addr().Is4())
		a := got[i].Addr().As4()
		ok = vs.And(ok, vs.EqBytes(a[:], e[:4]))
		ok = vs.And(ok, got[i].Port() == uint16(e[4])<<8|uint16(e[5]))
	}
	vs.Assert(ok, "peers")
}

// hWait is how long the tracker waits before the next announce.
func hWait(t gotit.Tracker) time.Duration {
	vs.FreezeClock(true)
	vs.U8("waited")
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error)
	vs.LastTimer()
	go func() { done <- t.WaitInterval(ctx) }()
	vs.Settle()
	d := vs.LastTimer()
	cancel()
	vs.Assert(<-done != nil, "wait-not-cancelled")
	return d
}

// hIs: d is the wanted duration, up to the time the call took.
func hIs(d, want time.Duration) bool {
	return vs.And(d > want-200*time.Millisecond, d <= want)
}
