package peer

import (
	"context"
	"io"
	"net"
	"time"

	"github.com/anivanovic/gotit/internal/verif/fdial"
	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/bits-and-blooms/bitset"
)

var _ = io.EOF

type hReq struct{ i, o, l uint32 }

// hRemote is the remote side of a session: it decides, message by message,
// what arrives, and watches what is sent.
type hRemote struct {
	hand   []byte
	hpos   int
	shaken bool

	buf []byte // incoming, not yet read
	out []byte // outgoing, not yet parsed

	event     func(r *hRemote) ([]byte, error) // next incoming message
	sent      func(r *hRemote, msg []byte)     // a whole message was sent
	beforeOut func(r *hRemote)                 // a write begins
	failWrite func(r *hRemote) bool
	failErr   error
	wfailed   func(r *hRemote, msg []byte)
	Closed    int
}

func (r *hRemote) Read(p []byte) (int, error) {
	if r.hpos < len(r.hand) {
		n := copy(p, r.hand[r.hpos:])
		r.hpos += n
		return n, nil
	}
	if len(r.buf) == 0 {
		m, err := r.event(r)
		if err != nil {
			return 0, err
		}
		r.buf = append([]byte{0, 0, 0, byte(len(m))}, m...)
	}
	n := copy(p, r.buf)
	r.buf = r.buf[n:]
	return n, nil
}

func (r *hRemote) Write(p []byte) (int, error) {
	if !r.shaken {
		r.shaken = true
		return len(p), nil
	}
	if r.beforeOut != nil {
		r.beforeOut(r)
	}
	if r.failWrite != nil && r.failWrite(r) {
		r.wfailed(r, append(append([]byte{}, r.out...), p...))
		r.out = nil
		if r.failErr != nil {
			return 0, r.failErr
		}
		return 0, fk.ErrIO
	}
	r.out = append(r.out, p...)
	for len(r.out) >= 4 {
		n := int(r.out[0])<<24 | int(r.out[1])<<16 | int(r.out[2])<<8 | int(r.out[3])
		if len(r.out) < 4+n {
			break
		}
		m := r.out[4 : 4+n]
		r.out = r.out[4+n:]
		r.sent(r, m)
	}
	return len(p), nil
}

func (r *hRemote) Close() error                       { r.Closed++; return nil }
func (r *hRemote) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (r *hRemote) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (r *hRemote) SetDeadline(t time.Time) error      { return nil }
func (r *hRemote) SetReadDeadline(t time.Time) error  { return nil }
func (r *hRemote) SetWriteDeadline(t time.Time) error { return nil }

// hConnect connects p to r through the handshake.
func hConnect(p *Peer, t *torrent.Torrent, r *hRemote) {
	r.hand = append([]byte{19}, "BitTorrent protocol"...)
	r.hand = append(r.hand, make([]byte, 8)...)
	r.hand = append(r.hand, t.Hash...)
	r.hand = append(r.hand, make([]byte, 20)...)
	fdial.Dial = func(network, address string) (net.Conn, error) { return r, nil }
	err := p.Announce(t)
	vs.Assert(err == nil, "harness-connect")
}

// hSource hands out the pieces of the torrent and ends the session when there
// are none left to ask for.
type hSource struct {
	t      *torrent.Torrent
	nils   int
	max    int
	cancel context.CancelFunc
	given  int
}

func (s *hSource) Next(b *bitset.BitSet) (uint, bool) {
	i, ok := s.t.Next(b)
	if ok {
		s.given++
		return i, ok
	}
	s.nils++
	if s.nils >= s.max {
		s.cancel()
	}
	return i, ok
}

func hU32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func hPieceMsg(i, o uint32, data []byte) []byte {
	m := append([]byte{7}, hBE(i)...)
	m = append(m, hBE(o)...)
	return append(m, data...)
}
