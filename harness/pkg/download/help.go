package download

import (
	"bytes"
	"context"
	"crypto/sha1"
	"io"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"time"

	"github.com/anivanovic/gotit/internal/verif/fdial"
	"github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/gosuri/uilive"
	"go.uber.org/zap"
)

// hWorld is everything outside the client: trackers, peers, disk, terminal.
type hWorld struct {
	t       *torrent.Torrent
	content []byte
	pl      int
	limit   int

	kind   map[string]int                  // how the peer behaves
	kindAt func(address string, n int) int // the same, by connection
	dials  map[string]int
	open   map[string]int
	opens  int // addresses connected now

	answer    func(url string, n int) []byte // body of the n-th answer
	udp       func(host string, n int) hUdp  // the n-th answer of a UDP tracker
	unreach   int                            // how often UDP trackers cannot be reached
	trackers  int                            // sockets of UDP trackers open
	asked     map[string]int
	step      func()            // anything happened
	delivered func()            // a whole piece was read
	shown     func(text []byte) // something was displayed
	announce  func(p []byte)    // an announce of a UDP tracker
	asking    func(u *url.URL)  // an announce of an HTTP tracker
	ended     bool              // Download returned
	passed    map[int]bool      // pieces that were handed on
}

const (
	hGood    = iota // serves the torrent
	hRefuse         // cannot be connected to
	hWrong          // answers with another torrent
	hSilent         // does not answer
	hIdle           // connects and sends nothing
	hDies           // disconnects when asked for a piece
	hStalls         // never answers a request
	hChokes         // chokes when asked for a piece, unchokes later
	hFades          // serves one piece and disconnects when asked for more
	hSlow           // answers in parts, after timeouts
	hCorrupt        // answers with wrong data
	hOneOnly        // has and serves the first piece only
)

var hW *hWorld

var hStatus int // of the next answer, if not 200

func hNum(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// hNew opens a torrent of n pieces with the trackers given.
func hNew(n int, trackers ...string) *hWorld {
	copy(peer.ClientId, "-GO0100-abcdefghijkl")
	vs.FreezeClock(true)
	w := &hWorld{limit: 1 << 30, pl: 4, content: []byte("abcdefghijklmnopqrstuvwxyz")[:4*n-1],
		kind: map[string]int{}, dials: map[string]int{}, open: map[string]int{}, asked: map[string]int{}, passed: map[int]bool{}}
	m := &bencode.Metainfo{InfoDictRaw: []byte("de")}
	if len(trackers) > 0 {
		m.Announce = trackers[0]
		m.AnnounceList = [][]string{trackers}
	}
	m.Info.Name = "name"
	m.Info.PieceLength = 4
	m.Info.Length = int64(len(w.content))
	var hashes []byte
	for i := 0; i < n; i++ {
		s := sha1.Sum(w.piece(i))
		hashes = append(hashes, s[:]...)
	}
	m.Info.Pieces = string(hashes)
	t, err := torrent.New(m, "/dl", zap.NewNop())
	if err != nil {
		panic("harness: torrent refused: " + err.Error())
	}
	w.t = t
	hW = w
	if !vs.Symbolic() {
		uilive.Out = hScreen{}
	}
	fdial.Dial = hDialPeer
	return w
}

func (w *hWorld) piece(i int) []byte {
	e := (i + 1) * w.pl
	if e > len(w.content) {
		e = len(w.content)
	}
	return w.content[i*w.pl : e]
}

func (w *hWorld) happened() {
	if w.step != nil {
		w.step()
	}
}

func (w *hWorld) mng() *Manager { return NewMng(w.t, zap.NewNop(), w.limit, 6881) }

// stored says whether piece i is in the file.
func (w *hWorld) stored(i int) bool {
	for _, f := range ffs.Files {
		for _, x := range f.Writes {
			if x.Off == int64(i*w.pl) && bytes.Equal(x.Data, w.piece(i)) {
				return true
			}
		}
	}
	return false
}

func (w *hWorld) allStored() bool {
	for i := 0; i*w.pl < len(w.content); i++ {
		if !w.stored(i) {
			return false
		}
	}
	return true
}

// --- terminal

// hScreen is the terminal in the native run, hUiWrite in the symbolic one.
type hScreen struct{}

func (hScreen) Write(p []byte) (int, error) { return hUiWrite(nil, p) }

//verif:hook (*github.com/gosuri/uilive.Writer).Write hUiWrite
func hUiWrite(w *uilive.Writer, buf []byte) (int, error) {
	if hW != nil && hW.shown != nil {
		hW.shown(buf)
	}
	return len(buf), nil
}

// hPeersShown is the number of peers displayed, -1 if none is.
func hPeersShown(text []byte) int {
	i := bytes.Index(text, []byte("peers ("))
	if i < 0 {
		return -1
	}
	n := 0
	for _, c := range text[i+7:] {
		if c < '0' || c > '9' {
			break
		}
		n = 10*n + int(c-'0')
	}
	return n
}

// --- trackers

func hServe(req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	w := hW
	u, n := req.URL.Host, 0
	vs.Atomically(func() {
		w.asked[u]++
		n = w.asked[u]
		if w.asking != nil {
			w.asking(req.URL)
		}
		w.happened()
	})
	body := w.answer(u, n)
	if body == nil {
		return nil, fk.ErrIO
	}
	st := 200
	if hStatus != 0 {
		st, hStatus = hStatus, 0
	}
	return &http.Response{StatusCode: st, Status: hNum(st), Body: io.NopCloser(bytes.NewReader(body)), ContentLength: -1, Header: http.Header{}}, nil
}

//verif:hook (*net/http.Client).Do hDo
func hDo(c *http.Client, req *http.Request) (*http.Response, error) { return hServe(req) }

func hAnswer(interval int, peers ...netip.AddrPort) []byte {
	var c []byte
	for _, p := range peers {
		a := p.Addr().As4()
		c = append(c, a[:]...)
		c = append(c, byte(p.Port()>>8), byte(p.Port()))
	}
	b := "d8:intervali" + hNum(interval) + "e5:peers" + hNum(len(c)) + ":"
	return append(append([]byte(b), c...), 'e')
}

func hAddr(ip byte, port uint16) netip.AddrPort {
	return netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, 0, 0, ip}), port)
}

// --- peers

type hRemote struct {
	w      *hWorld
	addr   string
	kind   int
	hand   []byte
	buf    []byte
	out    []byte
	shaken bool
	step   int
	req    []int // pieces asked for
	give   int   // piece being delivered, -1 if none
	gave   int   // pieces delivered
	dead   bool  // disconnected
	slow   int
	late   int
	hello  bool
	closed bool
	Ops    int
}

// hUdp is how a UDP tracker answers.
type hUdp struct {
	peers []netip.AddrPort
	mute  bool // not at all
	late  bool // too late
	fail  bool // with an error

	interval uint32 // 1 if 0
}

type hTracker struct {
	w      *hWorld
	host   string
	n      int
	queue  [][]byte
	held   [][]byte
	closed bool
}

func (t *hTracker) Write(p []byte) (n int, err error) {
	vs.Atomically(func() { n, err = t.write(p) })
	return
}

func (t *hTracker) write(p []byte) (int, error) {
	t.w.happened()
	vs.Assert(!t.w.ended, "tracker-asked-after-end")
	if t.closed {
		return 0, net.ErrClosed
	}
	vs.Assert(len(p) >= 16, "datagram-too-short")
	action := p[8:12]
	r := append(append([]byte(nil), action...), p[12:16]...)
	if len(p) == 16 { // connect
		t.n++
	} else if t.w.announce != nil {
		vs.Assert(len(p) == 98, "announce-length")
		t.w.announce(p)
	}
	a := t.w.udp(t.host, t.n)
	switch {
	case a.mute:
		return len(p), nil
	case a.fail:
		r = append(append([]byte{0, 0, 0, 3}, r[4:8]...), "busy"...)
	case len(p) == 16:
		r = append(r, 1, 2, 3, 4, 5, 6, 7, 8)
	default:
		i := a.interval
		if i == 0 {
			i = 1
		}
		r = append(r, byte(i>>24), byte(i>>16), byte(i>>8), byte(i), 0, 0, 0, 0, 0, 0, 0, 0)
		for _, x := range a.peers {
			ip := x.Addr().As4()
			r = append(append(r, ip[:]...), byte(x.Port()>>8), byte(x.Port()))
		}
	}
	if a.late {
		t.held = append(t.held, r)
		return len(p), nil
	}
	t.queue = append(append(t.queue, t.held...), r)
	t.held = nil
	return len(p), nil
}

func (t *hTracker) Read(p []byte) (n int, err error) {
	vs.Atomically(func() {
		t.w.happened()
		switch {
		case t.closed:
			err = net.ErrClosed
		case len(t.queue) == 0:
			err = fk.ErrTimeout
		default:
			n = copy(p, t.queue[0])
			t.queue = t.queue[1:]
		}
	})
	return
}

func (t *hTracker) Close() error {
	vs.Atomically(func() {
		if !t.closed {
			t.closed = true
			t.w.trackers--
		}
	})
	return nil
}

func (t *hTracker) LocalAddr() net.Addr                { return &net.UDPAddr{} }
func (t *hTracker) RemoteAddr() net.Addr               { return &net.UDPAddr{} }
func (t *hTracker) SetDeadline(d time.Time) error      { return nil }
func (t *hTracker) SetReadDeadline(d time.Time) error  { return nil }
func (t *hTracker) SetWriteDeadline(d time.Time) error { return nil }

func hDialTracker(address string) (c net.Conn, err error) {
	w := hW
	vs.Atomically(func() {
		w.happened()
		vs.Assert(!w.ended, "connecting-after-end")
		if w.unreach > 0 {
			w.unreach--
			err = &net.OpError{Op: "dial", Net: "udp", Err: &net.DNSError{Err: "server misbehaving", Name: address, IsTemporary: true}}
			return
		}
		w.trackers++
		c = &hTracker{w: w, host: address}
	})
	return
}

func hDialPeer(network, address string) (net.Conn, error) {
	if network == "udp" {
		return hDialTracker(address)
	}
	w := hW
	var c net.Conn
	vs.Atomically(func() {
		w.happened()
		vs.Assert(!w.ended, "connecting-after-end")
		w.dials[address]++
		k := w.kind[address]
		if w.kindAt != nil {
			k = w.kindAt(address, w.dials[address])
		}
		if k == hRefuse {
			return
		}
		vs.Assert(w.open[address] == 0, "address-connected-twice")
		w.open[address]++
		w.opens++
		vs.Assert(w.opens <= w.limit, "more-peers-than-allowed")
		r := &hRemote{w: w, addr: address, kind: k, give: -1}
		r.hand = append([]byte{19}, "BitTorrent protocol"...)
		r.hand = append(r.hand, make([]byte, 8)...)
		r.hand = append(r.hand, w.t.Hash...)
		r.hand = append(r.hand, make([]byte, 20)...)
		if k == hWrong {
			r.hand[28] ^= 1
		}
		if k == hSilent {
			r.hand = nil
		}
		c = r
	})
	if c == nil {
		return nil, fk.ErrIO
	}
	return c, nil
}

func (r *hRemote) op() {
	r.w.happened()
	vs.Assert(!r.w.ended, "peer-active-after-end")
	r.Ops++
	if r.give >= 0 && len(r.buf) == 0 {
		// the session went on after the whole piece was read
		r.w.passed[r.give] = true
		r.give = -1
	}
}

func (r *hRemote) Read(p []byte) (n int, err error) {
	vs.Atomically(func() { n, err = r.read(p) })
	return
}

func (r *hRemote) read(p []byte) (int, error) {
	if len(r.hand) > 0 {
		r.op()
		n := copy(p, r.hand)
		r.hand = r.hand[n:]
		return n, nil
	}
	if len(r.buf) == 0 {
		r.op()
		if r.closed {
			return 0, net.ErrClosed
		}
		if r.kind == hDies && len(r.req) > 0 || r.kind == hFades && r.gave > 0 && len(r.req) > 0 {
			r.dead = true
		}
		if r.dead {
			return 0, io.EOF
		}
		m := r.next()
		if m == nil {
			return 0, fk.ErrTimeout
		}
		r.buf = append([]byte{0, 0, 0, byte(len(m))}, m...)
		r.slow = 3
	}
	if r.kind == hSlow && r.slow > 0 && len(r.buf) > 1 {
		r.slow--
		if r.slow == 1 {
			return 0, fk.ErrTimeout
		}
		p = p[:1]
	}
	n := copy(p, r.buf)
	r.buf = r.buf[n:]
	if len(r.buf) == 0 && r.give >= 0 && r.w.delivered != nil {
		r.w.delivered()
	}
	return n, nil
}

func (r *hRemote) next() []byte {
	switch r.kind {
	case hGood, hDies, hStalls, hChokes, hFades, hSlow, hCorrupt, hOneOnly:
	default:
		return nil
	}
	n := (len(r.w.content) + r.w.pl - 1) / r.w.pl
	if r.kind == hOneOnly {
		n = 1
	}
	if r.late == 1 {
		r.late = 0
		return nil
	}
	if !r.hello && (r.kind == hChokes || r.kind == hFades || r.kind == hSlow || r.kind == hCorrupt) {
		// some want something themselves
		r.hello = true
		return []byte{2}
	}
	r.step++
	switch {
	case r.step <= n:
		return []byte{4, 0, 0, 0, byte(r.step - 1)}
	case r.step == n+1:
		return []byte{1}
	case len(r.req) > 0:
		i := r.req[0]
		r.req = r.req[1:]
		switch {
		case r.kind == hStalls || r.kind == hOneOnly && i > 0:
			return nil
		case r.kind == hChokes:
			r.step = n // unchokes again after a while
			r.late = 1
			return []byte{0}
		case r.kind == hCorrupt:
			return append([]byte{7, 0, 0, 0, byte(i), 0, 0, 0, 0}, make([]byte, len(r.w.piece(i)))...)
		}
		r.gave++
		r.give = i
		return append([]byte{7, 0, 0, 0, byte(i), 0, 0, 0, 0}, r.w.piece(i)...)
	}
	return nil
}

func (r *hRemote) Write(p []byte) (n int, err error) {
	vs.Atomically(func() { n, err = r.write(p) })
	return
}

func (r *hRemote) write(p []byte) (int, error) {
	r.op()
	if r.closed {
		return 0, net.ErrClosed
	}
	if r.dead {
		return 0, fk.ErrIO
	}
	if !r.shaken {
		r.shaken = true
		return len(p), nil
	}
	r.out = append(r.out, p...)
	for len(r.out) >= 4 {
		n := int(r.out[0])<<24 | int(r.out[1])<<16 | int(r.out[2])<<8 | int(r.out[3])
		if len(r.out) < 4+n {
			break
		}
		m := r.out[4 : 4+n]
		r.out = r.out[4+n:]
		if n == 13 && m[0] == 6 {
			r.req = append(r.req, int(m[4]))
		}
	}
	return len(p), nil
}

func (r *hRemote) Close() error {
	vs.Atomically(func() {
		if !r.closed {
			r.closed = true
			r.w.open[r.addr]--
			r.w.opens--
		}
	})
	return nil
}

func (r *hRemote) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (r *hRemote) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (r *hRemote) SetDeadline(t time.Time) error      { return nil }
func (r *hRemote) SetReadDeadline(t time.Time) error  { return nil }
func (r *hRemote) SetWriteDeadline(t time.Time) error { return nil }

// run downloads until the torrent is complete or the context cancelled.
func (w *hWorld) run(m *Manager, ctx context.Context) {
	_ = m.Download(ctx)
	vs.Atomically(func() { w.ended = true })
}
