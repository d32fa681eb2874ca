package gotitnet

import (
	"time"

	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
)

func c16conn(c *fk.Conn) *TimeoutConn { return &TimeoutConn{c: c, timeout: time.Second} }

// Any stream, cut anywhere, ending anywhere: a message is returned whole or
// not at all, and the reader stops right behind it.
func VerifC16_Message() {
	max := vs.Bound("stream bytes", 8, 10)
	avail := vs.Choose("avail", max+1)
	c := &fk.Conn{In: vs.Bytes("stream", avail), Zero: 1}
	if vs.Bool("otherError") {
		c.End = fk.ErrTimeout
	}
	vs.AllocLimit(64 << 20)
	got, err := c16conn(c).ReadPeerMessage()
	if avail < 4 {
		vs.Assert(err != nil, "short-prefix-accepted")
		vs.Assert(len(got) == 0, "partial-message")
		vs.Reach("short prefix")
		return
	}
	declared := uint64(c.In[0])<<24 | uint64(c.In[1])<<16 | uint64(c.In[2])<<8 | uint64(c.In[3])
	if declared > uint64(avail-4) {
		vs.Assert(err != nil, "truncated-accepted")
		vs.Assert(len(got) == 0, "partial-message")
		vs.Reach("truncated")
		return
	}
	n := int(declared)
	vs.Assert(err == nil, "complete-refused")
	vs.Assert(len(got) == n, "message-length")
	vs.Assert(vs.EqBytes(got, c.In[4:4+n]), "message-bytes")
	vs.Assert(c.Pos == 4+n, "consumed")
	vs.Reach("message")
}

// Two messages one behind the other.
func VerifC16_Sequence() {
	n1 := vs.Choose("len1", vs.Bound("message bytes", 3, 4))
	n2 := vs.Choose("len2", vs.Bound("message bytes", 3, 4))
	a, b := vs.Bytes("first", n1), vs.Bytes("second", n2)
	in := append([]byte{0, 0, 0, byte(n1)}, a...)
	in = append(in, 0, 0, 0, byte(n2))
	in = append(in, b...)
	c := &fk.Conn{In: in}
	t := c16conn(c)
	m1, err1 := t.ReadPeerMessage()
	vs.Assert(err1 == nil, "first-refused")
	vs.Assert(vs.EqBytes(m1, a), "first-bytes")
	m2, err2 := t.ReadPeerMessage()
	vs.Assert(err2 == nil, "second-refused")
	vs.Assert(vs.EqBytes(m2, b), "second-bytes")
	vs.Assert(vs.EqBytes(m1, a), "first-overwritten")
	m3, err3 := t.ReadPeerMessage()
	vs.Assert(err3 != nil, "message-from-nothing")
	vs.Assert(len(m3) == 0, "message-from-nothing")
	vs.Reach("two messages")
}

// Messages as large as a block message are accepted.
func VerifC16_Block() {
	n := []int{9 + 16384, 9 + 16384 - 1, 257, 256, 255, 4096}[vs.Choose("size", vs.Bound("sizes", 4, 6))]
	body := vs.Bytes("body", n)
	in := append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, body...)
	in = append(in, 9, 9, 9)
	c := &fk.Conn{In: in, Whole: true}
	got, err := c16conn(c).ReadPeerMessage()
	vs.Assert(err == nil, "block-refused")
	vs.Assert(len(got) == n, "block-length")
	vs.Assert(vs.EqBytes(got, body), "block-bytes")
	vs.Assert(c.Pos == n+4, "block-consumed")
	vs.Reach("block")
}

// A handshake is 68 bytes or an error.
func VerifC16_Handshake() {
	var avail int
	switch vs.Choose("cut", 6) {
	case 0:
		avail = 68
	case 1:
		avail = 67
	case 2:
		avail = 69
	case 3:
		avail = 70
	case 4:
		avail = 1
	default:
		avail = 48
	}
	s := vs.Bytes("stream", avail)
	// two segments of any length, then the rest
	c := &c16cut{Conn: fk.Conn{In: s, Whole: true}, cut: vs.Choose("at", 69)}
	t := &TimeoutConn{c: c, timeout: time.Second}
	got, err := t.ReadPeerHandshake()
	if avail < 68 {
		vs.Assert(err != nil, "short-handshake-accepted")
		vs.Assert(len(got) == 0, "partial-handshake")
		vs.Reach("short")
		return
	}
	vs.Assert(err == nil, "handshake-refused")
	vs.Assert(len(got) == 68, "handshake-length")
	vs.Assert(vs.EqBytes(got, s[:68]), "handshake-bytes")
	vs.Assert(c.Pos == 68, "handshake-consumed")
	vs.Reach("handshake")
}

// c16cut delivers at most up to position cut in one read.
type c16cut struct {
	fk.Conn
	cut int
}

func (c *c16cut) Read(p []byte) (int, error) {
	if c.Pos < c.cut && c.Pos+len(p) > c.cut {
		p = p[:c.cut-c.Pos]
	}
	return c.Conn.Read(p)
}

// c16late delivers the stream in pieces with timeouts between them.
type c16late struct {
	fk.Conn
	late int
}

func (c *c16late) Read(p []byte) (int, error) {
	if c.late > 0 && vs.Choose("late", 2) == 1 {
		c.late--
		return 0, fk.ErrTimeout
	}
	return c.Conn.Read(p)
}

// Timeouts anywhere, also in the middle of a message: what is read is still
// the messages sent, in order, or nothing.
func VerifC16_Late() {
	n1 := vs.Choose("len1", vs.Bound("message bytes", 3, 4))
	n2 := vs.Choose("len2", vs.Bound("message bytes", 3, 4))
	a, b := vs.Bytes("first", n1), vs.Bytes("second", n2)
	in := append([]byte{0, 0, 0, byte(n1)}, a...)
	in = append(in, 0, 0, 0, byte(n2))
	in = append(in, b...)
	want := [][]byte{a, b}
	times := vs.Bound("timeouts", 2, 3)
	c := &c16late{Conn: fk.Conn{In: in}, late: times}
	t := &TimeoutConn{c: c, timeout: time.Second}
	got := 0
	for i := 0; i < times+4; i++ {
		m, err := t.ReadPeerMessage()
		if err != nil {
			vs.Assert(len(m) == 0, "partial-message")
			continue
		}
		vs.Assert(got < 2, "message-from-nothing")
		vs.Assert(len(m) == len(want[got]) && vs.EqBytes(m, want[got]), "message-from-the-middle")
		got++
	}
	if c.late == times {
		vs.Assert(got == 2, "complete-refused")
	}
	vs.Reach("late")
}
