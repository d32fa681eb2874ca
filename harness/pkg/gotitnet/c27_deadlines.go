package gotitnet

import (
	"time"

	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/util"
)

func c27conn(n int) (*TimeoutConn, *fk.Conn) {
	d := time.Duration(vs.I64("timeout"))
	vs.Assume(d > 0)
	vs.Assume(d < 1<<45)
	c := &fk.Conn{In: vs.Bytes("stream", n), Strict: true, DFail: true, Timeout: d}
	if vs.Bool("timesOut") {
		c.End = fk.ErrTimeout
	}
	return &TimeoutConn{c: c, timeout: d}, c
}

func c27after(c *fk.Conn, err error) {
	if c.Failed {
		vs.Assert(err != nil, "deadline-error-ignored")
		vs.Assert(!c.Touched, "touched-after-deadline-error")
		vs.Reach("deadline error")
	}
}

func VerifC27_ReadMessage() {
	t, c := c27conn(vs.Choose("avail", vs.Bound("stream bytes", 8, 10)))
	for i := 0; i < 2; i++ {
		c.Begin()
		from := c.Pos
		b, err := t.ReadPeerMessage()
		c27after(c, err)
		if err == nil {
			vs.Assert(c.Touched, "success-without-reading")
			vs.Assert(len(b) == c.Pos-from-4, "success-incomplete")
			vs.Assert(vs.EqBytes(b, c.In[from+4:c.Pos]), "success-other-bytes")
			vs.Reach("read")
		} else {
			vs.Reach("failed")
		}
	}
}

func VerifC27_ReadHandshake() {
	t, c := c27conn([]int{0, 67, 68, 140}[vs.Choose("avail", 4)])
	c.Whole = true
	for i := 0; i < 2; i++ {
		c.Begin()
		from := c.Pos
		b, err := t.ReadPeerHandshake()
		c27after(c, err)
		if err == nil {
			vs.Assert(len(b) == 68, "success-incomplete")
			vs.Assert(vs.EqBytes(b, c.In[from:c.Pos]), "success-other-bytes")
			vs.Reach("read")
		}
	}
}

func VerifC27_ReadUdp() {
	t, c := c27conn([]int{0, 15, 16, 33}[vs.Choose("avail", 4)])
	c.Whole = true
	for i := 0; i < 2; i++ {
		c.Begin()
		from := c.Pos
		b, err := t.ReadUdpHandshake()
		c27after(c, err)
		if err == nil {
			vs.Assert(len(b) == 16, "success-incomplete")
			vs.Assert(vs.EqBytes(b, c.In[from:c.Pos]), "success-other-bytes")
			vs.Reach("read")
		}
	}
}

func VerifC27_ReadAll() {
	t, c := c27conn(vs.Choose("avail", vs.Bound("stream bytes", 4, 6)))
	c.Begin()
	b, err := t.ReadAll()
	c27after(c, err)
	if err == nil {
		vs.Assert(vs.EqBytes(b, c.In), "success-other-bytes")
		vs.Reach("read")
	}
}

func VerifC27_Write() {
	t, c := c27conn(0)
	c.WFail = 1
	var want []byte
	for i := 0; i < 2; i++ {
		c.Begin()
		data := vs.Bytes("data", vs.Choose("n", vs.Bound("bytes", 4, 8)))
		n, err := t.Write(data)
		c27after(c, err)
		if err != nil {
			vs.Reach("failed")
			return
		}
		want = append(want, data...)
		vs.Assert(n == len(data), "write-count")
		vs.Assert(!c.Errored, "write-error-ignored")
		vs.Assert(vs.EqBytes(c.Out, want), "written-bytes")
		vs.Reach("written")
	}
}

func VerifC27_WriteMsg() {
	t, c := c27conn(0)
	c.WFail = 1
	c.Begin()
	be := func(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
	var m *util.PeerMessage
	var want []byte
	switch vs.Choose("message", 6) {
	case 0:
		i, o, l := vs.U32("index"), vs.U32("offset"), vs.U32("length")
		m = util.CreatePieceMessage(i, o, l)
		want = append([]byte{0, 0, 0, 13, 6}, be(i)...)
		want = append(want, be(o)...)
		want = append(want, be(l)...)
	case 1:
		m, want = util.KeepalivePeerMessage, make([]byte, 4)
	case 2:
		m, want = util.CreateInterestedMessage(), []byte{0, 0, 0, 1, 2}
	case 3:
		m, want = util.CreateChokeMessage(), []byte{0, 0, 0, 1, 0}
	case 4:
		m, want = util.CreateUnchokeMessage(), []byte{0, 0, 0, 1, 1}
	case 5:
		b := append([]byte{7}, vs.Bytes("block", 8+vs.Choose("data", 9))...)
		m, want = util.NewPeerMessage(b), append(be(uint32(len(b))), b...)
	}
	_, err := t.WriteMsg(m)
	c27after(c, err)
	if err != nil {
		vs.Reach("failed")
		return
	}
	vs.Assert(!c.Errored, "write-error-ignored")
	vs.Assert(vs.EqBytes(c.Out, want), "written-bytes")
	vs.Reach("written")
}

func VerifC27_Close() {
	t, c := c27conn(0)
	_ = t.Close()
	vs.Assert(c.Closed == 1, "closed")
	vs.Reach("closed")
}

// Any operations one after the other: each sets its own deadline.
func VerifC27_Mixed() {
	d := time.Duration(vs.I64("timeout"))
	vs.Assume(d > 0)
	vs.Assume(d < 1<<45)
	c := &fk.Conn{In: make([]byte, 200), Whole: true, Strict: true, DFail: true, Timeout: d, WFail: 1}
	t := &TimeoutConn{c: c, timeout: d}
	for k := vs.Bound("operations", 3, 4); k > 0; k-- {
		c.Begin()
		var err error
		writes := false
		switch vs.Choose("operation", 6) {
		case 0:
			_, err = t.ReadPeerMessage()
		case 1:
			_, err = t.ReadPeerHandshake()
		case 2:
			_, err = t.ReadUdpHandshake()
		case 3:
			writes = true
			_, err = t.Write([]byte{1, 2})
		case 4:
			writes = true
			_, err = t.WriteMsg(util.CreatePieceMessage(1, 2, 3))
		case 5:
			writes = true
			_, err = t.WriteMsg(util.KeepalivePeerMessage)
		}
		c27after(c, err)
		if err == nil {
			vs.Assert(c.Touched, "success-without-touching")
			vs.Assert(!c.Errored, "error-ignored")
			vs.Reach("done")
		} else if writes {
			return
		}
	}
}
