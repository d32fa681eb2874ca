package tracker

//verif:use help.go

import (
	"context"
	"time"

	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
)

func c22connect(req []byte) []byte {
	return hCat(hPut32(0), hTid(req), []byte{1, 2, 3, 4, 5, 6, 7, 8})
}

func c22announce(req []byte, interval uint32, peers []byte) []byte {
	return hCat(hPut32(1), hTid(req), hPut32(interval), hPut32(5), hPut32(7), peers)
}

// Any connect reply.
func VerifC22_Connect() {
	n := vs.Choose("len", vs.Bound("connect reply bytes", 22, 32)+1)
	r := vs.Bytes("reply", n)
	peers := []byte{10, 0, 0, 1, 0x1a, 0xe1}
	valid := false
	c := &hDgram{}
	c.reply = func(k int, req []byte) ([]byte, error) {
		if k == 0 {
			if n >= 16 {
				valid = vs.And(hBe32(r) == 0, vs.EqBytes(r[4:8], hTid(req)))
			}
			return append([]byte{}, r...), nil
		}
		vs.Assert(k == 1, "extra-request")
		vs.Assert(valid, "announced-without-connection")
		vs.Assert(vs.EqBytes(req[:8], r[8:16]), "other-connection-id")
		return c22announce(req, 100, peers), nil
	}
	t := hUdp(c)
	got, err := t.Announce(context.Background(), hHash, hData())
	if err != nil {
		vs.Assert(!valid, "valid-connect-refused")
		vs.Assert(len(got) == 0, "peers-with-error")
		vs.Reach("refused")
		return
	}
	vs.Assert(valid, "invalid-connect-accepted")
	vs.Assert(len(c.sent) == 2, "requests")
	hCompact(got, peers)
	vs.Reach("accepted")
}

// Any announce reply, the wait interval included.
func VerifC22_Announce() {
	n := vs.Choose("len", vs.Bound("announce reply bytes", 34, 46)+1)
	r := vs.Bytes("reply", n)
	valid := false
	c := &hDgram{}
	c.reply = func(k int, req []byte) ([]byte, error) {
		if k == 0 {
			return c22connect(req), nil
		}
		if n >= 20 {
			valid = vs.And(hBe32(r) == 1, vs.EqBytes(r[4:8], hTid(req)))
		}
		return append([]byte{}, r...), nil
	}
	t := hUdp(c)
	got, err := t.Announce(context.Background(), hHash, hData())
	if err != nil {
		vs.Assert(!valid, "valid-announce-refused")
		vs.Assert(len(got) == 0, "peers-with-error")
		vs.Reach("refused")
		return
	}
	vs.Assert(valid, "invalid-announce-accepted")
	hCompact(got, r[20:])
	vs.Reach("accepted")
	if n < 20 || n > 26 {
		return
	}
	iv := hBe32(r[8:12])
	d := hWait(t)
	vs.Assert(d > 0, "no-wait")
	vs.Assert(vs.Implies(iv > 0, hIs(d, time.Duration(iv)*time.Second)), "interval")
	vs.Reach("interval")
}

// Replies as long as a datagram can be.
func VerifC22_Long() {
	k := []int{200, 341, 342, 700, 1400, 10914}[vs.Choose("peers", vs.Bound("long replies", 6, 6))]
	tail := 3
	if k < 10914 {
		tail = vs.Choose("tail", 6)
	}
	vs.MaxSteps(20_000_000)
	peers := make([]byte, 6*k+tail)
	for i := range peers {
		peers[i] = byte(i*7 + i>>8)
	}
	c := &hDgram{}
	c.reply = func(k int, req []byte) ([]byte, error) {
		if k == 0 {
			return c22connect(req), nil
		}
		return c22announce(req, 100, peers), nil
	}
	got, err := hUdp(c).Announce(context.Background(), hHash, hData())
	vs.Assert(err == nil, "long-reply-refused")
	hCompact(got, peers)
	vs.Reach("long")
}

// The second announce of a tracker: nothing of the first shows.
func VerifC22_Again() {
	first := []byte{10, 0, 0, 1, 0, 1, 10, 0, 0, 2, 0, 2}
	nc := vs.Choose("connect", 3) // valid, another transaction's, error reply
	n := []int{0, 7, 8, 19, 20, 26}[vs.Choose("len", 6)]
	r := vs.Bytes("reply", n)
	valid := false
	var tid0 []byte
	c := &hDgram{}
	c.reply = func(k int, req []byte) ([]byte, error) {
		switch k {
		case 0:
			tid0 = hTid(req)
			return c22connect(req), nil
		case 1:
			return c22announce(req, 100, first), nil
		case 2:
			if len(req) == 16 {
				switch nc {
				case 1:
					vs.Assume(!vs.EqBytes(tid0, hTid(req)))
					return hCat(hPut32(0), tid0, make([]byte, 8)), nil
				case 2:
					return hCat(hPut32(3), hTid(req), []byte("no")), nil
				}
				return c22connect(req), nil
			}
		}
		if n >= 20 {
			valid = vs.And(hBe32(r) == 1, vs.EqBytes(r[4:8], hTid(req)))
		}
		return append([]byte{}, r...), nil
	}
	t := hUdp(c)
	got, err := t.Announce(context.Background(), hHash, hData())
	vs.Assert(err == nil, "first-refused")
	hCompact(got, first)
	got, err = t.Announce(context.Background(), hHash, hData())
	if err != nil {
		vs.Assert(!valid, "second-refused")
		vs.Assert(len(got) == 0, "stale-peers")
		vs.Reach("refused")
		return
	}
	vs.Assert(valid, "second-accepted")
	hCompact(got, r[20:])
	vs.Reach("accepted")
}

// The socket fails, or nothing comes back.
func VerifC22_Socket() {
	at := vs.Choose("at", 4)
	c := &hDgram{wfail: true}
	c.reply = func(k int, req []byte) ([]byte, error) {
		if k == at {
			return nil, fk.ErrIO
		}
		if k == at-2 {
			return nil, nil
		}
		if k == 0 {
			return c22connect(req), nil
		}
		return c22announce(req, 100, []byte{1, 2, 3, 4, 5, 6}), nil
	}
	got, err := hUdp(c).Announce(context.Background(), hHash, hData())
	vs.Assert(err != nil, "failure-ignored")
	vs.Assert(len(got) == 0, "peers-with-error")
	vs.Reach("failed")
}

// Replies that come too late, or twice, do not stand in the way of others.
func VerifC22_Late() {
	late := vs.Choose("late", 5) // of the replies
	more := vs.Choose("more", 2)
	twice := vs.Bool("twice")
	var tids [][]byte
	var held [][]byte
	peers := vs.Bytes("peers", 6)
	c := &hDgram{}
	c.reply = func(k int, req []byte) ([]byte, error) {
		for _, t := range tids {
			vs.Assume(!vs.EqBytes(t, hTid(req)))
		}
		tids = append(tids, hTid(req))
		r := c22connect(req)
		if len(req) != 16 {
			r = c22announce(req, 100, peers)
		}
		if k >= late && k <= late+more {
			held = append(held, r)
			return nil, nil
		}
		for _, h := range held {
			c.queue, c.errs = append(c.queue, h), append(c.errs, nil)
		}
		held = nil
		if twice {
			c.queue, c.errs = append(c.queue, r), append(c.errs, nil)
		}
		return r, nil
	}
	t := hUdp(c)
	for n := 0; n < 6; n++ {
		k := len(c.sent)
		got, err := t.Announce(context.Background(), hHash, hData())
		if err != nil {
			vs.Assert(len(got) == 0, "peers-with-error")
			vs.Assert(k <= late+more && len(c.sent)-1 >= late, "late-reply-in-the-way")
			vs.Reach("late")
			continue
		}
		vs.Assert(len(c.sent) == k+2, "requests")
		hCompact(got, peers)
		vs.Reach("answered")
	}
}
