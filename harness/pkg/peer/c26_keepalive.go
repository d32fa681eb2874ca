package peer

//verif:use help.go
//verif:use session.go

import (
	"context"
	"time"

	"github.com/anivanovic/gotit/internal/verif/fk"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/util"
)

// A session during which time passes between messages.
func VerifC26_Session() {
	vs.FreezeClock(true)
	content := []byte("abcdefghijklmnop")
	t := hTorrent(4, content)
	p, _ := hPeer(t, make(chan *util.PeerMessage, 16))
	for i := uint(0); i < 4; i++ {
		p.Bitset.Set(i)
	}
	ctx, cancel := context.WithCancel(context.Background())
	src := &hSource{t: t, max: 2, cancel: cancel}
	p.piecesSource = src
	choked := true
	var out *hReq
	var last time.Time
	ended := false // a keep-alive failed
	first := true  // nothing checked yet since time passed
	keepalives := 0
	r := &hRemote{}
	r.sent = func(r *hRemote, m []byte) {
		gap := time.Since(last)
		if len(m) == 0 {
			vs.Assert(gap > 90*time.Second, "keep-alive-on-busy-connection")
			keepalives++
		} else {
			if first {
				vs.Assert(gap < 120*time.Second, "keep-alive-missing")
			}
			if m[0] == 6 {
				out = &hReq{hU32(m[1:]), hU32(m[5:]), hU32(m[9:])}
			}
		}
		first = false
		last = time.Now()
	}
	pass := func() {
		d := time.Duration(vs.I64("passed"))
		vs.Assume(d >= 0)
		vs.Assume(d < 1<<40)
		vs.Advance(d)
		first = true
	}
	fails := 1
	r.failWrite = func(r *hRemote) bool {
		vs.Assert(!ended, "session-survives-failed-keep-alive")
		if fails > 0 && vs.Choose("writefails", 2) == 1 {
			fails--
			if vs.Choose("timeout", 2) == 1 {
				r.failErr = fk.ErrTimeout
			}
			return true
		}
		return false
	}
	r.wfailed = func(r *hRemote, m []byte) {
		if len(m) == 4 {
			gap := time.Since(last)
			vs.Assert(gap > 90*time.Second, "keep-alive-on-busy-connection")
			ended = true
			vs.Reach("failing keep-alive")
			first = false
			return
		}
		if first {
			vs.Assert(time.Since(last) < 120*time.Second, "keep-alive-missing")
		}
		// it took a while to fail
		pass()
	}
	events := vs.Bound("incoming messages", 5, 7)
	r.event = func(r *hRemote) ([]byte, error) {
		vs.Assert(!ended, "session-survives-failed-keep-alive")
		if events == 0 {
			cancel()
			return nil, fk.ErrTimeout
		}
		events--
		if choked && vs.Choose("unchoke", 2) == 0 {
			choked = false
			return []byte{1}, nil
		}
		pass()
		if choked {
			return nil, fk.ErrTimeout
		}
		if out != nil && vs.Choose("answer", 2) == 1 {
			q := *out
			out = nil
			return hPieceMsg(q.i, q.o, content[q.i*4:q.i*4+4]), nil
		}
		if vs.Choose("choke", 2) == 1 {
			choked = true
			out = nil
			return []byte{0}, nil
		}
		return []byte{}, nil
	}
	pass() // before it is connected
	hConnect(p, t, r)
	last = time.Now()
	pass()
	p.Run(ctx)
	cancel()
	if keepalives > 0 {
		vs.Reach("keep-alive")
	}
	if keepalives > 1 {
		vs.Reach("two keep-alives")
	}
	vs.Reach("ended")
}
