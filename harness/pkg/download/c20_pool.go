package download

//verif:use help.go

import (
	"context"
	"net/netip"

	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

var c20addrs = []netip.AddrPort{hAddr(1, 6881), hAddr(1, 6882), hAddr(2, 6881), hAddr(11, 6881), hAddr(2, 882)}

func (w *hWorld) peer(a netip.AddrPort) *peer.Peer {
	return peer.NewPeer(a, w.t, torrent.NewPiecesQueue(), make(chan *util.PeerMessage, 4), zap.NewNop())
}

// Adding peers one after the other.
func VerifC20_History() {
	w := hNew(1)
	w.limit = vs.Choose("limit", 4)
	m := w.mng()
	in := map[netip.AddrPort]bool{}
	for k := vs.Bound("additions", 4, 6); k > 0; k-- {
		a := c20addrs[vs.Choose("address", 4)]
		ok := m.AddPeer(w.peer(a))
		vs.Assert(ok == (!in[a] && len(in) < w.limit), "pool-membership")
		if ok {
			in[a] = true
		}
	}
	vs.Reach("end")
}

// Any two addresses.
func VerifC20_Addresses() {
	w := hNew(1)
	m := w.mng()
	form := vs.Choose("form", 3)
	one := func() ([4]byte, uint16, netip.AddrPort) {
		var a [4]byte
		a[0], a[1], a[2] = 10, 1, vs.U8("net")
		a[3] = vs.U8("host")
		p := vs.U16("port")
		ip := netip.AddrFrom4(a)
		if form == 1 {
			ip = netip.AddrFrom16(ip.As16())
		} else if form == 2 {
			b := ip.As16()
			b[0], b[1], b[10], b[11] = 0x20, 1, 0, 0
			ip = netip.AddrFrom16(b)
		}
		return a, p, netip.AddrPortFrom(ip, p)
	}
	a, p, x := one()
	b, q, y := one()
	vs.Assert(m.AddPeer(w.peer(x)), "first-refused")
	ok := m.AddPeer(w.peer(y))
	same := vs.And(a[2] == b[2], vs.And(a[3] == b[3], p == q))
	vs.Assert(ok != same, "pool-membership")
	vs.Reach("end")
}

// Trackers adding peers at the same time.
func VerifC20_Concurrent() {
	vs.Races(true)
	w := hNew(1)
	w.limit = 1 + vs.Choose("limit", 3)
	m := w.mng()
	vs.Preemptions(vs.Bound("preemptions", 3, 5))
	g, each := vs.Bound("trackers", 2, 3), 2
	lists := make([][]netip.AddrPort, g)
	distinct := map[netip.AddrPort]bool{}
	for i := range lists {
		for j := 0; j < each; j++ {
			a := c20addrs[vs.Choose("address", 3)]
			distinct[a] = true
			lists[i] = append(lists[i], a)
		}
	}
	in := map[netip.AddrPort]int{}
	total := 0
	fin := make(chan bool, g)
	for i := range lists {
		l := lists[i]
		var ps []*peer.Peer
		for _, a := range l {
			ps = append(ps, w.peer(a))
		}
		go func() {
			for j, p := range ps {
				if m.AddPeer(p) {
					vs.Atomically(func() {
						in[l[j]]++
						vs.Assert(in[l[j]] == 1, "address-added-twice")
						total++
						vs.Assert(total <= w.limit, "more-peers-than-allowed")
					})
				}
			}
			fin <- true
		}()
	}
	for range lists {
		<-fin
	}
	want := len(distinct)
	if want > w.limit {
		want = w.limit
	}
	vs.Assert(total == want, "peer-left-out")
	vs.Reach("end")
}

// The number displayed is the number in the pool.
func VerifC20_Displayed() {
	w := hNew(1)
	vs.Delays(0)
	w.limit = 1 + vs.Choose("limit", 3)
	m := w.mng()
	in := map[netip.AddrPort]bool{}
	for k := vs.Choose("additions", 4); k > 0; k-- {
		a := c20addrs[vs.Choose("address", 3)]
		if m.AddPeer(w.peer(a)) {
			in[a] = true
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	shows := 0
	w.shown = func(text []byte) {
		if n := hPeersShown(text); n >= 0 {
			shows++
			vs.Assert(n == len(in), "peer-count-displayed")
			cancel()
		}
	}
	w.run(m, ctx)
	vs.Assert(shows > 0, "nothing-displayed")
	vs.Reach("end")
}

// Trackers report peers that can or cannot be reached.
func VerifC20_Reported() {
	w := hNew(2, "http://t1/a", "http://t2/a")
	w.limit = 1 + vs.Choose("limit", 2)
	a, b := c20addrs[0], c20addrs[1]
	w.kind[a.String()] = vs.Choose("kind", 5)
	w.kind[b.String()] = hIdle
	swap := vs.Choose("order", 2) == 1
	w.answer = func(u string, n int) []byte {
		if (u == "t1") != swap {
			return hAnswer(1, a, b, a)
		}
		return hAnswer(1, b, a)
	}
	ctx, cancel := context.WithCancel(context.Background())
	ops := vs.Bound("environment steps", 16, 30)
	w.step = func() {
		ops--
		if ops == 0 {
			go cancel()
		}
	}
	m := w.mng()
	vs.Delays(vs.Bound("delays", 1, 2))
	w.run(m, ctx)
	m.Stop()
	vs.Assert(w.opens == 0, "connection-left-open")
	vs.Reach("end")
}

// A peer that could not be reached makes room for another, and is tried again
// when it is reported again; the peer count follows.
func VerifC20_Unreachable() {
	w := hNew(1, "http://t1/a")
	vs.Delays(0)
	w.limit = 1
	a, b := c20addrs[0], c20addrs[2]
	k := []int{hRefuse, hWrong, hSilent, hDies}[vs.Choose("kind", 4)]
	w.kind[a.String()] = k
	w.kind[b.String()] = hIdle
	second := a
	if vs.Choose("second", 2) == 1 {
		second = b
	}
	ctx, cancel := context.WithCancel(context.Background())
	before, shows := 0, -1
	show := make(chan bool, 10)
	w.shown = func(text []byte) {
		if n := hPeersShown(text); n >= 0 {
			shows = n
			select {
			case show <- true:
			default:
			}
		}
	}
	w.answer = func(u string, n int) []byte {
		switch n {
		case 1:
			return hAnswer(1, a)
		case 2:
			vs.Assert(w.dials[a.String()] > 0, "peer-not-tried")
			for len(show) > 0 {
				<-show
			}
			<-show
			<-show
			vs.Assert(shows == 0, "peer-count-displayed")
			before = w.dials[second.String()]
			return hAnswer(1, second)
		}
		vs.Assert(w.dials[second.String()] > before, "no-room-after-unreachable-peer")
		for len(show) > 0 {
			<-show
		}
		<-show
		<-show
		want := 0
		if second == b {
			want = 1
		}
		vs.Assert(shows == want, "peer-count-displayed")
		go cancel()
		return hAnswer(1)
	}
	m := w.mng()
	w.run(m, ctx)
	m.Stop()
	vs.Assert(w.opens == 0, "connection-left-open")
	vs.Reach("end")
}
