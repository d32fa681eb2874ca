package tracker

//verif:use help.go

import (
	"context"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/peer"
)

func c23connect(req []byte) {
	vs.Assert(len(req) == 16, "connect-length")
	vs.Assert(hBe64(req) == 0x41727101980, "protocol-id")
	vs.Assert(hBe32(req[8:]) == 0, "connect-action")
}

func c23announce(req, conn []byte, hash string, d *gotit.AnnounceData) {
	vs.Assert(len(req) == 98, "announce-length")
	vs.Assert(vs.EqBytes(req[:8], conn), "connection-id")
	vs.Assert(hBe32(req[8:]) == 1, "announce-action")
	vs.Assert(vs.EqBytes(req[16:36], []byte(hash)), "info-hash")
	vs.Assert(vs.EqBytes(req[36:56], []byte(peer.ClientId)), "peer-id")
	vs.Assert(hBe64(req[56:]) == d.Downloaded, "downloaded")
	vs.Assert(hBe64(req[64:]) == d.Left, "left")
	vs.Assert(hBe64(req[72:]) == d.Uploaded, "uploaded")
	vs.Assert(hBe32(req[80:]) <= 3, "event")
	vs.Assert(hBe32(req[84:]) == 0, "ip")
	vs.Assert(int(req[96])<<8|int(req[97]) == d.Port, "port")
}

func c23data() *gotit.AnnounceData {
	return &gotit.AnnounceData{
		Downloaded: vs.U64("downloaded"),
		Uploaded:   vs.U64("uploaded"),
		Left:       vs.U64("left"),
		Port:       vs.IntRange("port", 0, 65535),
	}
}

func VerifC23_Requests() {
	vs.DistinctRand(true)
	rounds := vs.Bound("announces", 2, 3)
	hash := vs.Str("hash", 20)
	var data *gotit.AnnounceData
	var conn []byte
	var tids [][]byte
	c := &hDgram{}
	expectAnnounce := false
	c.reply = func(k int, req []byte) ([]byte, error) {
		tid := hTid(req)
		for _, o := range tids {
			vs.Assert(!vs.EqBytes(o, tid), "transaction-id-reused")
		}
		tids = append(tids, tid)
		if !expectAnnounce {
			c23connect(req)
			conn = vs.Bytes("conn", 8)
			expectAnnounce = true
			return hCat(hPut32(0), tid, conn), nil
		}
		c23announce(req, conn, hash, data)
		expectAnnounce = false
		return hCat(hPut32(1), tid, make([]byte, 12)), nil
	}
	t := hUdp(c)
	for i := 0; i < rounds; i++ {
		data = c23data()
		_, err := t.Announce(context.Background(), hash, data)
		vs.Assert(err == nil, "announce-refused")
		vs.Assert(len(c.sent) == 2*(i+1), "requests")
	}
	vs.Reach("announced")
}

// A connect that fails is not followed by an announce, and the next try
// starts with a connect again.
func VerifC23_Retry() {
	vs.DistinctRand(true)
	data := c23data()
	var tids [][]byte
	c := &hDgram{}
	c.reply = func(k int, req []byte) ([]byte, error) {
		tid := hTid(req)
		for _, o := range tids {
			vs.Assert(!vs.EqBytes(o, tid), "transaction-id-reused")
		}
		tids = append(tids, tid)
		switch k {
		case 0:
			c23connect(req)
			return nil, nil
		case 1:
			c23connect(req)
			return hCat(hPut32(0), tid, []byte("12345678")), nil
		}
		c23announce(req, []byte("12345678"), hHash, data)
		return hCat(hPut32(1), tid, make([]byte, 12)), nil
	}
	t := hUdp(c)
	_, err := t.Announce(context.Background(), hHash, data)
	vs.Assert(err != nil, "connection-from-nothing")
	vs.Assert(len(c.sent) == 1, "announced-without-connection")
	_, err = t.Announce(context.Background(), hHash, data)
	vs.Assert(err == nil, "retry-refused")
	vs.Assert(len(c.sent) == 3, "requests")
	vs.Reach("retried")
}
