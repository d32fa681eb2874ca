package torrent

//verif:use help.go

import (
	"crypto/sha1"

	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/bencode"
	"go.uber.org/zap"
)

// The opened torrent has the info-hash of its file.
func VerifC04_Torrent() {
	name := vs.Bytes("name", 1+vs.Choose("namelen", 2))
	for _, c := range name {
		vs.Assume(vs.And(c >= 'a', c <= 'z'))
	}
	pre := []string{"", "4:infx3:foo", "13:announce-listll1:aee"}[vs.Choose("before", 3)]
	info := "d6:lengthi1e4:name" + string(rune('0'+len(name))) + ":" + string(name) + "12:piece lengthi4e6:pieces20:aaaaaaaaaaaaaaaaaaaa7:privatei1ee"
	doc := "d" + pre + "8:announce2:aa4:info" + info + "1:z1:ze"
	m := &bencode.Metainfo{}
	vs.Assert(bencode.Unmarshal([]byte(doc), m) == nil, "well-formed-refused")
	t, err := New(m, "/dl", zap.NewNop())
	vs.Assert(err == nil, "torrent-refused")
	want := sha1.Sum([]byte(info))
	vs.Assert(vs.EqBytes(t.Hash, want[:]), "info-hash")
	vs.Reach("opened")
}
