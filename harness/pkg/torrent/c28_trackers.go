package torrent

import (
	"crypto/sha1"

	_ "github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/bencode"
	"go.uber.org/zap"
)

func c28torrent(announce string, list [][]string, urls []string) *Torrent {
	m := &bencode.Metainfo{Announce: announce, AnnounceList: list, UrlList: urls, InfoDictRaw: []byte("de")}
	m.Info.Name = "name"
	m.Info.PieceLength = 4
	m.Info.Length = 4
	h := sha1.Sum([]byte("abcd"))
	m.Info.Pieces = string(h[:])
	t, err := New(m, "/dl", zap.NewNop())
	vs.Assert(err == nil, "torrent-refused")
	return t
}

func c28check(t *Torrent, all []string) {
	n := 0
	for i := range all {
		dup := false
		for j := 0; j < i; j++ {
			if all[i] == all[j] {
				dup = true
				break
			}
		}
		if !dup {
			n++
		}
		found := 0
		for u := range t.Trackers {
			if u == all[i] {
				found++
			}
		}
		vs.Assert(found == 1, "tracker-not-once")
	}
	got := 0
	for u := range t.Trackers {
		if u != "" {
			got++
		}
	}
	vs.Assert(got == n, "tracker-count")
	vs.Reach("trackers")
}

// Any shape of the three entries, URLs equal or not.
func VerifC28_Sets() {
	var all []string
	url := func() string {
		u := "http://tracker/" + vs.Str("url", vs.Bound("symbolic characters of a url", 1, 2))
		all = append(all, u)
		return u
	}
	announce := ""
	if vs.Bool("announce") {
		announce = url()
	}
	var list [][]string
	for i, k := 0, vs.Choose("tiers", vs.Bound("tiers", 3, 3)); i < k; i++ {
		var tier []string
		for j, l := 0, vs.Choose("tier", vs.Bound("tier urls", 3, 3)); j < l; j++ {
			tier = append(tier, url())
		}
		list = append(list, tier)
	}
	var urls []string
	for i, k := 0, vs.Choose("url list", vs.Bound("url-list urls", 2, 3)); i < k; i++ {
		urls = append(urls, url())
	}
	if len(all) > vs.Bound("urls", 4, 5) {
		vs.Assume(false)
	}
	c28check(c28torrent(announce, list, urls), all)
}

// Many trackers.
func VerifC28_Many() {
	n := []int{6, 20, 60}[vs.Choose("trackers", 3)]
	var all []string
	var list [][]string
	for i := 0; i < n; i++ {
		u := "udp://tracker" + string(rune('a'+i%26)) + string(rune('a'+i/26)) + ":80"
		all = append(all, u)
		if i%3 == 0 {
			list = append(list, nil)
		}
		list[len(list)-1] = append(list[len(list)-1], u)
	}
	all = append(all, "http://seed/1", "http://seed/2")
	c28check(c28torrent(all[vs.Choose("first", n)], list, all[n:]), all)
}

// Two URLs that differ in one byte more, anywhere.
func VerifC28_Alike() {
	u := []string{"http://t/a", "udp://t:1/a", "https://t:443/A?x=y"}[vs.Choose("url", vs.Bound("urls", 2, 3))]
	at := vs.Choose("at", len(u)+1)
	v := u[:at] + vs.Str("byte", 1) + u[at:]
	if vs.Bool("longer first") {
		u, v = v, u
	}
	switch vs.Choose("entries", 4) {
	case 0:
		c28check(c28torrent(u, [][]string{{v}}, nil), []string{u, v})
	case 1:
		c28check(c28torrent("", [][]string{{u, v}}, nil), []string{u, v})
	case 2:
		c28check(c28torrent("", [][]string{{u}, {v}}, nil), []string{u, v})
	case 3:
		c28check(c28torrent(u, nil, []string{v}), []string{u, v})
	}
}
