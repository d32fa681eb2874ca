package torrent

//verif:use help.go

import (
	"github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/bencode"
	"go.uber.org/zap"
)

// c07inside checks that path, which was created, lies strictly inside root and
// is root/name or below it.
func c07inside(path, root, name string, label string) {
	prefix := ""
	if root != "." {
		prefix = root + "/"
	}
	n := vs.Concrete(len(path))
	vs.Assert(n > len(prefix), label)
	vs.Assert(vs.EqStr(path[:len(prefix)], prefix), label)
	rest := path[len(prefix):]
	// every element of the rest is a plain name
	start, first := 0, true
	for i := 0; i <= len(rest); i++ {
		if i < len(rest) && rest[i] != '/' {
			continue
		}
		el := rest[start:i]
		vs.Assert(el != "" && el != "." && el != "..", label)
		if first {
			vs.Assert(el == name, label)
			first = false
		}
		start = i + 1
	}
}

func c07plain(s string) bool {
	if len(s) == 0 {
		return false
	}
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vs.And(ok, vs.And(s[i] >= 'a', s[i] <= 'z'))
	}
	return ok
}

func c07created(root, name string) {
	for _, f := range ffs.Files {
		c07inside(f.Path, root, name, "file-outside-download-directory")
	}
	for _, d := range ffs.Dirs {
		if d == root {
			continue // the download directory itself
		}
		c07inside(d, root, name, "directory-outside-download-directory")
	}
	vs.Assert(len(ffs.Other) == 0, "removes-or-renames")
	for i, f := range ffs.Files {
		for _, g := range ffs.Files[:i] {
			vs.Assert(!vs.EqStr(f.Path, g.Path), "entries-share-a-file")
		}
	}
}

var c07roots = []string{"/dl", "dl/sub", "."}

// A single file torrent with any name.
func VerifC07_Single() {
	name := vs.Str("name", vs.Choose("namelength", vs.Bound("name bytes", 5, 7)))
	m := hMeta(name, 4, hHashes(1))
	m.Info.Length = 3
	root := c07roots[vs.Choose("root", 3)]
	t, err := New(m, root, zap.NewNop())
	c07created(root, name)
	vs.Assert(vs.Implies(c07plain(name), err == nil), "plain-name-refused")
	if err == nil {
		vs.Assert(len(ffs.Files) == 1 && len(t.OsFiles) == 1, "no-file")
		vs.Reach("accepted")
	} else {
		vs.Reach("refused")
	}
}

func c07files(nf, els, max int, root, name string) {
	m := hMeta(name, 4, hHashes(1))
	plain := true
	for i := 0; i < nf; i++ {
		var path []string
		for j := 1 + vs.Choose("elements", els); j > 0; j-- {
			e := vs.Str("element", vs.Choose("elementlength", max+1))
			path = append(path, e)
			plain = vs.And(plain, c07plain(e))
		}
		l := 0
		if i == 0 {
			l = 3
		}
		m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: path, Length: l})
	}
	// equal entries
	distinct := true
	for i := range m.Info.Files {
		for _, g := range m.Info.Files[:i] {
			f := m.Info.Files[i]
			if len(f.Path) != len(g.Path) {
				continue
			}
			same := true
			for k := range f.Path {
				same = vs.And(same, vs.EqStr(f.Path[k], g.Path[k]))
			}
			distinct = vs.And(distinct, !same)
		}
	}
	t, err := New(m, root, zap.NewNop())
	c07created(root, name)
	vs.Assert(vs.Implies(vs.And(plain, distinct), err == nil), "plain-names-refused")
	if err == nil {
		vs.Assert(len(ffs.Files) == nf && len(t.OsFiles) == nf, "number-of-files")
		vs.Reach("accepted")
	} else {
		vs.Reach("refused")
	}
}

// One entry with a long path.
func VerifC07_Entry() {
	c07files(1, 2, vs.Bound("element bytes", 5, 7), c07roots[vs.Choose("root", 2)], "name")
}

// One entry of many elements.
func VerifC07_Deep() {
	c07files(1, vs.Bound("path elements", 4, 6), 2, "/dl", "name")
}

// Several entries.
func VerifC07_Entries() {
	c07files(2, 3, vs.Bound("element bytes", 1, 2), "/dl", "name")
}

// The directory named by the torrent.
func VerifC07_Directory() {
	name := vs.Str("name", vs.Choose("namelength", vs.Bound("name bytes", 4, 6)))
	m := hMeta(name, 4, hHashes(1))
	m.Info.Files = []bencode.TorrentFile{{Path: []string{"a", "b"}, Length: 2}, {Path: []string{"c"}, Length: 2}}
	root := c07roots[vs.Choose("root", 3)]
	_, err := New(m, root, zap.NewNop())
	c07created(root, name)
	vs.Assert(vs.Implies(c07plain(name), err == nil), "plain-name-refused")
	if err == nil {
		vs.Reach("accepted")
	} else {
		vs.Reach("refused")
	}
}
