package gotitnet

//verif:optional

import "github.com/anivanovic/gotit/internal/verif/vs"

func VerifC27_ReadDatagram() {
	t, c := c27conn([]int{0, 1, 16, 33}[vs.Choose("avail", 4)])
	c.Whole = true
	c.Begin()
	b, err := t.ReadDatagram()
	c27after(c, err)
	if err == nil {
		vs.Assert(vs.EqBytes(b, c.In[:c.Pos]), "success-other-bytes")
		vs.Reach("read")
	}
}
