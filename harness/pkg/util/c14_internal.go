package util

//verif:optional

import "github.com/anivanovic/gotit/internal/verif/vs"

// Constructors that nothing outside the package uses yet.
func VerifC14_Internal() {
	i, o, l := vs.U32("index"), vs.U32("offset"), vs.U32("length")
	b := c14send(createHaveMessage(i))
	vs.Assert(vs.EqBytes(b, append([]byte{0, 0, 0, 5, 4}, c14be(i)...)), "have-layout")
	vs.Assert(NewPeerMessage(b[4:]).Index() == i, "have-roundtrip")
	b = c14send(createCancelMessage(i, o, l))
	want := append([]byte{0, 0, 0, 13, 8}, c14be(i)...)
	want = append(want, c14be(o)...)
	want = append(want, c14be(l)...)
	vs.Assert(vs.EqBytes(b, want), "cancel-layout")
	vs.Assert(vs.EqBytes(c14send(createNotInterestedMessage()), []byte{0, 0, 0, 1, 3}), "notinterested-layout")
	vs.Reach("internal")
}
