PROPERTY='C29'; PKG='pkg/util'
EDITS=[('pkg/util/peer_message.go', '\tset := make([]uint64, len(payload)/8)\n', '\tset := make([]uint64, min(len(payload)/8, 1<<10))\n')]
NEEDS='a bitfield of more than 8 KiB'
BREAKS='the pieces behind the first 65536 are lost'
DEMO='''
package util

import "testing"

func TestDemo(t *testing.T) {
	b := make([]byte, 1+9<<10)
	b[0] = 5
	for i := 1; i < len(b); i++ {
		b[i] = 0xff
	}
	if s := NewPeerMessage(b).Bitfield(); s.Count() != 8*9<<10 {
		t.Fatal(s.Count())
	}
}
'''
