PROPERTY='C14'; PKG='pkg/util'
EDITS=[('pkg/util/peer_message.go', '\t\tmsg.index = binary.BigEndian.Uint32(msg.payload[:4])\n\t\tmsg.offset = binary.BigEndian.Uint32(msg.payload[4:8])\n\tdefault:', '\t\tmsg.index = binary.BigEndian.Uint32(msg.payload[:4])\n\t\tmsg.offset = binary.BigEndian.Uint32(msg.payload[4:8]) & 0xffffff\n\tdefault:')]
NEEDS='a block at an offset of 16 MiB or more'
BREAKS='it is taken to be for another offset'
DEMO='''
package util_test

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	m := util.NewPeerMessage([]byte{7, 0, 0, 0, 1, 3, 0, 0, 4, 9})
	if m.Offset() != 3<<24+4 {
		t.Fatal("offset", m.Offset())
	}
}
'''
