PROPERTY='C14'; PKG='pkg/util'
EDITS=[('pkg/util/peer_message.go','''	// TODO: cache buffer object in a pool
	buf := &bytes.Buffer{}
	writeBigEndian(buf, m.len)
	if m.Type == KeepaliveMessageType {
		return w.Write(buf.Bytes())
	}

	writeBigEndian(buf, m.Type)
	buf.Write(m.payload)

	return w.Write(buf.Bytes())
''','''	buf := sendBuffers.Get().(*bytes.Buffer)
	defer sendBuffers.Put(buf)
	writeBigEndian(buf, m.len)
	if m.Type == KeepaliveMessageType {
		return w.Write(buf.Bytes())
	}

	writeBigEndian(buf, m.Type)
	buf.Write(m.payload)

	n, err := w.Write(buf.Bytes())
	buf.Reset()
	return n, err
'''),('pkg/util/peer_message.go','''type PeerMessage struct {
''','''var sendBuffers = sync.Pool{New: func() any { return &bytes.Buffer{} }}

type PeerMessage struct {
'''),('pkg/util/peer_message.go','''	"io"
''','''	"io"
	"sync"
''')]
NEEDS='a message that is sent after a keep-alive'
BREAKS='the keep-alive is sent once more in front of it, again and again'
DEMO='''
package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	// the pool may drop what it is given
	for i := 0; i < 50; i++ {
		b := &bytes.Buffer{}
		KeepalivePeerMessage.Send(b)
		b.Reset()
		CreateInterestedMessage().Send(b)
		if !bytes.Equal(b.Bytes(), []byte{0, 0, 0, 1, 2}) {
			t.Fatal(b.Bytes())
		}
	}
}
'''
