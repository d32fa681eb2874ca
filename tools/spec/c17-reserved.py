PROPERTY='C17'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go', '\treturn resCode == 19 &&\n', '\treturn resCode == 19 && binary.BigEndian.Uint64(handshake[20:28])>>32 == 0 &&\n')]
NEEDS='a peer that announces extensions in the reserved bytes'
BREAKS='its valid handshake is refused'
DEMO='package peer\n\nimport (\n\t"testing"\n\n\t"github.com/anivanovic/gotit/pkg/util"\n)\n\nfunc TestDemo(t *testing.T) {\n\t_ = util.KeepalivePeerMessage\n\thash := []byte("aaaaaaaaaaaaaaaaaaaa")\n\th := createHandshake(hash)\n\th[20], h[22] = 0x10, 1\n\tif !isHandshakeValid(h, hash, ClientId) {\n\t\tt.Fatal("refused")\n\t}\n}\n'
