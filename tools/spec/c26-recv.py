PROPERTY='C26'; PKG='pkg/peer'
EDITS=[('pkg/peer/peer.go', '\t\tp.logger.Debug("Peer sent keepalive")\n', '\t\tp.logger.Debug("Peer sent keepalive")\n\t\tp.updateLastMsgSent()\n')]
NEEDS='an idle session with a peer that keeps sending keep-alives'
BREAKS='the client never sends any itself, and the peer hangs up'
DEMO='package peer\n\nimport (\n\t"testing"\n\t"time"\n\n\t"github.com/anivanovic/gotit/pkg/util"\n\t"go.uber.org/zap"\n)\n\nfunc TestDemo(t *testing.T) {\n\tp := &Peer{logger: zap.NewNop(), lastMsgSent: time.Now().Add(-time.Hour)}\n\tp.handlePeerMessage(util.KeepalivePeerMessage)\n\tif time.Since(p.lastMsgSent) < time.Minute {\n\t\tt.Fatal("a received message counts as a sent one")\n\t}\n}\n'
