PROPERTY='C23'; PKG='pkg/tracker'
EDITS=[('pkg/tracker/udp_tracker.go', '\tbinary.Write(request, binary.BigEndian, data.Left)\n\tbinary.Write(request, binary.BigEndian, data.Uploaded)\n', '\tbinary.Write(request, binary.BigEndian, data.Uploaded)\n\tbinary.Write(request, binary.BigEndian, data.Left)\n')]
NEEDS='left and uploaded that differ, which they do in all but rare cases'
BREAKS='the tracker takes one for the other'
DEMO='package tracker_test\n\nimport (\n\t"context"\n\t"encoding/binary"\n\t"net"\n\t"testing"\n\t"time"\n\n\t"github.com/anivanovic/gotit"\n\t"github.com/anivanovic/gotit/pkg/tracker"\n\t"go.uber.org/zap"\n)\n\nvar _ = time.Second\n\nfunc serve(t *testing.T, answer func(n int, req []byte) []byte) string {\n\tc, err := net.ListenPacket("udp", "127.0.0.1:0")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tt.Cleanup(func() { c.Close() })\n\tgo func() {\n\t\tb := make([]byte, 2048)\n\t\tfor n := 0; ; n++ {\n\t\t\tl, a, err := c.ReadFrom(b)\n\t\t\tif err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif r := answer(n, b[:l]); r != nil {\n\t\t\t\tc.WriteTo(r, a)\n\t\t\t}\n\t\t}\n\t}()\n\treturn "udp://" + c.LocalAddr().String()\n}\n\nfunc connectReply(req []byte) []byte {\n\tr := make([]byte, 16)\n\tcopy(r[4:8], req[12:16])\n\tbinary.BigEndian.PutUint64(r[8:], 77)\n\treturn r\n}\n\nfunc announceReply(req []byte, peers ...byte) []byte {\n\tr := make([]byte, 20)\n\tr[3] = 1\n\tcopy(r[4:8], req[12:16])\n\tbinary.BigEndian.PutUint32(r[8:], 60)\n\treturn append(r, peers...)\n}\n\nfunc TestDemo(t *testing.T) {\n\tgot := make(chan []byte, 1)\n\turl := serve(t, func(n int, req []byte) []byte {\n\t\tif n == 0 {\n\t\t\treturn connectReply(req)\n\t\t}\n\t\tgot <- append([]byte(nil), req...)\n\t\treturn announceReply(req)\n\t})\n\ttr, err := tracker.New(url, zap.NewNop())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, err := tr.Announce(context.Background(), "aaaaaaaaaaaaaaaaaaaa", &gotit.AnnounceData{Left: 5, Uploaded: 6}); err != nil {\n\t\tt.Fatal(err)\n\t}\n\treq := <-got\n\tif binary.BigEndian.Uint64(req[64:]) != 5 || binary.BigEndian.Uint64(req[72:]) != 6 {\n\t\tt.Fatal(req)\n\t}\n}\n'
