package cmd

//verif:optional
//verif:real go.uber.org/zap
//verif:real go.uber.org/zap/zapcore
//verif:real go.uber.org/zap/buffer

import (
	"context"
	"os"
	"strconv"

	"github.com/anivanovic/gotit/internal/verif/ffs"
	"github.com/anivanovic/gotit/internal/verif/vs"
	"github.com/anivanovic/gotit/pkg/download"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/spf13/cobra"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

type hExited struct{}

var (
	hCode    int
	hLeft    bool
	hLog     *zap.Logger
	hTorrent *torrent.Torrent
	hPeers   int
	hPort    int
	hStarted int
	hFails   bool
)

//verif:hook os.Exit hExit
func hExit(code int) {
	hLeft, hCode = true, code
	panic(hExited{})
}

//verif:hook os.Getwd hGetwd
func hGetwd() (string, error) { return "/home", nil }

//verif:hook (*github.com/spf13/cobra.Command).Usage hUsage
func hUsage(c *cobra.Command) error { return nil }

//verif:hook (*github.com/spf13/cobra.Command).UsageString hUsageString
func hUsageString(c *cobra.Command) string { return "" }

//verif:hook os/signal.NotifyContext hNotify
func hNotify(parent context.Context, signals ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}

//verif:hook github.com/anivanovic/gotit/pkg/download.NewMng hNewMng
func hNewMng(t *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *download.Manager {
	hTorrent, hLog, hPeers, hPort = t, logger, peerNum, listenPort
	return &download.Manager{}
}

//verif:hook (*github.com/anivanovic/gotit/pkg/download.Manager).Download hDownload
func hDownload(m *download.Manager, ctx context.Context) error {
	hStarted++
	if hFails {
		return ffs.ErrIO
	}
	return nil
}

//verif:hook (*github.com/anivanovic/gotit/pkg/download.Manager).Stop hStop
func hStop(m *download.Manager) {}

// hRun runs the command line and returns the status the process ends with.
func hRun(args ...string) (code int) {
	ffs.Files, ffs.Dirs, ffs.Other = nil, nil, nil
	hLeft, hStarted, hLog, hTorrent = false, 0, nil, nil
	os.Args = append([]string{"gotit"}, args...)
	defer func() {
		if hLeft {
			recover()
			code = hCode
		}
	}()
	if err := NewApp().Execute(); err != nil {
		return 1 // as main does
	}
	return 0
}

const hGood = "d8:announce8:http://t4:infod6:lengthi3e4:name1:f12:piece lengthi4e6:pieces20:aaaaaaaaaaaaaaaaaaaaee"

// Every level, in either spelling of the option.
func VerifC32_Options() {
	levels := []struct {
		name  string
		least zapcore.Level
	}{
		{"info", zapcore.InfoLevel},
		{"debug", zapcore.DebugLevel},
		{"trace", zapcore.DebugLevel},
		{"warning", zapcore.WarnLevel},
		{"error", zapcore.ErrorLevel},
		{"silent", zapcore.FatalLevel + 1},
		{"", zapcore.InfoLevel},
		{"nonsense", 0},
	}
	formats := []string{"text", "color", "json", "", "nonsense"}
	l := levels[vs.Choose("level", len(levels))]
	f := formats[vs.Choose("format", len(formats))]
	ffs.Sources = []*ffs.Source{{Path: "/out", IsDir: true}, {Path: "/t", Data: []byte(hGood)}}
	args := []string{"download", "--out", "/out", "/t"}
	if l.name != "" {
		if vs.Bool("short") {
			args = append(args, "-l", l.name)
		} else {
			args = append(args, "--log-level="+l.name)
		}
	}
	if f != "" {
		args = append(args, "--log-format", f)
	}
	peers, port := 30, 6666
	if vs.Bool("numbers") {
		peers, port = 7, 51413
		args = append(args, "-n", strconv.Itoa(peers), "--port", strconv.Itoa(port))
	}
	code := hRun(args...)
	if l.name == "nonsense" || f == "nonsense" && l.name != "silent" {
		vs.Assert(code != 0, "bad-option-accepted")
		vs.Assert(hStarted == 0 && len(ffs.Created()) == 0 && len(ffs.Dirs) == 0, "bad-option-started")
		vs.Reach("refused")
		return
	}
	vs.Assert(code == 0 || f == "nonsense", "good-option-refused")
	if code != 0 {
		return
	}
	vs.Assert(hStarted == 1 && hLog != nil, "not-started")
	for at := zapcore.DebugLevel; at <= zapcore.ErrorLevel; at++ {
		vs.Assert(hLog.Core().Enabled(at) == (at >= l.least), "level-not-used")
	}
	vs.Assert(hPeers == peers, "peer-number-not-used")
	vs.Assert(hPort == port, "port-not-used")
	vs.Assert(hTorrent != nil && hTorrent.Name == "f", "other-torrent")
	for _, x := range ffs.Created() {
		vs.Assert(x.Path == "/out/f", "file-elsewhere")
	}
	vs.Reach("started")
}

// What a download needs may be missing in every combination.
func VerifC32_Inputs() {
	out := vs.Choose("output", 4)
	file := vs.Choose("torrent", 5)
	hFails = vs.Bool("download fails")
	ffs.Sources = []*ffs.Source{}
	if out > 0 {
		ffs.Sources = append(ffs.Sources, &ffs.Source{Path: "/out", IsDir: out == 1, Special: out == 3})
	}
	t := &ffs.Source{Path: "/t", Data: []byte(hGood)}
	switch file {
	case 1:
		t.ReadFails = true
	case 2:
		t.Data = nil
	case 3:
		// cut short anywhere
		t.Data = t.Data[:vs.Choose("cut", len(t.Data))]
	case 4:
		t = nil
	}
	if t != nil {
		ffs.Sources = append(ffs.Sources, t)
	}
	code := hRun("download", "-o", "/out", "/t")
	if out == 1 && file == 0 {
		vs.Assert(hStarted == 1, "not-started")
		vs.Assert((code != 0) == hFails, "status")
		vs.Reach("started")
		return
	}
	vs.Assert(code != 0, "status")
	vs.Assert(hStarted == 0 && len(ffs.Created()) == 0 && len(ffs.Dirs) == 0, "created-something")
	vs.Reach("refused")
}

// A command line that lacks the output directory or the file, or has too many.
func VerifC32_Usage() {
	ffs.Sources = []*ffs.Source{{Path: "/out", IsDir: true}, {Path: "/t", Data: []byte(hGood)}}
	lines := [][]string{
		{"download", "/t"},
		{"download", "-o", "/out"},
		{"download", "-o", "/out", "/t", "/t"},
		{"download", "-o", "/out", "-n", "x", "/t"},
		{"download", "-o", "/out", "-p", "1x", "/t"},
		{"download", "-o", "/out", "--unknown", "/t"},
		{"unknown"},
		{"bencode"},
		{"bencode", "/t", "/t"},
		{"bencode", "/missing"},
		{"bencode", "-l", "silent", "/missing"},
		{"download", "-o", "/out", "--config", "/missing", "/t"},
	}
	code := hRun(lines[vs.Choose("line", len(lines))]...)
	vs.Assert(code != 0, "status")
	vs.Assert(hStarted == 0 && len(ffs.Created()) == 0 && len(ffs.Dirs) == 0, "created-something")
	vs.Reach("refused")
}

// Any one byte of the torrent file may be anything: it is downloaded or
// refused, and nothing is created when it is refused.
func VerifC32_AnyFile() {
	b := []byte(hGood)
	at := vs.Choose("at", len(b))
	b[at] = vs.U8("byte")
	ffs.Sources = []*ffs.Source{{Path: "/out", IsDir: true}, {Path: "/t", Data: b}}
	code := hRun("download", "-o", "/out", "/t")
	vs.Assert((code == 0) == (hStarted == 1), "status")
	if code != 0 {
		vs.Assert(len(ffs.Created()) == 0 && len(ffs.Dirs) == 0, "created-something")
		vs.Reach("refused")
	} else {
		vs.Reach("started")
	}
}

// The torrent file of the bencode command.
func VerifC32_Bencode() {
	t := &ffs.Source{Path: "/t", Data: []byte(hGood)}
	good := false
	switch vs.Choose("torrent", 3) {
	case 0:
		good = true
	case 1:
		t.ReadFails = true
	case 2:
		t.Data = t.Data[:vs.Choose("cut", len(t.Data))]
	}
	ffs.Sources = []*ffs.Source{t}
	code := hRun("bencode", "/t")
	vs.Assert((code == 0) == good, "status")
	vs.Assert(len(ffs.Created()) == 0 && len(ffs.Dirs) == 0, "created-something")
	if good {
		vs.Reach("good")
	} else {
		vs.Reach("refused")
	}
}

// Any port and any number of peers, written in decimal.
func VerifC32_Numbers() {
	ffs.Sources = []*ffs.Source{{Path: "/out", IsDir: true}, {Path: "/t", Data: []byte(hGood)}}
	n := 1 + vs.Choose("digits", 5)
	num := func(name string) (string, int) {
		s, v := vs.Str(name, n), 0
		for i := 0; i < n; i++ {
			vs.Assume(vs.And(s[i] >= '0', s[i] <= '9'))
			v = v*10 + int(s[i]-'0')
		}
		vs.Assume(s[0] != '0')
		return s, v
	}
	ps, port := num("port")
	ns, peers := num("peers")
	vs.Assume(port <= 65535)
	code := hRun("download", "-o", "/out", "-p", ps, "--num-peer", ns, "/t")
	vs.Assert(code == 0 && hStarted == 1, "refused")
	vs.Assert(vs.And(hPort == port, hPeers == peers), "other-number")
	vs.Reach("started")
}
