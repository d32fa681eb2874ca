package logger

//verif:real go.uber.org/zap
//verif:real go.uber.org/zap/zapcore
//verif:real go.uber.org/zap/buffer

import (
	"github.com/anivanovic/gotit/internal/verif/vs"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// What the help of the command line promises, and the least level that gets
// through.
var hLevels = []struct {
	name  string
	least zapcore.Level
}{
	{"info", zapcore.InfoLevel},
	{"debug", zapcore.DebugLevel},
	{"trace", zapcore.DebugLevel},
	{"warning", zapcore.WarnLevel},
	{"error", zapcore.ErrorLevel},
	{"silent", zapcore.FatalLevel + 1},
}

var hFormats = []string{"text", "color", "json"}

// Every level and format there is.
func VerifC32_Level() {
	l := hLevels[vs.Choose("level", len(hLevels))]
	f := hFormats[vs.Choose("format", len(hFormats))]
	log, err := NewCommandLine(l.name, f)
	vs.Assert(err == nil, "level-refused")
	vs.Assert(log != nil, "no-logger")
	for at := zapcore.DebugLevel; at <= zapcore.ErrorLevel; at++ {
		vs.Assert(log.Core().Enabled(at) == (at >= l.least), "level")
	}
	vs.Reach("end")
}

// hNorm is the text without letter case and surrounding white space.
func hNorm(s string) string {
	b := []byte(s)
	for i, c := range b {
		b[i] = vs.IteU8(vs.And(c >= 'A', c <= 'Z'), c+32, c)
	}
	sp := func(c byte) bool { return c == ' ' || c >= 9 && c <= 13 }
	for len(b) > 0 && sp(b[0]) {
		b = b[1:]
	}
	for len(b) > 0 && sp(b[len(b)-1]) {
		b = b[:len(b)-1]
	}
	return string(b)
}

func hAny(log *zap.Logger, err error, text string, names ...string) {
	vs.Assert((log == nil) == (err != nil), "logger-or-error")
	n, like := hNorm(text), false
	for _, x := range names {
		if len(x) == len(n) {
			like = vs.Or(like, vs.EqStr(x, n))
		}
		if len(x) == len(text) {
			vs.Assert(vs.Implies(vs.EqStr(x, text), err == nil), "refused")
		}
	}
	if err == nil {
		vs.Assert(like, "other-text-accepted")
		vs.Reach("accepted")
	} else {
		vs.Reach("refused")
	}
}

func hText(name string, max int) string {
	n := vs.Choose(name+" characters", max+1)
	s := vs.Str(name, n)
	for i := 0; i < n; i++ {
		vs.Assume(s[i] < 0x80)
	}
	return s
}

// Any text: a logger or an error.
func VerifC32_AnyLevel() {
	level := hText("level", vs.Bound("level characters", 7, 9))
	log, err := NewCommandLine(level, "text")
	hAny(log, err, level, "info", "debug", "trace", "warning", "warn", "error", "silent", "")
}

func VerifC32_AnyFormat() {
	format := hText("format", vs.Bound("format characters", 7, 9))
	log, err := NewCommandLine("info", format)
	hAny(log, err, format, "text", "color", "json", "")
}
