PROPERTY='C32'; PKG='pkg/logger'
EDITS=[('pkg/logger/logger.go','\t\treturn zapcore.ErrorLevel, nil','\t\treturn zapcore.DPanicLevel, nil')]
NEEDS='the log level error'
BREAKS='errors are not logged'
DEMO='''
package logger

import (
	"testing"

	"go.uber.org/zap/zapcore"
)

func TestDemo(t *testing.T) {
	log, err := NewCommandLine("error", "text")
	if err != nil || !log.Core().Enabled(zapcore.ErrorLevel) || log.Core().Enabled(zapcore.WarnLevel) {
		t.Fatal("error level")
	}
}
'''
