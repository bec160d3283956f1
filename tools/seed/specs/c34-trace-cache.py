id='c34-trace-cache'; prop='C34'
needs='two calls of one trace with log lines of both'
breaks='the logger of a trace is kept per trace: the lines of the second call of a trace carry the span of the first'
edits=[('internal/logger/logger.go','''	return zap.S().With(
		"trace_id"''','''	kept, _ := perTrace.LoadOrStore(spanContext.TraceID(), spanContext)
	spanContext = kept.(trace.SpanContext)

	return zap.S().With(
		"trace_id"'''),
 ('internal/logger/logger.go','func S(ctx context.Context) *zap.SugaredLogger {','''// perTrace keeps the context of each trace.
var perTrace sync.Map

// S returns the logger of the call's trace
func S(ctx context.Context) *zap.SugaredLogger {'''),
 ('internal/logger/logger.go','		"trace_flags", spanContext.TraceFlags().String(),','		"trace_flags", kept.(trace.SpanContext).TraceFlags().String(),'),
 ('internal/logger/logger.go','	"os"\n','	"os"\n	"sync"\n')]
demo='''
package zdemo

import (
	"strings"
	"testing"

	"github.com/takenet/deckard"
	oteltrace "go.opentelemetry.io/otel/trace"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

type core struct {
	lines *[]string
	f     []zapcore.Field
}

func (c core) Enabled(zapcore.Level) bool { return true }
func (c core) Sync() error                { return nil }
func (c core) With(f []zapcore.Field) zapcore.Core {
	return core{c.lines, append(append([]zapcore.Field(nil), c.f...), f...)}
}
func (c core) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce.AddCore(e, c)
}
func (c core) Write(e zapcore.Entry, f []zapcore.Field) error {
	l := ""
	for _, x := range append(append([]zapcore.Field(nil), c.f...), f...) {
		l += x.Key + "=" + x.String + " "
	}
	*c.lines = append(*c.lines, l)
	return nil
}

func TestDemo(t *testing.T) {
	w := start(t, "mm")
	var lines []string
	zap.ReplaceGlobals(zap.New(core{lines: &lines}))
	for i := byte(1); i <= 3; i++ {
		lines = nil
		sc := oteltrace.NewSpanContext(oteltrace.SpanContextConfig{TraceID: oteltrace.TraceID{9}, SpanID: oteltrace.SpanID{i}, TraceFlags: 1})
		a := m("1", 1, 0)
		a.Queue = "q"
		_, err := w.svc.Add(oteltrace.ContextWithSpanContext(ctx, sc), &deckard.AddRequest{Messages: []*deckard.AddMessage{a}})
		w.must(err)
		for _, l := range lines {
			if !strings.Contains(l, "span_id="+sc.SpanID().String()) {
				t.Fatalf("a line of span %s says %s", sc.SpanID(), l)
			}
		}
		if len(lines) == 0 {
			t.Skip("nothing logged")
		}
	}
}
'''
