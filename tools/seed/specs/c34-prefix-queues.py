id='c34-prefix-queues'; prop='C34'
needs='one add for queues that share a prefix, within a traced call'
breaks='the span of an add names the prefixes of its queues, not the queues: two queues of one prefix become one'
edits=[('internal/service/deckard_service.go','		queues[m.Queue] = 1\n',''),('internal/service/deckard_service.go','		msg.QueuePrefix = queuePrefix\n','		msg.QueuePrefix = queuePrefix\n		queues[queuePrefix] = 1\n')]
demo='''
package zdemo

import (
	"sort"
	"testing"

	"github.com/takenet/deckard"
	"go.opentelemetry.io/otel/attribute"
	oteltrace "go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/noop"
)

type span struct {
	noop.Span
	got map[string]attribute.Value
}

func (s span) IsRecording() bool { return true }
func (s span) SpanContext() oteltrace.SpanContext {
	return oteltrace.NewSpanContext(oteltrace.SpanContextConfig{TraceID: oteltrace.TraceID{1}, SpanID: oteltrace.SpanID{2}, TraceFlags: 1})
}
func (s span) SetAttributes(kv ...attribute.KeyValue) {
	for _, a := range kv {
		s.got[string(a.Key)] = a.Value
	}
}

func TestDemo(t *testing.T) {
	w := start(t, "mm")
	a, b, c := m("1", 1, 0), m("2", 1, 0), m("3", 1, 0)
	a.Queue, b.Queue, c.Queue = "p::x", "p::y", "other"
	s := span{got: map[string]attribute.Value{}}
	_, err := w.svc.Add(oteltrace.ContextWithSpan(ctx, s), &deckard.AddRequest{Messages: []*deckard.AddMessage{a, b, c}})
	w.must(err)
	got := s.got["deckard.queue"].AsStringSlice()
	sort.Strings(got)
	if !eq(got, "other", "p::x", "p::y") {
		t.Fatal("the span names the queues ", got)
	}
}
'''
