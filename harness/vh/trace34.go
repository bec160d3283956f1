package main

import (
	"context"
	bin "encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/logger"
	"github.com/takenet/deckard/internal/zverif/fakemongo"
	"github.com/takenet/deckard/internal/zverif/fakeredis"
	"github.com/takenet/deckard/internal/zverif/vk"
	"go.opentelemetry.io/otel/attribute"
	oteltrace "go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/noop"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	"google.golang.org/protobuf/proto"
)

// recSpan records the attributes a call gives its span.
type recSpan struct {
	noop.Span
	sc   oteltrace.SpanContext
	mu   sync.Mutex
	attr map[string]attribute.Value
	over bool // the call has returned
	late string
	n    int
}

func (s *recSpan) SpanContext() oteltrace.SpanContext { return s.sc }
func (s *recSpan) IsRecording() bool                  { return s.sc.IsSampled() }
func (s *recSpan) SetAttributes(kv ...attribute.KeyValue) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, k := range kv {
		s.attr[string(k.Key)] = k.Value
		s.n++
		if s.over {
			s.late = string(k.Key)
		}
	}
}

// tracer gives every call its own trace and watches spans and log lines.
type tracer struct {
	mu    sync.Mutex
	r     *rand.Rand
	seq   bool // one call at a time
	cur   *recSpan
	in    bool // a call is executed
	known map[string][]*recSpan
	past  []oteltrace.TraceID
	bad   *mismatch
	lines map[string]int64
	attrs int64
	calls int64
	plain int64
}

func (t *tracer) fail(key, f string, a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.bad == nil {
		t.bad = mm(key, nil, []string{"C34"}, f, a...)
	}
}

func (t *tracer) take() *mismatch {
	t.mu.Lock()
	defer t.mu.Unlock()
	m := t.bad
	t.bad = nil
	if len(t.known) > 50000 {
		t.known = map[string][]*recSpan{}
	}
	return m
}

func (t *tracer) span() *recSpan {
	t.mu.Lock()
	defer t.mu.Unlock()
	var cf oteltrace.SpanContextConfig
	for cf.SpanID == (oteltrace.SpanID{}) || cf.TraceID == (oteltrace.TraceID{}) {
		bin.BigEndian.PutUint64(cf.SpanID[:], t.r.Uint64()>>(t.r.IntN(3)*20))
		bin.BigEndian.PutUint64(cf.TraceID[8:], t.r.Uint64()>>(t.r.IntN(3)*20))
		if t.r.IntN(4) > 0 {
			bin.BigEndian.PutUint64(cf.TraceID[:], t.r.Uint64())
		}
	}
	cf.TraceFlags = oteltrace.TraceFlags(min(1, t.r.IntN(4)))
	cf.Remote = t.r.IntN(2) == 0
	if t.r.IntN(6) == 0 {
		cf.TraceID = oteltrace.TraceID{} // no trace
	}
	if n := len(t.past); n > 0 && t.r.IntN(4) == 0 {
		cf.TraceID = t.past[t.r.IntN(n)] // one of several calls of a trace
	}
	s := &recSpan{sc: oteltrace.NewSpanContext(cf), attr: map[string]attribute.Value{}}
	if s.sc.HasTraceID() {
		k := s.sc.TraceID().String()
		t.known[k] = append(t.known[k], s)
		if t.past = append(t.past, s.sc.TraceID()); len(t.past) > 8 {
			t.past = t.past[1:]
		}
	}
	return s
}

// traceCore receives every log line.
type traceCore struct {
	t *tracer
	f []zapcore.Field
}

func (c traceCore) Enabled(zapcore.Level) bool { return true }
func (c traceCore) Sync() error                { return nil }
func (c traceCore) With(f []zapcore.Field) zapcore.Core {
	return traceCore{c.t, append(append([]zapcore.Field(nil), c.f...), f...)}
}
func (c traceCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce.AddCore(e, c)
}
func (c traceCore) Write(e zapcore.Entry, f []zapcore.Field) error {
	m := map[string]string{}
	for _, x := range append(append([]zapcore.Field(nil), c.f...), f...) {
		if x.Type == zapcore.StringType {
			if _, twice := m[x.Key]; twice {
				m[x.Key] += " and " + x.String
				continue
			}
			m[x.Key] = x.String
		} else if x.Key == "trace_id" || x.Key == "span_id" || x.Key == "trace_flags" {
			m[x.Key] = fmt.Sprint(x.Interface, x.Integer)
		}
	}
	c.t.line(e, m["trace_id"], m["span_id"], m["trace_flags"])
	return nil
}

func (t *tracer) line(e zapcore.Entry, trace, span, flags string) {
	t.mu.Lock()
	s, cur, in, seq := t.known[trace], t.cur, t.in, t.seq
	if trace != "" {
		t.lines["log lines with a trace"]++
	} else {
		t.lines["log lines without a trace"]++
	}
	t.mu.Unlock()
	if seq && in {
		if cur != nil && cur.sc.HasTraceID() {
			if trace != cur.sc.TraceID().String() || span != cur.sc.SpanID().String() || flags != cur.sc.TraceFlags().String() {
				t.fail("line-not-traced", "the line %q written during a call of trace %s, span %s, flags %s names trace %q, span %q, flags %q", e.Message, cur.sc.TraceID(), cur.sc.SpanID(), cur.sc.TraceFlags(), trace, span, flags)
			}
		} else if trace+span+flags != "" {
			t.fail("line-traced", "the line %q written during a call without a trace names trace %q, span %q, flags %q", e.Message, trace, span, flags)
		}
		return
	}
	if trace+span+flags == "" {
		return
	}
	if seq && (cur == nil || trace != cur.sc.TraceID().String()) {
		t.fail("line-of-another-call", "the line %q of housekeeping names trace %q, span %q, flags %q", e.Message, trace, span, flags)
		return
	}
	if len(s) == 0 {
		t.fail("line-unknown-trace", "the line %q names trace %q, span %q, flags %q: no call has it", e.Message, trace, span, flags)
	}
	for _, s := range s {
		if span == s.sc.SpanID().String() && flags == s.sc.TraceFlags().String() {
			return
		}
	}
	t.fail("line-mixed-trace", "the line %q names trace %s with span %q and flags %q; no call of that trace has them", e.Message, trace, span, flags)
}

type tracedAPI struct {
	api
	t *tracer
}

// traced executes a call within a span of its own and compares the span's attributes afterwards.
func traced[Q proto.Message, A proto.Message](a tracedAPI, ctx context.Context, q Q, do func(context.Context, Q) (A, error), want func(q Q, r A, err error) map[string]any) (A, error) {
	t := a.t
	s := t.span()
	given := proto.Clone(q).(Q)
	t.mu.Lock()
	t.calls++
	none := t.r.IntN(8) == 0
	if none {
		t.plain++
		s = nil
	}
	if t.seq {
		t.cur, t.in = s, true
	}
	t.mu.Unlock()
	if s != nil {
		ctx = oteltrace.ContextWithSpan(ctx, s)
	}
	r, err := do(ctx, q)
	t.mu.Lock()
	t.in = false
	t.mu.Unlock()
	if s == nil || !s.sc.HasTraceID() || !s.IsRecording() {
		return r, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.over = true
	w := want(given, r, err)
	for _, k := range sortedKeys(w) {
		v, has := s.attr[k]
		if l, isL := w[k].([]string); isL && len(l) == 0 && !has {
			continue
		}
		if !has {
			t.fail("span-without", "the span of %T %s has no attribute %s", given, brief1(given), k)
			continue
		}
		if !sameAttr(v, w[k]) {
			t.fail("span-attribute", "the span of %T %s says %s = %v, want %v", given, brief1(given), k, v.AsInterface(), w[k])
		}
		t.mu.Lock()
		t.attrs++
		t.mu.Unlock()
	}
	for _, k := range []string{"deckard.id", "deckard.queue"} {
		if v, has := s.attr[k]; has && w != nil && w[k] == nil && len(v.AsStringSlice()) > 0 && err == nil {
			t.fail("span-foreign", "the span of %T %s says %s = %v", given, brief1(given), k, v.AsInterface())
		}
	}
	return r, err
}

func brief1(m proto.Message) string { return fmt.Sprintf("%.300v", m) }

func sameAttr(v attribute.Value, want any) bool {
	switch x := want.(type) {
	case []string:
		got := append([]string(nil), v.AsStringSlice()...)
		if v.Type() == attribute.STRING {
			got = []string{v.AsString()}
		}
		x = append([]string(nil), x...)
		sort.Strings(got)
		sort.Strings(x)
		return strings.Join(got, "\x00|") == strings.Join(x, "\x00|") && len(got) == len(x)
	case int64:
		return v.Type() == attribute.INT64 && v.AsInt64() == x
	case float64:
		return v.Type() == attribute.FLOAT64 && (v.AsFloat64() == x || math.IsNaN(x) && math.IsNaN(v.AsFloat64()))
	}
	return false
}

func (a tracedAPI) Add(c context.Context, q *deckard.AddRequest) (*deckard.AddResponse, error) {
	return traced(a, c, q, a.api.Add, func(q *deckard.AddRequest, _ *deckard.AddResponse, _ error) map[string]any {
		ids, qs, seen := []string{}, []string{}, map[string]bool{}
		for _, m := range q.Messages {
			ids = append(ids, m.GetId())
			if !seen[m.GetQueue()] {
				seen[m.GetQueue()] = true
				qs = append(qs, m.GetQueue())
			}
		}
		return map[string]any{"deckard.id": ids, "deckard.queue": qs}
	})
}

func (a tracedAPI) Pull(c context.Context, q *deckard.PullRequest) (*deckard.PullResponse, error) {
	return traced(a, c, q, a.api.Pull, func(q *deckard.PullRequest, r *deckard.PullResponse, err error) map[string]any {
		w := map[string]any{"deckard.queue": []string{q.Queue}, "deckard.amount": int64(q.Amount), "deckard.max_score": q.MaxScore, "deckard.min_score": q.MinScore, "deckard.score_filter": q.ScoreFilter}
		if err == nil {
			ids := []string{}
			for _, m := range r.Messages {
				ids = append(ids, m.Id)
			}
			w["deckard.id"] = ids
		}
		return w
	})
}

func (a tracedAPI) Ack(c context.Context, q *deckard.AckRequest) (*deckard.AckResponse, error) {
	return traced(a, c, q, a.api.Ack, func(q *deckard.AckRequest, _ *deckard.AckResponse, _ error) map[string]any {
		return map[string]any{"deckard.id": []string{q.Id}, "deckard.queue": []string{q.Queue}, "deckard.score_subtract": q.ScoreSubtract, "deckard.score": q.Score}
	})
}

func (a tracedAPI) Nack(c context.Context, q *deckard.AckRequest) (*deckard.AckResponse, error) {
	return traced(a, c, q, a.api.Nack, func(q *deckard.AckRequest, _ *deckard.AckResponse, _ error) map[string]any {
		return map[string]any{"deckard.id": []string{q.Id}, "deckard.queue": []string{q.Queue}}
	})
}

func (a tracedAPI) Count(c context.Context, q *deckard.CountRequest) (*deckard.CountResponse, error) {
	return traced(a, c, q, a.api.Count, func(q *deckard.CountRequest, _ *deckard.CountResponse, _ error) map[string]any {
		return map[string]any{"deckard.queue": []string{q.Queue}}
	})
}

func (a tracedAPI) Remove(c context.Context, q *deckard.RemoveRequest) (*deckard.RemoveResponse, error) {
	return traced(a, c, q, a.api.Remove, func(q *deckard.RemoveRequest, _ *deckard.RemoveResponse, _ error) map[string]any {
		if len(q.Ids) == 0 {
			return map[string]any{}
		}
		return map[string]any{"deckard.id": q.Ids, "deckard.queue": []string{q.Queue}}
	})
}

func (a tracedAPI) GetById(c context.Context, q *deckard.GetByIdRequest) (*deckard.GetByIdResponse, error) {
	return traced(a, c, q, a.api.GetById, func(q *deckard.GetByIdRequest, _ *deckard.GetByIdResponse, _ error) map[string]any {
		if q.Id == "" || q.Queue == "" {
			return map[string]any{}
		}
		return map[string]any{"deckard.id": []string{q.Id}, "deckard.queue": []string{q.Queue}}
	})
}

func (a tracedAPI) EditQueue(c context.Context, q *deckard.EditQueueRequest) (*deckard.EditQueueResponse, error) {
	return traced(a, c, q, a.api.EditQueue, func(q *deckard.EditQueueRequest, _ *deckard.EditQueueResponse, _ error) map[string]any {
		return nil
	})
}

func (a tracedAPI) GetQueue(c context.Context, q *deckard.GetQueueRequest) (*deckard.GetQueueResponse, error) {
	return traced(a, c, q, a.api.GetQueue, func(q *deckard.GetQueueRequest, _ *deckard.GetQueueResponse, _ error) map[string]any {
		return nil
	})
}

// newTracer redirects the log of the whole process.
func newTracer(seed uint64) *tracer {
	quiet()
	t := &tracer{r: rand.New(rand.NewPCG(seed, 34)), known: map[string][]*recSpan{}, lines: map[string]int64{}, seq: true}
	zap.ReplaceGlobals(zap.New(traceCore{t: t}))
	return t
}

func (t *tracer) env() traceEnv {
	return traceEnv{
		open: func(tc *traceCase) (*world, error) {
			w, err := newWorld(worldOpts{kind: tc.Kind, prefix: "deckard", repl: tc.Repl})
			if err == nil {
				w.api = tracedAPI{w.api, t}
			}
			return w, err
		},
		after: func(e *engine, op *Op) *mismatch { return t.take() },
	}
}

// tracedFailures: lines and spans of calls whose back-end commands fail.
func tracedFailures(c *vk.Ctx, t *tracer) {
	for _, kind := range []string{"rg", "mg", "rm", "cg"} {
		for at := 0; at < 4; at++ {
			kase := map[string]any{"scenario": "traced calls whose commands fail", "back ends": kind, "failing command": at}
			c.Guard("traced failures", kase, func() {
				w := mustWorld(kind)
				defer w.close()
				w.api = tracedAPI{w.api, t}
				for i := 0; i < 6; i++ {
					fatal(w.addSimple("q", fmt.Sprint("m", i), float64(i+1), 0))
				}
				_, err := w.pullIDs("q", 2, 1<<40)
				fatal(err)
				calls := []func() error{
					func() error { return w.addSimple("q", "m9", 3, 0) },
					func() error { _, err := w.pullIDs("q", 3, 1000); return err },
					func() error {
						_, err := w.api.Ack(pctx(), &deckard.AckRequest{Queue: "q", Id: "m0", Score: 7, ScoreSubtract: 2})
						return err
					},
					func() error { _, err := w.api.Nack(pctx(), &deckard.AckRequest{Queue: "q", Id: "m1"}); return err },
					func() error { _, err := w.api.Count(pctx(), &deckard.CountRequest{Queue: "q"}); return err },
					func() error {
						_, err := w.api.GetById(pctx(), &deckard.GetByIdRequest{Queue: "q", Id: "m1"})
						return err
					},
					func() error {
						_, err := w.api.Remove(pctx(), &deckard.RemoveRequest{Queue: "q", Ids: []string{"m1", "m5"}})
						return err
					},
					func() error { _, err := w.api.GetQueue(pctx(), &deckard.GetQueueRequest{Queue: "q"}); return err },
					func() error {
						_, err := w.api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: 4}})
						return err
					},
				}
				for i, call := range calls {
					for rep := 0; rep < 3; rep++ {
						x := failNth(w, at)
						err := call()
						x()
						c.Eval(1)
						if err != nil {
							c.Count("traced calls that failed", 1)
						}
						c.Distinct(fmt.Sprint("failing ", kind, at, i, err != nil))
						if m := t.take(); m != nil {
							c.Violation(m.key, kase, "%s", m.text)
						}
					}
				}
			})
			if c.Violated() {
				return
			}
		}
	}
}

// failNth makes the n-th back-end command from now on fail; the result ends that.
func failNth(w *world, n int) func() {
	var mu sync.Mutex
	k := 0
	hit := func() bool {
		mu.Lock()
		defer mu.Unlock()
		k++
		return k == n+1
	}
	setFaults(w, hit)
	return func() { setFaults(w, nil) }
}

var p34 = &profile{name: "C34", w: with(baseWeights, map[string]int{"edit": 3, "getq": 3, "get": 8, "remove": 6, "count": 6}), names: "hostile", scores: []string{"small", "mixed", "extreme"}, locks: 30, rm: 15, bounds: 40, ttl: 10, update: 30, queues: 3, ids: 8, kinds: []string{"mm", "rg", "mg", "rm", "cg", "cm"}, steps: 60}

func init() {
	vk.Register(&vk.Check{Prop: "C34", Shards: 6, QuickS: 25, ThoroughS: 240,
		Rule:        traceRule + "; or a call whose n-th back-end command failed; or an interleaving of concurrent traced calls",
		Assumptions: append([]string{"spans are the harness's own implementation of the tracing interface, put into the context of each call: the exporter and the interceptor that create them in production are not available in the sandbox and are not exercised"}, backendAssumptions...),
		Run: func(c *vk.Ctx) {
			t := newTracer(c.Rand(uint64(3400 + c.Shard)).Uint64())
			defer func() {
				for k, v := range t.lines {
					c.Count(k, v)
				}
				c.Count("span attributes compared", t.attrs)
				c.Count("calls", t.calls)
				c.Count("calls without a span", t.plain)
			}()
			traceLoggers(c, t)
			if c.Shard == 0 {
				tracedFailures(c, t)
			}
			traceRounds(c, t, c.N(60, 6000), 0.4)
			t.seq = true
			env = t.env()
			explore(c, "C34", p34, c.N(2000, 60000), 1)
			env = traceEnv{}
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			t := newTracer(1)
			tracedFailures(c, t)
			if c.Violated() {
				return
			}
			env = t.env()
			replayTrace("C34")(c, raw)
			env = traceEnv{}
			if !c.Violated() {
				traceRounds(c, t, 200, 1)
			}
		}})
}

// traceLoggers: both loggers name exactly the span of their context.
func traceLoggers(c *vk.Ctx, t *tracer) {
	for i := 0; i < 200; i++ {
		s := t.span()
		t.cur, t.in = s, true
		ctx := oteltrace.ContextWithSpan(context.Background(), s)
		logger.L(ctx).Info("through L")
		logger.S(ctx).Info("through S")
		logger.S(context.WithoutCancel(ctx)).Debugw("through a derived context", "k", 1)
		t.cur = nil // no span
		logger.L(context.Background()).Info("through L without a span")
		logger.S(context.Background()).Info("through S without a span")
		t.in = false
		c.Eval(1)
	}
	if m := t.take(); m != nil {
		c.Violation(m.key, map[string]any{"scenario": "loggers of random spans"}, "%s", m.text)
	}
}

// traceRounds executes traced calls of several clients at the same time.
func traceRounds(c *vk.Ctx, t *tracer, n int, frac float64) {
	t.seq = false
	for i := c.Shard; i < n && !c.Past(frac) && !c.Violated(); i += max(c.Shards, 1) {
		r := c.Rand(uint64(340000 + i))
		kind := pick(r, "mm", "rg", "mm", "cg")
		kase := map[string]any{"scenario": "concurrent traced calls", "back ends": kind, "round": i}
		c.Guard("traced round", kase, func() {
			w := mustWorld(kind)
			defer w.close()
			a := tracedAPI{w.api, t}
			var wg sync.WaitGroup
			for g := 0; g < 6; g++ {
				seed := r.Uint64()
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewPCG(seed, 1))
					for k := 0; k < 40; k++ {
						q, id := fmt.Sprint("q", r.IntN(2)), fmt.Sprint("m", r.IntN(12))
						switch r.IntN(6) {
						case 0, 1:
							rq := &deckard.AddRequest{}
							for j := 0; j <= r.IntN(4); j++ {
								rq.Messages = append(rq.Messages, &deckard.AddMessage{Id: fmt.Sprint("m", r.IntN(12)), Queue: fmt.Sprint("q", r.IntN(2)), Timeless: true})
							}
							_, _ = a.Add(pctx(), rq)
						case 2, 3:
							_, _ = a.Pull(pctx(), &deckard.PullRequest{Queue: q, Amount: int32(r.IntN(4)), MaxScore: float64(r.IntN(2)) * 1e15})
						case 4:
							_, _ = a.Ack(pctx(), &deckard.AckRequest{Id: id, Queue: q, Score: float64(r.IntN(9)), ScoreSubtract: r.Float64()})
						default:
							_, _ = a.Remove(pctx(), &deckard.RemoveRequest{Queue: q, Ids: []string{id}})
						}
					}
				}()
			}
			wg.Wait()
			c.Eval(1)
			c.Count("rounds of concurrent traced calls", 1)
			c.Distinct(fmt.Sprint("round", i, kind))
			if m := t.take(); m != nil {
				c.Violation(m.key, kase, "%s", m.text)
			}
		})
	}
}

// setFaults makes the commands fail that hit chooses.
func setFaults(w *world, hit func() bool) {
	if w.redis != nil {
		if hit == nil {
			w.redis.SetFault(nil)
		} else {
			w.redis.SetFault(func(*fakeredis.Command) fakeredis.Action {
				if hit() {
					return fakeredis.FailErr
				}
				return fakeredis.Pass
			})
		}
	}
	if w.mongo != nil {
		if hit == nil {
			w.mongo.SetFault(nil)
		} else {
			w.mongo.SetFault(func(*fakemongo.Command) fakemongo.Action {
				if hit() {
					return fakemongo.FailErr
				}
				return fakemongo.Pass
			})
		}
	}
}
