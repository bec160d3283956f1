// Package trace is an offline stand-in for the tracing SDK: spans follow their
// parent's sampling decision (roots are sampled), finished spans are exported in
// batches, every five seconds and at shutdown; spans that end later are dropped.
package trace

import (
	"context"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/noop"
)

type ReadOnlySpan interface {
	Name() string
	SpanContext() trace.SpanContext
	Parent() trace.SpanContext
	SpanKind() trace.SpanKind
	Attributes() []attribute.KeyValue
	Resource() *resource.Resource
}

type SpanExporter interface {
	ExportSpans(ctx context.Context, spans []ReadOnlySpan) error
	Shutdown(ctx context.Context) error
}

// Shutdowns counts the tracer providers that were shut down.
var Shutdowns atomic.Int64

type TracerProvider struct {
	noop.TracerProvider
	batched []*batcher
	synced  []SpanExporter
	res     *resource.Resource
	sampler Sampler
	down    atomic.Bool
}

var _ trace.TracerProvider = (*TracerProvider)(nil)

type TracerProviderOption interface{ apply(*TracerProvider) }
type optFn func(*TracerProvider)

func (f optFn) apply(t *TracerProvider) { f(t) }

type BatchSpanProcessorOption func()

func WithBatcher(e SpanExporter, _ ...BatchSpanProcessorOption) TracerProviderOption {
	return optFn(func(t *TracerProvider) { t.batched = append(t.batched, newBatcher(e)) })
}
func WithSyncer(e SpanExporter) TracerProviderOption {
	return optFn(func(t *TracerProvider) { t.synced = append(t.synced, e) })
}
func WithResource(r *resource.Resource) TracerProviderOption {
	return optFn(func(t *TracerProvider) { t.res = r })
}
func WithSampler(s Sampler) TracerProviderOption {
	return optFn(func(t *TracerProvider) { t.sampler = s })
}

type Sampler interface {
	Description() string
	sampled(parent trace.SpanContext) bool
}
type always bool

func (always) Description() string              { return "constant" }
func (a always) sampled(trace.SpanContext) bool { return bool(a) }
func AlwaysSample() Sampler                     { return always(true) }
func NeverSample() Sampler                      { return always(false) }

type ratio float64

func (ratio) Description() string              { return "ratio" }
func (r ratio) sampled(trace.SpanContext) bool { return rand.Float64() < float64(r) }
func TraceIDRatioBased(f float64) Sampler      { return ratio(f) }

type parentBased struct{ root Sampler }

func (parentBased) Description() string { return "parent based" }
func (p parentBased) sampled(parent trace.SpanContext) bool {
	if parent.IsValid() {
		return parent.IsSampled()
	}
	return p.root.sampled(parent)
}
func ParentBased(root Sampler) Sampler { return parentBased{root} }

func NewTracerProvider(opts ...TracerProviderOption) *TracerProvider {
	t := &TracerProvider{res: resource.Default(), sampler: ParentBased(AlwaysSample())}
	for _, o := range opts {
		o.apply(t)
	}
	return t
}

func (t *TracerProvider) Tracer(string, ...trace.TracerOption) trace.Tracer { return tracer{p: t} }

func (t *TracerProvider) Shutdown(ctx context.Context) error {
	Shutdowns.Add(1)
	if t.down.Swap(true) {
		return nil
	}
	var first error
	for _, b := range t.batched {
		if err := b.shutdown(ctx); err != nil && first == nil {
			first = err
		}
	}
	for _, e := range t.synced {
		if err := e.Shutdown(ctx); err != nil && first == nil {
			first = err
		}
	}
	return first
}

func (t *TracerProvider) ForceFlush(ctx context.Context) error {
	for _, b := range t.batched {
		b.flush(ctx)
	}
	return nil
}

type batcher struct {
	e     SpanExporter
	mu    sync.Mutex
	queue []ReadOnlySpan
	stop  chan struct{}
	done  chan struct{}
	more  chan struct{}
}

func newBatcher(e SpanExporter) *batcher {
	b := &batcher{e: e, stop: make(chan struct{}), done: make(chan struct{}), more: make(chan struct{}, 1)}
	go func() {
		defer close(b.done)
		t := time.NewTicker(5 * time.Second)
		defer t.Stop()
		for {
			select {
			case <-b.stop:
				b.flush(context.Background())
				return
			case <-t.C:
			case <-b.more:
			}
			b.flush(context.Background())
		}
	}()
	return b
}

func (b *batcher) add(s ReadOnlySpan) {
	b.mu.Lock()
	b.queue = append(b.queue, s)
	n := len(b.queue)
	b.mu.Unlock()
	if n >= 512 {
		select {
		case b.more <- struct{}{}:
		default:
		}
	}
}

func (b *batcher) flush(ctx context.Context) {
	b.mu.Lock()
	l := b.queue
	b.queue = nil
	b.mu.Unlock()
	if len(l) > 0 {
		_ = b.e.ExportSpans(ctx, l)
	}
}

func (b *batcher) shutdown(ctx context.Context) error {
	close(b.stop)
	select {
	case <-b.done:
	case <-ctx.Done():
		return ctx.Err()
	}
	return b.e.Shutdown(ctx)
}

type tracer struct {
	noop.Tracer
	p *TracerProvider
}

func (t tracer) Start(ctx context.Context, name string, opts ...trace.SpanStartOption) (context.Context, trace.Span) {
	if t.p.down.Load() {
		return t.Tracer.Start(ctx, name, opts...)
	}
	cf := trace.NewSpanStartConfig(opts...)
	parent := trace.SpanContextFromContext(ctx)
	if cf.NewRoot() {
		parent = trace.SpanContext{}
	}
	var sc trace.SpanContextConfig
	sc.TraceID = parent.TraceID()
	for !sc.TraceID.IsValid() {
		fill(sc.TraceID[:])
	}
	for !sc.SpanID.IsValid() {
		fill(sc.SpanID[:])
	}
	s := &span{p: t.p, name: name, parent: parent, kind: cf.SpanKind(), attrs: append([]attribute.KeyValue(nil), cf.Attributes()...)}
	if s.kind == trace.SpanKindUnspecified {
		s.kind = trace.SpanKindInternal
	}
	if s.rec = t.p.sampler.sampled(parent); s.rec {
		sc.TraceFlags = trace.FlagsSampled
	}
	s.sc = trace.NewSpanContext(sc)
	return trace.ContextWithSpan(ctx, s), s
}

func fill(b []byte) {
	for i := range b {
		b[i] = byte(rand.Uint32())
	}
}

type span struct {
	noop.Span
	p      *TracerProvider
	name   string
	sc     trace.SpanContext
	parent trace.SpanContext
	kind   trace.SpanKind
	rec    bool
	mu     sync.Mutex
	over   bool
	attrs  []attribute.KeyValue
}

func (s *span) SpanContext() trace.SpanContext       { return s.sc }
func (s *span) Parent() trace.SpanContext            { return s.parent }
func (s *span) SpanKind() trace.SpanKind             { return s.kind }
func (s *span) Resource() *resource.Resource         { return s.p.res }
func (s *span) TracerProvider() trace.TracerProvider { return s.p }
func (s *span) SetStatus(codes.Code, string)         {}
func (s *span) Name() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.name
}
func (s *span) SetName(n string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.over {
		s.name = n
	}
}
func (s *span) IsRecording() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.rec && !s.over
}
func (s *span) SetAttributes(kv ...attribute.KeyValue) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.rec && !s.over {
		s.attrs = append(s.attrs, kv...)
	}
}
func (s *span) Attributes() []attribute.KeyValue {
	s.mu.Lock()
	defer s.mu.Unlock()
	set := attribute.NewSet(s.attrs...)
	return set.ToSlice()
}
func (s *span) End(...trace.SpanEndOption) {
	s.mu.Lock()
	if s.over || !s.rec {
		s.over = true
		s.mu.Unlock()
		return
	}
	s.over = true
	s.mu.Unlock()
	if s.p.down.Load() {
		return
	}
	for _, b := range s.p.batched {
		b.add(s)
	}
	for _, e := range s.p.synced {
		_ = e.ExportSpans(context.Background(), []ReadOnlySpan{s})
	}
}
