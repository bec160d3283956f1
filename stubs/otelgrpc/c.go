// Package otelgrpc is an offline stand-in: server calls run within a span of the
// global tracer provider that continues the trace of the incoming metadata.
package otelgrpc

import (
	"context"
	"strings"

	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/stats"
)

type config struct {
	filter func(*stats.RPCTagInfo) bool
	tp     trace.TracerProvider
	prop   propagation.TextMapPropagator
}

type Option interface{ apply(*config) }
type optFn func(*config)

func (f optFn) apply(c *config) { f(c) }

type Filter func(*stats.RPCTagInfo) bool

func WithFilter(f Filter) Option { return optFn(func(c *config) { c.filter = f }) }
func WithTracerProvider(t trace.TracerProvider) Option {
	return optFn(func(c *config) { c.tp = t })
}
func WithPropagators(p propagation.TextMapPropagator) Option {
	return optFn(func(c *config) { c.prop = p })
}

type supplier metadata.MD

func (s supplier) Get(k string) string {
	if v := metadata.MD(s).Get(k); len(v) > 0 {
		return v[0]
	}
	return ""
}
func (s supplier) Set(k, v string) { metadata.MD(s).Set(k, v) }
func (s supplier) Keys() (l []string) {
	for k := range s {
		l = append(l, k)
	}
	return l
}

type server struct{ config }

func (h server) TagRPC(ctx context.Context, i *stats.RPCTagInfo) context.Context {
	tp, prop := h.tp, h.prop
	if tp == nil {
		tp = otel.GetTracerProvider()
	}
	if prop == nil {
		prop = otel.GetTextMapPropagator()
	}
	md, _ := metadata.FromIncomingContext(ctx)
	ctx = prop.Extract(ctx, supplier(md))
	if h.filter != nil && !h.filter(i) {
		return ctx
	}
	name := strings.TrimPrefix(i.FullMethodName, "/")
	at := []attribute.KeyValue{attribute.String("rpc.system", "grpc")}
	if k := strings.LastIndexByte(name, '/'); k >= 0 {
		at = append(at, attribute.String("rpc.service", name[:k]), attribute.String("rpc.method", name[k+1:]))
	}
	ctx, s := tp.Tracer("otelgrpc").Start(trace.ContextWithRemoteSpanContext(ctx, trace.SpanContextFromContext(ctx)), name, trace.WithSpanKind(trace.SpanKindServer), trace.WithAttributes(at...))
	return context.WithValue(ctx, key{}, s)
}

type key struct{}

func (h server) HandleRPC(ctx context.Context, s stats.RPCStats) {
	if _, end := s.(*stats.End); end {
		if x, ok := ctx.Value(key{}).(trace.Span); ok {
			x.End()
		}
	}
}
func (h server) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (h server) HandleConn(context.Context, stats.ConnStats)                       {}

type none struct{}

func (none) TagRPC(ctx context.Context, _ *stats.RPCTagInfo) context.Context   { return ctx }
func (none) HandleRPC(context.Context, stats.RPCStats)                         {}
func (none) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (none) HandleConn(context.Context, stats.ConnStats)                       {}

func NewServerHandler(opts ...Option) stats.Handler {
	h := server{}
	for _, o := range opts {
		o.apply(&h.config)
	}
	return h
}
func NewClientHandler(_ ...Option) stats.Handler { return none{} }
