package propagation

import (
	"context"
	"encoding/hex"
	"strings"

	"go.opentelemetry.io/otel/trace"
)

type composite []TextMapPropagator

func NewCompositeTextMapPropagator(p ...TextMapPropagator) TextMapPropagator { return composite(p) }

func (c composite) Inject(ctx context.Context, carrier TextMapCarrier) {
	for _, p := range c {
		p.Inject(ctx, carrier)
	}
}

func (c composite) Extract(ctx context.Context, carrier TextMapCarrier) context.Context {
	for _, p := range c {
		ctx = p.Extract(ctx, carrier)
	}
	return ctx
}

func (c composite) Fields() (l []string) {
	for _, p := range c {
		l = append(l, p.Fields()...)
	}
	return l
}

// TraceContext is the W3C traceparent header, version 00.
type TraceContext struct{}

func (TraceContext) Fields() []string { return []string{"traceparent", "tracestate"} }

func (TraceContext) Inject(ctx context.Context, carrier TextMapCarrier) {
	if sc := trace.SpanContextFromContext(ctx); sc.IsValid() {
		carrier.Set("traceparent", "00-"+sc.TraceID().String()+"-"+sc.SpanID().String()+"-"+(sc.TraceFlags()&trace.FlagsSampled).String())
	}
}

func (TraceContext) Extract(ctx context.Context, carrier TextMapCarrier) context.Context {
	p := strings.Split(carrier.Get("traceparent"), "-")
	if len(p) != 4 || p[0] != "00" {
		return ctx
	}
	var cf trace.SpanContextConfig
	var err error
	if cf.TraceID, err = trace.TraceIDFromHex(p[1]); err != nil {
		return ctx
	}
	if cf.SpanID, err = trace.SpanIDFromHex(p[2]); err != nil {
		return ctx
	}
	f, err := hex.DecodeString(p[3])
	if err != nil || len(f) != 1 || f[0] > 2 {
		return ctx
	}
	cf.TraceFlags = trace.TraceFlags(f[0]) & trace.FlagsSampled
	cf.Remote = true
	return trace.ContextWithRemoteSpanContext(ctx, trace.NewSpanContext(cf))
}
