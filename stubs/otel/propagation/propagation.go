package propagation

import (
	"context"
	"net/http"
)

type TextMapCarrier interface {
	Get(key string) string
	Set(key string, value string)
	Keys() []string
}

type MapCarrier map[string]string

func (c MapCarrier) Get(key string) string { return c[key] }
func (c MapCarrier) Set(key, value string) { c[key] = value }
func (c MapCarrier) Keys() []string {
	r := make([]string, 0, len(c))
	for k := range c {
		r = append(r, k)
	}
	return r
}

type HeaderCarrier http.Header

func (hc HeaderCarrier) Get(key string) string        { return http.Header(hc).Get(key) }
func (hc HeaderCarrier) Set(key string, value string) { http.Header(hc).Set(key, value) }
func (hc HeaderCarrier) Keys() []string {
	r := make([]string, 0, len(hc))
	for k := range hc {
		r = append(r, k)
	}
	return r
}

type TextMapPropagator interface {
	Inject(ctx context.Context, carrier TextMapCarrier)
	Extract(ctx context.Context, carrier TextMapCarrier) context.Context
	Fields() []string
}

type noop struct{}

func (noop) Inject(context.Context, TextMapCarrier)                        {}
func (noop) Extract(ctx context.Context, _ TextMapCarrier) context.Context { return ctx }
func (noop) Fields() []string                                              { return nil }

type Baggage struct{ noop }
