// Package otel is an offline stand-in for go.opentelemetry.io/otel (which is not
// in the module cache of the sandbox). It keeps the API that code of this
// repository and its dependencies use; telemetry is recorded in process.
package otel

import (
	"sync"

	"go.opentelemetry.io/otel/metric"
	mnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
	tnoop "go.opentelemetry.io/otel/trace/noop"
)

var (
	mu   sync.RWMutex
	tp   trace.TracerProvider          = tnoop.NewTracerProvider()
	mp   metric.MeterProvider          = mnoop.NewMeterProvider()
	prop propagation.TextMapPropagator = propagation.NewCompositeTextMapPropagator()
	eh   ErrorHandler                  = ErrorHandlerFunc(func(error) {})
)

type ErrorHandler interface{ Handle(error) }

type ErrorHandlerFunc func(error)

func (f ErrorHandlerFunc) Handle(err error) { f(err) }

func GetErrorHandler() ErrorHandler  { mu.RLock(); defer mu.RUnlock(); return eh }
func SetErrorHandler(h ErrorHandler) { mu.Lock(); defer mu.Unlock(); eh = h }
func Handle(err error)               { GetErrorHandler().Handle(err) }

func GetTracerProvider() trace.TracerProvider  { mu.RLock(); defer mu.RUnlock(); return tp }
func SetTracerProvider(p trace.TracerProvider) { mu.Lock(); defer mu.Unlock(); tp = p }
func Tracer(name string, opts ...trace.TracerOption) trace.Tracer {
	return GetTracerProvider().Tracer(name, opts...)
}

func GetMeterProvider() metric.MeterProvider  { mu.RLock(); defer mu.RUnlock(); return mp }
func SetMeterProvider(p metric.MeterProvider) { mu.Lock(); defer mu.Unlock(); mp = p }
func Meter(name string, opts ...metric.MeterOption) metric.Meter {
	return GetMeterProvider().Meter(name, opts...)
}

func GetTextMapPropagator() propagation.TextMapPropagator {
	mu.RLock()
	defer mu.RUnlock()
	return prop
}
func SetTextMapPropagator(p propagation.TextMapPropagator) { mu.Lock(); defer mu.Unlock(); prop = p }

func Version() string { return "0.0.0-verif" }
