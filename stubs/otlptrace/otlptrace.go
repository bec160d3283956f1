package otlptrace

import (
	"context"

	sdktrace "go.opentelemetry.io/otel/sdk/trace"
)

type Client interface {
	Start(ctx context.Context) error
	Stop(ctx context.Context) error
	UploadSpans(ctx context.Context, spans []sdktrace.ReadOnlySpan) error
}

type Exporter struct{ c Client }

func New(ctx context.Context, client Client) (*Exporter, error) {
	if err := client.Start(ctx); err != nil {
		return nil, err
	}
	return &Exporter{client}, nil
}
func NewUnstarted(client Client) *Exporter { return &Exporter{client} }

func (e *Exporter) Start(ctx context.Context) error    { return e.c.Start(ctx) }
func (e *Exporter) Shutdown(ctx context.Context) error { return e.c.Stop(ctx) }
func (e *Exporter) ExportSpans(ctx context.Context, l []sdktrace.ReadOnlySpan) error {
	if len(l) == 0 {
		return nil
	}
	return e.c.UploadSpans(ctx, l)
}
