// Package otlptracegrpc is an offline stand-in for the OTLP client: it sends JSON
// lines to the endpoint the OpenTelemetry variables name.
package otlptracegrpc

import (
	"context"
	"encoding/json"
	"errors"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/exporters/otlp/otlptrace"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
)

type Option func(*client)

type client struct {
	mu       sync.Mutex
	endpoint string
	timeout  time.Duration
	conn     net.Conn
	stopped  bool
}

type Span struct {
	Resource map[string]any
	Name     string
	Trace    string
	Span     string
	Parent   string
	Remote   bool
	Kind     string
	Attrs    map[string]any
}

func attrs(l []attribute.KeyValue) map[string]any {
	m := map[string]any{}
	for _, kv := range l {
		m[string(kv.Key)] = kv.Value.AsInterface()
	}
	return m
}

func (c *client) Start(context.Context) error { return nil }
func (c *client) Stop(context.Context) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.stopped = true
	if c.conn != nil {
		_ = c.conn.Close()
	}
	return nil
}

func (c *client) UploadSpans(_ context.Context, l []sdktrace.ReadOnlySpan) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.stopped {
		return errors.New("the client is stopped")
	}
	if c.conn == nil {
		conn, err := net.DialTimeout("tcp", c.endpoint, c.timeout)
		if err != nil {
			return err
		}
		c.conn = conn
	}
	_ = c.conn.SetDeadline(time.Now().Add(c.timeout))
	e := json.NewEncoder(c.conn)
	for _, s := range l {
		o := Span{Resource: attrs(s.Resource().Attributes()), Name: s.Name(), Trace: s.SpanContext().TraceID().String(), Span: s.SpanContext().SpanID().String(), Remote: s.Parent().IsRemote(), Kind: s.SpanKind().String(), Attrs: attrs(s.Attributes())}
		if s.Parent().HasSpanID() {
			o.Parent = s.Parent().SpanID().String()
		}
		if err := e.Encode(o); err != nil {
			_ = c.conn.Close()
			c.conn = nil
			return err
		}
	}
	// the collector's receipt
	var b [1]byte
	if _, err := c.conn.Write([]byte("null\n")); err == nil {
		if _, err = c.conn.Read(b[:]); err == nil {
			return nil
		}
	}
	_ = c.conn.Close()
	c.conn = nil
	return errors.New("no receipt")
}

func NewClient(opts ...Option) otlptrace.Client {
	c := &client{timeout: 3 * time.Second, endpoint: "localhost:4317"}
	for _, k := range []string{"OTEL_EXPORTER_OTLP_ENDPOINT", "OTEL_EXPORTER_OTLP_TRACES_ENDPOINT"} {
		if v := strings.TrimSpace(os.Getenv(k)); v != "" {
			c.endpoint = bare(v)
		}
	}
	for _, o := range opts {
		if o != nil {
			o(c)
		}
	}
	return c
}

func bare(v string) string {
	if i := strings.Index(v, "://"); i >= 0 {
		v = v[i+3:]
	}
	if i := strings.IndexByte(v, '/'); i >= 0 {
		v = v[:i]
	}
	return v
}

func New(ctx context.Context, opts ...Option) (*otlptrace.Exporter, error) {
	return otlptrace.New(ctx, NewClient(opts...))
}
func WithInsecure() Option               { return nil }
func WithEndpoint(v string) Option       { return func(c *client) { c.endpoint = bare(v) } }
func WithEndpointURL(v string) Option    { return WithEndpoint(v) }
func WithTimeout(d time.Duration) Option { return func(c *client) { c.timeout = d } }
