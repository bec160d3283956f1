package resource

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
)

type Resource struct {
	url string
	set attribute.Set
}

func New(_ context.Context, _ ...Option) (*Resource, error) { return &Resource{}, nil }

type Option interface{ apply() }

func NewWithAttributes(url string, attrs ...attribute.KeyValue) *Resource {
	return &Resource{url, attribute.NewSet(attrs...)}
}
func NewSchemaless(attrs ...attribute.KeyValue) *Resource { return NewWithAttributes("", attrs...) }
func Environment() *Resource                              { return &Resource{} }
func Default() *Resource                                  { return &Resource{} }
func Empty() *Resource                                    { return &Resource{} }
func Merge(a, b *Resource) (*Resource, error) {
	return NewSchemaless(append(a.Attributes(), b.Attributes()...)...), nil
}
func (r *Resource) Attributes() []attribute.KeyValue { return r.set.ToSlice() }
func (r *Resource) SchemaURL() string                { return r.url }
func (r *Resource) Set() *attribute.Set              { return &r.set }
func (r *Resource) Len() int                         { return r.set.Len() }
