// Package prometheus is an offline stand-in for the OpenTelemetry Prometheus
// exporter over the stand-in metric SDK.
package prometheus

import (
	"strings"

	"github.com/prometheus/client_golang/prometheus"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/metric"
)

type config struct {
	reg         prometheus.Registerer
	agg         metric.AggregationSelector
	ns          string
	bare, plain bool // without units, without counter suffixes
}

type Option interface{ apply(*config) }
type optFn func(*config)

func (f optFn) apply(c *config) { f(c) }

func WithRegisterer(r prometheus.Registerer) Option { return optFn(func(c *config) { c.reg = r }) }
func WithAggregationSelector(a metric.AggregationSelector) Option {
	return optFn(func(c *config) { c.agg = a })
}
func WithoutUnits() Option           { return optFn(func(c *config) { c.bare = true }) }
func WithoutTargetInfo() Option      { return optFn(func(*config) {}) }
func WithoutScopeInfo() Option       { return optFn(func(*config) {}) }
func WithoutCounterSuffixes() Option { return optFn(func(c *config) { c.plain = true }) }
func WithNamespace(ns string) Option { return optFn(func(c *config) { c.ns = ns }) }
func WithResourceAsConstantLabels(attribute.Filter) Option {
	return optFn(func(*config) {})
}

type Exporter struct {
	c config
	p *metric.MeterProvider
}

func New(opts ...Option) (*Exporter, error) {
	e := &Exporter{c: config{reg: prometheus.DefaultRegisterer}}
	for _, o := range opts {
		o.apply(&e.c)
	}
	if err := e.c.reg.Register(e); err != nil {
		return nil, err
	}
	return e, nil
}

func (e *Exporter) Bind(p *metric.MeterProvider) { e.p = p }
func (e *Exporter) Aggregation(k metric.InstrumentKind) metric.Aggregation {
	if e.c.agg == nil {
		return metric.DefaultAggregationSelector(k)
	}
	return e.c.agg(k)
}

func (e *Exporter) Describe(chan<- *prometheus.Desc) {}

func (e *Exporter) Collect(ch chan<- prometheus.Metric) {
	ti := prometheus.NewDesc("target_info", "Target metadata", nil, nil)
	if m, err := prometheus.NewConstMetric(ti, prometheus.GaugeValue, 1); err == nil {
		ch <- m
	}
	if e.p == nil {
		return
	}
	san := strings.NewReplacer(".", "_", "-", "_")
	for _, s := range e.p.Snapshot() {
		name := s.Name
		if u := map[string]string{"ms": "milliseconds", "s": "seconds", "By": "bytes", "1": "ratio"}[s.Unit]; u != "" && !e.c.bare && !strings.HasSuffix(name, "_"+u) {
			name += "_" + u
		}
		var keys, vals []string
		for _, kv := range s.Attrs.ToSlice() {
			keys = append(keys, san.Replace(string(kv.Key)))
			vals = append(vals, kv.Value.Emit())
		}
		var m prometheus.Metric
		var err error
		switch s.Kind {
		case metric.InstrumentKindCounter:
			if !e.c.plain && !strings.HasSuffix(name, "_total") {
				name += "_total"
			}
			m, err = prometheus.NewConstMetric(prometheus.NewDesc(name, s.Desc, keys, nil), prometheus.CounterValue, s.Sum, vals...)
		case metric.InstrumentKindHistogram:
			b := map[float64]uint64{}
			var acc uint64
			for i, x := range s.Bounds {
				acc += s.Buckets[i]
				b[x] = acc
			}
			m, err = prometheus.NewConstHistogram(prometheus.NewDesc(name, s.Desc, keys, nil), s.Count, s.Sum, b, vals...)
		default:
			m, err = prometheus.NewConstMetric(prometheus.NewDesc(name, s.Desc, keys, nil), prometheus.GaugeValue, s.Sum, vals...)
		}
		if err == nil {
			ch <- m
		}
	}
}
