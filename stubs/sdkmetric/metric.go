// Package metric is an offline stand-in for the OpenTelemetry metric SDK: it
// accumulates every measurement in process and lets a Reader snapshot them.
package metric

import (
	"context"
	"sort"
	"sync"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/metric/embedded"
	"go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/sdk/resource"
)

type InstrumentKind uint8

const (
	InstrumentKindCounter                 InstrumentKind = 1
	InstrumentKindUpDownCounter           InstrumentKind = 2
	InstrumentKindHistogram               InstrumentKind = 3
	InstrumentKindObservableCounter       InstrumentKind = 4
	InstrumentKindObservableUpDownCounter InstrumentKind = 5
	InstrumentKindObservableGauge         InstrumentKind = 6
	InstrumentKindGauge                   InstrumentKind = 7
)

type Aggregation interface{ agg() }
type AggregationDrop struct{}
type AggregationDefault struct{}
type AggregationSum struct{}
type AggregationLastValue struct{}
type AggregationExplicitBucketHistogram struct {
	Boundaries []float64
	NoMinMax   bool
}
type AggregationBase2ExponentialHistogram struct {
	MaxSize, MaxScale int32
	NoMinMax          bool
}

func (AggregationDrop) agg()                      {}
func (AggregationDefault) agg()                   {}
func (AggregationSum) agg()                       {}
func (AggregationLastValue) agg()                 {}
func (AggregationExplicitBucketHistogram) agg()   {}
func (AggregationBase2ExponentialHistogram) agg() {}

type AggregationSelector func(InstrumentKind) Aggregation

func DefaultAggregationSelector(ik InstrumentKind) Aggregation {
	switch ik {
	case InstrumentKindHistogram:
		return AggregationExplicitBucketHistogram{Boundaries: []float64{0, 5, 10, 25, 50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 7500, 10000}}
	case InstrumentKindGauge, InstrumentKindObservableGauge:
		return AggregationLastValue{}
	}
	return AggregationSum{}
}

// Series is one time series of an instrument.
type Series struct {
	Name, Desc, Unit string
	Kind             InstrumentKind
	Attrs            attribute.Set
	Sum              float64
	Count            uint64
	Bounds           []float64
	Buckets          []uint64 // per bucket, not cumulative
}

type Reader interface {
	// Bind hands the reader the provider it reads from.
	Bind(*MeterProvider)
	Aggregation(InstrumentKind) Aggregation
}

type Option interface{ apply(*MeterProvider) }
type optFn func(*MeterProvider)

func (f optFn) apply(m *MeterProvider) { f(m) }

func WithReader(r Reader) Option {
	return optFn(func(m *MeterProvider) { m.readers = append(m.readers, r) })
}
func WithResource(_ *resource.Resource) Option { return optFn(func(*MeterProvider) {}) }

type Instrument struct {
	Name, Description, Unit string
	Kind                    InstrumentKind
}
type Stream struct {
	Name, Description, Unit string
	Aggregation             Aggregation
}
type View func(Instrument) (Stream, bool)

func NewView(Instrument, Stream) View {
	return func(Instrument) (Stream, bool) { return Stream{}, false }
}
func WithView(_ ...View) Option { return optFn(func(*MeterProvider) {}) }

type MeterProvider struct {
	embedded.MeterProvider
	readers []Reader

	mu     sync.Mutex
	series map[string]*Series
	gauges []gauge
	hist   map[string][]float64 // bounds of a histogram, fixed when it is created
}

type gauge struct {
	name, desc, unit string
	inst             metric.Int64ObservableGauge
	cbs              []metric.Int64Callback
}

func NewMeterProvider(opts ...Option) *MeterProvider {
	m := &MeterProvider{series: map[string]*Series{}}
	for _, o := range opts {
		o.apply(m)
	}
	for _, r := range m.readers {
		r.Bind(m)
	}
	return m
}

func (m *MeterProvider) Shutdown(context.Context) error   { return nil }
func (m *MeterProvider) ForceFlush(context.Context) error { return nil }
func (m *MeterProvider) Meter(string, ...metric.MeterOption) metric.Meter {
	return &meter{p: m}
}

func (m *MeterProvider) get(name, desc, unit string, k InstrumentKind, set attribute.Set) *Series {
	d := set.Equivalent()
	id := name + "\x00" + key(d, set)
	s, ok := m.series[id]
	if !ok {
		s = &Series{Name: name, Desc: desc, Unit: unit, Kind: k, Attrs: set}
		if k == InstrumentKindHistogram {
			s.Bounds = append([]float64(nil), m.hist[name]...)
			s.Buckets = make([]uint64, len(s.Bounds)+1)
		}
		m.series[id] = s
	}
	return s
}

// created fixes the aggregation of a histogram, as the SDK does when an instrument is created.
func (m *MeterProvider) created(name string) {
	k := InstrumentKindHistogram
	a := DefaultAggregationSelector(k)
	for _, r := range m.readers {
		if x := r.Aggregation(k); x != nil {
			a = x
		}
	}
	h, ok := a.(AggregationExplicitBucketHistogram)
	for i := 1; ok && i < len(h.Boundaries); i++ {
		if !(h.Boundaries[i-1] < h.Boundaries[i]) { // not monotonic: the SDK reports it and uses its default
			h, ok = DefaultAggregationSelector(k).(AggregationExplicitBucketHistogram)
			break
		}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.hist == nil {
		m.hist = map[string][]float64{}
	}
	if _, done := m.hist[name]; !done {
		m.hist[name] = append([]float64(nil), h.Boundaries...)
	}
}

// Reset forgets all measurements.
func (m *MeterProvider) Reset() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.series = map[string]*Series{}
}

func key(_ attribute.Distinct, set attribute.Set) string {
	out := ""
	for _, kv := range set.ToSlice() {
		out += string(kv.Key) + "\x01" + kv.Value.Emit() + "\x02"
	}
	return out
}

func (m *MeterProvider) add(name, desc, unit string, k InstrumentKind, set attribute.Set, v float64) {
	m.mu.Lock()
	defer m.mu.Unlock()
	s := m.get(name, desc, unit, k, set)
	switch k {
	case InstrumentKindGauge:
		s.Sum = v
	case InstrumentKindHistogram:
		s.Sum += v
		i := sort.SearchFloat64s(s.Bounds, v)
		if i < len(s.Buckets) {
			s.Buckets[i]++
		}
	default:
		s.Sum += v
	}
	s.Count++
}

// Snapshot runs the observable callbacks and returns every series.
func (m *MeterProvider) Snapshot() []Series {
	m.mu.Lock()
	gs := append([]gauge(nil), m.gauges...)
	m.mu.Unlock()
	var out []Series
	for _, g := range gs {
		o := &observer{}
		for _, cb := range g.cbs {
			_ = cb(context.Background(), o)
		}
		for _, ob := range o.obs {
			out = append(out, Series{Name: g.name, Desc: g.desc, Unit: g.unit, Kind: InstrumentKindObservableGauge, Attrs: ob.set, Sum: float64(ob.v), Count: 1})
		}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, s := range m.series {
		c := *s
		c.Buckets = append([]uint64(nil), s.Buckets...)
		out = append(out, c)
	}
	return out
}

type observation struct {
	v   int64
	set attribute.Set
}
type observer struct {
	embedded.Int64Observer
	obs []observation
}

func (o *observer) Observe(v int64, opts ...metric.ObserveOption) {
	c := metric.NewObserveConfig(opts)
	set := c.Attributes()
	for i := range o.obs {
		if o.obs[i].set.Equals(&set) {
			o.obs[i].v = v
			return
		}
	}
	o.obs = append(o.obs, observation{v, set})
}

type multiObserver struct {
	embedded.Observer
	o    *observer
	inst metric.Observable
}

func (m multiObserver) ObserveFloat64(metric.Float64Observable, float64, ...metric.ObserveOption) {}
func (m multiObserver) ObserveInt64(i metric.Int64Observable, v int64, opts ...metric.ObserveOption) {
	if metric.Observable(i) == m.inst {
		m.o.Observe(v, opts...)
	}
}

type registration struct{ embedded.Registration }

func (registration) Unregister() error { return nil }

type meter struct {
	noop.Meter
	p *MeterProvider
}

type base struct {
	p                *MeterProvider
	name, desc, unit string
	kind             InstrumentKind
}

func (b *base) addSet(v float64, set attribute.Set) { b.p.add(b.name, b.desc, b.unit, b.kind, set, v) }

type counter struct {
	embedded.Int64Counter
	base
}

func (c *counter) Add(_ context.Context, v int64, o ...metric.AddOption) {
	c.addSet(float64(v), metric.NewAddConfig(o).Attributes())
}
func (c *counter) Enabled(context.Context) bool { return true }

type fcounter struct {
	embedded.Float64Counter
	base
}

func (c *fcounter) Add(_ context.Context, v float64, o ...metric.AddOption) {
	c.addSet(v, metric.NewAddConfig(o).Attributes())
}
func (c *fcounter) Enabled(context.Context) bool { return true }

type updown struct {
	embedded.Int64UpDownCounter
	base
}

func (c *updown) Add(_ context.Context, v int64, o ...metric.AddOption) {
	c.addSet(float64(v), metric.NewAddConfig(o).Attributes())
}
func (c *updown) Enabled(context.Context) bool { return true }

type histogram struct {
	embedded.Int64Histogram
	base
}

func (c *histogram) Record(_ context.Context, v int64, o ...metric.RecordOption) {
	c.addSet(float64(v), metric.NewRecordConfig(o).Attributes())
}
func (c *histogram) Enabled(context.Context) bool { return true }

type fhistogram struct {
	embedded.Float64Histogram
	base
}

func (c *fhistogram) Record(_ context.Context, v float64, o ...metric.RecordOption) {
	c.addSet(v, metric.NewRecordConfig(o).Attributes())
}
func (c *fhistogram) Enabled(context.Context) bool { return true }

type igauge struct {
	embedded.Int64Gauge
	base
}

func (c *igauge) Record(_ context.Context, v int64, o ...metric.RecordOption) {
	c.addSet(float64(v), metric.NewRecordConfig(o).Attributes())
}
func (c *igauge) Enabled(context.Context) bool { return true }

type ogauge struct {
	noop.Int64ObservableGauge
	name string
}

func (m *meter) Int64Counter(n string, o ...metric.Int64CounterOption) (metric.Int64Counter, error) {
	c := metric.NewInt64CounterConfig(o...)
	return &counter{base: base{m.p, n, c.Description(), c.Unit(), InstrumentKindCounter}}, nil
}
func (m *meter) Float64Counter(n string, o ...metric.Float64CounterOption) (metric.Float64Counter, error) {
	c := metric.NewFloat64CounterConfig(o...)
	return &fcounter{base: base{m.p, n, c.Description(), c.Unit(), InstrumentKindCounter}}, nil
}
func (m *meter) Int64UpDownCounter(n string, o ...metric.Int64UpDownCounterOption) (metric.Int64UpDownCounter, error) {
	c := metric.NewInt64UpDownCounterConfig(o...)
	return &updown{base: base{m.p, n, c.Description(), c.Unit(), InstrumentKindUpDownCounter}}, nil
}
func (m *meter) Int64Histogram(n string, o ...metric.Int64HistogramOption) (metric.Int64Histogram, error) {
	c := metric.NewInt64HistogramConfig(o...)
	m.p.created(n)
	return &histogram{base: base{m.p, n, c.Description(), c.Unit(), InstrumentKindHistogram}}, nil
}
func (m *meter) Float64Histogram(n string, o ...metric.Float64HistogramOption) (metric.Float64Histogram, error) {
	c := metric.NewFloat64HistogramConfig(o...)
	m.p.created(n)
	return &fhistogram{base: base{m.p, n, c.Description(), c.Unit(), InstrumentKindHistogram}}, nil
}
func (m *meter) Int64Gauge(n string, o ...metric.Int64GaugeOption) (metric.Int64Gauge, error) {
	c := metric.NewInt64GaugeConfig(o...)
	return &igauge{base: base{m.p, n, c.Description(), c.Unit(), InstrumentKindGauge}}, nil
}
func (m *meter) Int64ObservableGauge(n string, o ...metric.Int64ObservableGaugeOption) (metric.Int64ObservableGauge, error) {
	c := metric.NewInt64ObservableGaugeConfig(o...)
	g := &ogauge{name: n}
	m.p.mu.Lock()
	defer m.p.mu.Unlock()
	m.p.gauges = append(m.p.gauges, gauge{n, c.Description(), c.Unit(), g, c.Callbacks()})
	return g, nil
}
func (m *meter) RegisterCallback(f metric.Callback, insts ...metric.Observable) (metric.Registration, error) {
	m.p.mu.Lock()
	defer m.p.mu.Unlock()
	for _, in := range insts {
		in := in
		for i := range m.p.gauges {
			if metric.Observable(m.p.gauges[i].inst) == in {
				m.p.gauges[i].cbs = append(m.p.gauges[i].cbs, func(ctx context.Context, io metric.Int64Observer) error {
					o, ok := io.(*observer)
					if !ok {
						return nil
					}
					return f(ctx, multiObserver{o: o, inst: in})
				})
			}
		}
	}
	return registration{}, nil
}

// ManualReader keeps the provider for in-process snapshots.
type ManualReader struct{ p *MeterProvider }

func NewManualReader() *ManualReader                           { return &ManualReader{} }
func (r *ManualReader) Bind(p *MeterProvider)                  { r.p = p }
func (r *ManualReader) Aggregation(InstrumentKind) Aggregation { return nil }
