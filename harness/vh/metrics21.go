package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net/http"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/metrics"
	"github.com/takenet/deckard/internal/project"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/zverif/fakemongo"
	"github.com/takenet/deckard/internal/zverif/fakeredis"
	"github.com/takenet/deckard/internal/zverif/vk"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	sdkmetric "go.opentelemetry.io/otel/sdk/metric"
)

func provider() *sdkmetric.MeterProvider { return otel.GetMeterProvider().(*sdkmetric.MeterProvider) }

// collected returns counters as name{label=value,...} and the gauges by name and queue.
func collected() (map[string]int64, map[string]map[string]int64) {
	cs, gs := map[string]int64{}, map[string]map[string]int64{}
	for _, s := range provider().Snapshot() {
		switch s.Kind {
		case sdkmetric.InstrumentKindCounter:
			var l []string
			for _, kv := range s.Attrs.ToSlice() {
				l = append(l, string(kv.Key)+"="+kv.Value.Emit())
			}
			sort.Strings(l)
			if s.Sum != 0 {
				cs[s.Name+"{"+strings.Join(l, ",")+"}"] = int64(s.Sum)
			}
		case sdkmetric.InstrumentKindObservableGauge:
			if gs[s.Name] == nil {
				gs[s.Name] = map[string]int64{}
			}
			q, _ := s.Attrs.Value("queue")
			gs[s.Name][q.AsString()] = int64(s.Sum)
		}
	}
	return cs, gs
}

func metricEnv() traceEnv {
	seen := map[string]bool{} // prefixes a gauge has been exported for
	return traceEnv{
		open: func(tc *traceCase) (*world, error) {
			w, err := newWorld(worldOpts{kind: tc.Kind, prefix: "deckard"})
			metrics.MetricsMap = metrics.NewQueueMetricsMap()
			provider().Reset()
			seen = map[string]bool{}
			return w, err
		},
		after: func(e *engine, op *Op) *mismatch {
			cs, gs := collected()
			for k, v := range e.m.counters {
				if v != cs[k] && !strings.Contains(k, "{queue=}") && !strings.Contains(k, "{queue=,") {
					return mm("counter "+k[:strings.IndexByte(k, '{')], nil, []string{"C21"}, "after step %d (%s) counter %q is %d, want %d", e.step, op.K, k, cs[k], v)
				}
			}
			for k, v := range cs {
				if e.m.counters[k] == 0 && !strings.Contains(k, "{queue=}") && !strings.Contains(k, "{queue=,") && !strings.HasPrefix(k, "deckard_code_usage") {
					return mm("counter "+k[:strings.IndexByte(k, '{')], nil, []string{"C21"}, "after step %d (%s) counter %q is %d, want 0", e.step, op.K, k, v)
				}
			}
			e.obs("counter sets compared", 1)
			if op.K != "metrics" {
				return nil
			}
			// the age is measured on the real clock (or, why not, on the virtual one)
			t0, t1 := e.t0.UnixMilli()-2, time.Now().UnixMilli()+2
			isAge := func(g, age int64) bool {
				return age != math.MinInt64 && (g == age || g >= age-vnow()+t0 && g <= age-vnow()+t1)
			}
			type agg struct{ n, hid, age, ageHid int64 }
			want := map[string]*agg{}
			for _, x := range e.m.all() {
				if !x.inStore {
					continue
				}
				a := want[prefixOf(x.q)]
				if a == nil {
					a = &agg{age: math.MinInt64, ageHid: math.MinInt64}
					want[prefixOf(x.q)] = a
				}
				age := vnow() - x.lastUse
				if e.m.hidden(x) {
					a.hid++
				} else {
					a.n++
					a.age = max(a.age, age)
				}
				a.ageHid = max(a.ageHid, age)
			}
			tot, old := gs["deckard_total_messages"], gs["deckard_oldest_message"]
			all := map[string]bool{}
			for _, m := range []map[string]int64{tot, old} {
				for q := range m {
					all[q] = true
				}
			}
			for q := range seen {
				all[q[1:]] = true
			}
			for q := range want {
				all[q] = true
			}
			for q := range all {
				if q == "" {
					continue
				}
				a := want[q]
				n, okN := tot[q]
				g, okG := old[q]
				if a == nil {
					if n != 0 || g != 0 || seen["n"+q] && !okN || seen["g"+q] && !okG {
						return mm("gauge-vanished", nil, []string{"C21"}, "after a metrics task the gauges of queue %q, which has no messages (any more), read total=%d (%v) oldest=%d (%v)", q, n, okN, g, okG)
					}
					continue
				}
				if !okN || n < a.n || n > a.n+a.hid {
					return mm("gauge-total", nil, []string{"C21"}, "after a metrics task the total gauge of queue %q is %d (%v), want %d (and %d expired)", q, n, okN, a.n, a.hid)
				}
				if !isAge(g, a.age) && !isAge(g, a.ageHid) && !(a.n == 0 && g == 0) || !okG && a.n > 0 {
					return mm("gauge-oldest", nil, []string{"C21"}, "after a metrics task the oldest gauge of queue %q is %d (%v), want %d..%d", q, g, okG, a.age-vnow()+t0, a.age-vnow()+t1)
				}
				e.obs("gauges compared", 1)
			}
			for q := range tot {
				seen["n"+q] = true
			}
			for q := range old {
				seen["g"+q] = true
			}
			return nil
		},
		post: func(c *vk.Ctx, e *engine, tc *traceCase) *mismatch {
			for k := range e.m.counters {
				c.Distinct(tc.Kind + " " + k)
			}
			return nil
		},
	}
}

// many messages: counts of housekeeping that works in batches.
func metricBatches(c *vk.Ctx, kind string, n int) {
	kase := map[string]any{"batches": true, "kind": kind, "n": n}
	c.Guard("batches", kase, func() {
		clockMs.Store(clockStart)
		w, err := newWorld(worldOpts{kind: kind, prefix: "deckard"})
		fatal(err)
		defer w.close()
		metrics.MetricsMap = metrics.NewQueueMetricsMap()
		provider().Reset()
		add := func(q string, n int, ttl int64) {
			for i := 0; i < n; i += 500 {
				req := &deckard.AddRequest{}
				for j := i; j < min(n, i+500); j++ {
					req.Messages = append(req.Messages, &deckard.AddMessage{Id: fmt.Sprint("m", j), Queue: q, Timeless: ttl == 0, TtlMinutes: ttl})
				}
				_, err := w.api.Add(pctx(), req)
				fatal(err)
			}
		}
		want := map[string]int64{}
		check := func(when string) {
			cs, _ := collected()
			for k, v := range want {
				if cs[k] != v {
					c.Violation("counter "+k[:strings.IndexByte(k, '{')], kase, "%s of %d messages (%s): counter %s is %d, want %d", when, n, kind, k, cs[k], v)
				}
			}
			c.Eval(1)
			c.Count("batch counters compared", int64(len(want)))
		}
		add("p::a", n, 0)
		for i := 0; i < n; i += 1000 {
			_, _ = w.api.Pull(pctx(), &deckard.PullRequest{Queue: "p::a", Amount: 1000, AckDeadlineMs: 5})
		}
		clockMs.Add(10)
		for i := 0; i < n/1000+1; i++ {
			fatal(queue.ProcessTimeoutMessages(pctx(), w.q))
		}
		want["deckard_message_timeout{queue=p}"] = int64(n)
		check("timeouts")
		for i := 0; i < n; i += 1000 {
			r, err := w.api.Pull(pctx(), &deckard.PullRequest{Queue: "p::a", Amount: 1000})
			fatal(err)
			for j, m := range r.Messages {
				a := &deckard.AckRequest{Queue: "p::a", Id: m.Id, LockMs: 5, Reason: fmt.Sprint("r", j%3)}
				if j%2 == 0 {
					_, err = w.api.Ack(pctx(), a)
					want["deckard_ack{queue=p,reason="+a.Reason+"}"]++
					want["deckard_message_unlock{lock_type=lock_ack,queue=p}"]++
				} else {
					_, err = w.api.Nack(pctx(), a)
					want["deckard_nack{queue=p,reason="+a.Reason+"}"]++
					want["deckard_message_unlock{lock_type=lock_nack,queue=p}"]++
				}
				fatal(err)
			}
		}
		clockMs.Add(10)
		for i := 0; i < n/1000+1; i++ {
			queue.ProcessLockPool(pctx(), w.q)
		}
		check("unlocks")
		_, err = w.api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: "p::a", Configuration: &deckard.QueueConfiguration{MaxElements: 3}})
		fatal(err)
		_, err = queue.RemoveExceedingMessages(pctx(), w.q)
		fatal(err)
		want["deckard_exceeding_messages_removed{queue=p}"] = int64(n) - 3
		want["deckard_exceeding_messages_cache_removed{queue=p}"] = int64(n) - 3
		check("evictions")
		add("t", n, 1)
		clockMs.Add(61000)
		now := dtime.Now()
		_, err = queue.RemoveTTLMessages(pctx(), w.q, &now)
		fatal(err)
		want["deckard_ttl_messages_removed{queue=t}"] = int64(n)
		want["deckard_ttl_messages_cache_removed{queue=t}"] = int64(n)
		check("expiries")
		queue.ComputeMetrics(pctx(), w.q)
		_, gs := collected()
		if g := gs["deckard_total_messages"]; g["p"] != 3 || g["t"] != 0 {
			c.Violation("gauge-total", kase, "total gauges are %v, want p=3 and t=0 or none", g)
		}
	})
	c.Distinct(fmt.Sprint("batches", kind, n))
}

// latencyMs is what every access of a back end takes in the latency case.
const latencyMs = 35

// latencies compares the latency histograms with what the back ends took:
// every access of a slow Redis or MongoDB is measured, in milliseconds, and
// named by what it did.
func latencies(c *vk.Ctx, kind string) {
	kase := map[string]any{"latencies": true, "kind": kind}
	c.Guard("latencies", kase, func() {
		clockMs.Store(0)
		defer clockMs.Store(clockStart)
		w, err := newWorld(worldOpts{kind: kind, prefix: "deckard"})
		fatal(err)
		defer w.close()
		fatal(w.addSimple("p::a", "warm", 50, 0))
		_, _ = w.pullIDs("p::b", 1, 0)
		type hist struct {
			n   uint64
			sum float64
			low uint64 // measurements below what the back end takes
		}
		hists := func() map[string]map[string]hist {
			out := map[string]map[string]hist{"deckard_cache_latency": {}, "deckard_storage_latency": {}}
			for _, s := range provider().Snapshot() {
				if out[s.Name] == nil {
					continue
				}
				op, ok := s.Attrs.Value("op")
				if !ok || op.AsString() == "" {
					c.Violation("latency-label", kase, "%s is measured without saying for which operation: %v", s.Name, s.Attrs.ToSlice())
					continue
				}
				h := out[s.Name][op.AsString()]
				h.n += s.Count
				h.sum += s.Sum
				for i, b := range s.Bounds {
					if b <= latencyMs-5 {
						h.low += s.Buckets[i]
					}
				}
				out[s.Name][op.AsString()] = h
			}
			return out
		}
		slow := func() {}
		if w.redis != nil {
			w.redis.SetLatency(func(*fakeredis.Command) { slow() })
		}
		if w.mongo != nil {
			w.mongo.SetLatency(func(*fakemongo.Command) { slow() })
		}
		ops := map[string]map[string]bool{}
		step := func(what string, cache, storage bool, f func() error) {
			if c.Violated() {
				return
			}
			before := hists()
			slow = func() { time.Sleep(latencyMs * time.Millisecond) }
			t0 := time.Now()
			err := f()
			took := time.Since(t0)
			slow = func() {}
			if err != nil {
				c.Violation("latency-call", kase, "%s with back ends that take %d ms: %v", what, latencyMs, err)
				return
			}
			after := hists()
			for name, want := range map[string]bool{"deckard_cache_latency": cache && w.redis != nil, "deckard_storage_latency": storage && w.mongo != nil} {
				if !want {
					continue
				}
				var d hist
				var seen []string
				for op, h := range after[name] {
					o := before[name][op]
					if h.n > o.n {
						seen = append(seen, op)
					}
					d.n += h.n - o.n
					d.sum += h.sum - o.sum
					d.low += h.low - o.low
				}
				sort.Strings(seen)
				switch {
				case d.n == 0:
					c.Violation("latency-missing", kase, "%s left no measurement in %s", what, name)
				case d.n == d.low || d.sum < latencyMs:
					c.Violation("latency-low", kase, "%s with back ends that take %d ms: %s measured %d accesses %v of %v ms altogether, %d of them below %d ms", what, latencyMs, name, d.n, seen, d.sum, d.low, latencyMs-5)
				case d.sum > float64(d.n)*(float64(took.Milliseconds())+1):
					c.Violation("latency-high", kase, "%s took %v; %s measured %d accesses %v of %v ms altogether", what, took, name, d.n, seen, d.sum)
				}
				for _, other := range []string{"add", "remove", "pull"} {
					if what != other && ops[name+other] != nil && (what == "add" || what == "remove" || what == "pull") {
						same := len(seen) > 0
						for _, op := range seen {
							same = same && ops[name+other][op]
						}
						if same {
							c.Violation("latency-label", kase, "%s names what %s did %v, which it also calls what %s did", name, what, seen, other)
						}
					}
				}
				if ops[name+what] == nil {
					ops[name+what] = map[string]bool{}
				}
				for _, op := range seen {
					ops[name+what][op] = true
				}
				c.Count("latency measurements compared", int64(d.n))
			}
			c.Eval(1)
		}
		ctx := pctx()
		ack := func(id string, score float64, lock int64) *deckard.AckRequest {
			return &deckard.AckRequest{Queue: "p::a", Id: id, LockMs: lock, ScoreSubtract: score}
		}
		pull := func(n int32) func() error {
			return func() error {
				r, err := w.api.Pull(ctx, &deckard.PullRequest{Queue: "p::a", Amount: n})
				if err == nil && len(r.Messages) != int(n) {
					err = fmt.Errorf("%d messages", len(r.Messages))
				}
				return err
			}
		}
		step("add", true, true, func() error {
			for i := range 4 {
				if err := w.addSimple("p::a", fmt.Sprint("m", i), float64(i+1), 0); err != nil {
					return err
				}
			}
			return nil
		})
		step("pull", true, true, pull(4))
		step("ack", true, true, func() error { _, err := w.api.Ack(ctx, ack("m0", 0, 0)); return err })
		step("ack with lock", true, true, func() error { _, err := w.api.Ack(ctx, ack("m1", 0, 1)); return err })
		step("nack", true, false, func() error { _, err := w.api.Nack(ctx, ack("m2", 0, 0)); return err })
		step("nack with lock", true, false, func() error { _, err := w.api.Nack(ctx, ack("m3", 0, 1)); return err })
		step("unlock", true, false, func() error { queue.ProcessLockPool(ctx, w.q); return nil })
		step("get by id", false, true, func() error {
			_, err := w.api.GetById(ctx, &deckard.GetByIdRequest{Queue: "p::a", Id: "m0"})
			return err
		})
		step("count", false, true, func() error {
			_, err := w.api.Count(ctx, &deckard.CountRequest{Queue: "p::a"})
			return err
		})
		step("edit queue", false, true, func() error {
			_, err := w.api.EditQueue(ctx, &deckard.EditQueueRequest{Queue: "p::a", Configuration: &deckard.QueueConfiguration{MaxElements: 2}})
			return err
		})
		step("get queue", false, true, func() error {
			_, err := w.api.GetQueue(ctx, &deckard.GetQueueRequest{Queue: "p::never"})
			return err
		})
		step("timeouts", true, false, func() error { return queue.ProcessTimeoutMessages(ctx, w.q) })
		step("metrics", false, true, func() error { queue.ComputeMetrics(ctx, w.q); return nil })
		step("exceeding", true, true, func() error { _, err := queue.RemoveExceedingMessages(ctx, w.q); return err })
		step("expiry", false, true, func() error { now := dtime.Now(); _, err := queue.RemoveTTLMessages(ctx, w.q, &now); return err })
		step("remove", true, true, func() error {
			_, err := w.api.Remove(ctx, &deckard.RemoveRequest{Queue: "p::a", Ids: []string{"warm", "m0", "m1"}})
			return err
		})
		step("flush", true, true, func() error { _, err := w.q.Flush(ctx); return err })
		// a message the storage does not have is asked for a second time
		if w.redis != nil && w.mongo != nil && !c.Violated() {
			fatal(w.addSimple("p::a", "gone", 1, 0))
			_, err := w.st.Remove(ctx, "p::a", "gone")
			fatal(err)
			_, _ = w.pullIDs("p::a", 1, 0)
			got := map[string]bool{}
			for _, s := range provider().Snapshot() {
				if v, ok := s.Attrs.Value("retry"); ok && s.Name == "deckard_storage_latency" {
					got[v.Emit()] = true
				}
			}
			if !got["true"] || !got["false"] || len(got) != 2 {
				c.Violation("latency-label", kase, "after first and second attempts to find messages deckard_storage_latency has the retry labels %v, want true and false", got)
			}
			c.Eval(1)
		}
		c.Distinct("latencies " + kind)
	})
}

// emptyPrefix is a listed finding: a queue whose name begins with "::" has an empty prefix.
func emptyPrefix(c *vk.Ctx) {
	kase := map[string]any{"empty": true}
	c.Guard("empty prefix", kase, func() {
		clockMs.Store(clockStart)
		w, err := newWorld(worldOpts{kind: "mm", prefix: "deckard"})
		fatal(err)
		defer w.close()
		metrics.MetricsMap = metrics.NewQueueMetricsMap()
		fatal(w.addSimple("::s", "x", 1, 0))
		fatal(w.addSimple("q", "y", 1, 0))
		queue.ComputeMetrics(pctx(), w.q)
		_, gs := collected()
		c.Eval(1)
		if n := gs["deckard_total_messages"][""]; n != 1 {
			c.Violation("gauge-empty-prefix", kase, "the total gauge of the empty queue prefix (queue \"::s\" with one message) is %d", n)
		}
	})
}

// exportCase is one configuration of the metrics endpoint, examined in a process of its own.
type exportCase struct {
	Export  bool
	Attrs   string // OTEL_RESOURCE_ATTRIBUTES
	Service string // OTEL_SERVICE_NAME
	Buckets string // DECKARD_METRICS_HISTOGRAM_BUCKETS
	Path    string // DECKARD_METRICS_PATH
	Open    string // DECKARD_METRICS_OPENMETRICS_ENABLED
	Values  []int64
}

const childEnv = "VH_METRICS_CHILD"

func init() {
	raw := os.Getenv(childEnv)
	if raw == "" {
		return
	}
	var vals []int64
	if err := json.Unmarshal([]byte(raw), &vals); err != nil {
		panic(err)
	}
	config.Configure()
	ctx := pctx()
	for _, v := range vals {
		for _, h := range []metric.Int64Histogram{metrics.StorageLatency, metrics.CacheLatency, metrics.HousekeeperTaskLatency, metrics.AuditorAddToStoreLatency, metrics.AuditorStoreLatency} {
			h.Record(ctx, v, metric.WithAttributes(attribute.String("op", "x")))
		}
		metrics.QueueAck.Add(ctx, 1, metric.WithAttributes(attribute.String("queue", "q"), attribute.String("reason", "r")))
	}
	metrics.MetricsMap.UpdateTotalElementsMap(map[string]int64{"q": 3, "p": 4})
	metrics.MetricsMap.UpdateTotalElementsMap(map[string]int64{"q": 5})
	metrics.MetricsMap.UpdateOldestElementMap(map[string]int64{"q": 7})
	if rpc, err := otel.GetMeterProvider().Meter("x").Int64Histogram("rpc_server_duration"); err == nil {
		rpc.Record(ctx, 1)
	}
	go func() {
		_, _ = io.Copy(io.Discard, os.Stdin) // the parent is gone when this ends
		os.Exit(0)
	}()
	metrics.ListenAndServe()
	os.Exit(3)
}

type sample struct {
	name   string
	labels map[string]string
	value  float64
}

func parseExposition(text string) (out []sample, err error) {
	for _, line := range strings.Split(text, "\n") {
		if line == "" || line[0] == '#' {
			continue
		}
		s := sample{labels: map[string]string{}}
		i := strings.IndexAny(line, "{ ")
		if i < 0 {
			return nil, fmt.Errorf("malformed line %q", line)
		}
		s.name = line[:i]
		rest := line[i:]
		if rest[0] == '{' {
			rest = rest[1:]
			for rest != "" && rest[0] != '}' {
				j := strings.Index(rest, `="`)
				if j < 0 {
					return nil, fmt.Errorf("malformed line %q", line)
				}
				k := strings.TrimLeft(rest[:j], ", ")
				rest = rest[j+2:]
				var b strings.Builder
				for rest != "" && rest[0] != '"' {
					if rest[0] == '\\' && len(rest) > 1 {
						rest = rest[1:]
					}
					b.WriteByte(rest[0])
					rest = rest[1:]
				}
				rest = strings.TrimPrefix(rest, `"`)
				if _, dup := s.labels[k]; dup {
					return nil, fmt.Errorf("label %q twice in %q", k, line)
				}
				s.labels[k] = b.String()
			}
			rest = strings.TrimPrefix(rest, "}")
		}
		f := strings.Fields(rest)
		if len(f) == 0 {
			return nil, fmt.Errorf("malformed line %q", line)
		}
		s.value, err = strconv.ParseFloat(f[0], 64)
		if err != nil {
			return nil, err
		}
		out = append(out, s)
	}
	return
}

var defaultBuckets = []float64{0, 1, 2, 5, 10, 15, 20, 30, 35, 50, 100, 200, 400, 600, 800, 1000, 1500, 2000, 5000, 10000}

// bucketBounds is what a bucket setting means; a setting that is not a list of numbers means the default.
func bucketBounds(s string) []float64 {
	if s == "" {
		return defaultBuckets
	}
	var out []float64
	for _, x := range strings.Split(s, ",") {
		f, err := strconv.ParseFloat(strings.TrimSpace(x), 64)
		if err != nil {
			return defaultBuckets
		}
		out = append(out, f)
	}
	return out
}

// resourceLabels is what the resource settings mean.
func resourceLabels(k *exportCase) map[string]string {
	l := map[string]string{"service_name": project.Name, "service_version": project.Version}
	for _, kv := range strings.Split(k.Attrs, ",") {
		if a, b, ok := strings.Cut(kv, "="); ok {
			l[strings.ReplaceAll(a, ".", "_")] = b
		}
	}
	if k.Service != "" {
		l["service_name"] = k.Service
	}
	return l
}

func exportOnce(c *vk.Ctx, k *exportCase) {
	k.Export = true
	var text string
	for try := 0; ; try++ {
		port := freePort()
		vals, _ := json.Marshal(k.Values)
		cmd := exec.Command(os.Args[0])
		cmd.Env = append([]string{"PATH=" + os.Getenv("PATH")}, childEnv+"="+string(vals), "DECKARD_METRICS_PORT="+strconv.Itoa(port))
		for _, kv := range [][2]string{{"OTEL_RESOURCE_ATTRIBUTES", k.Attrs}, {"OTEL_SERVICE_NAME", k.Service}, {"DECKARD_METRICS_HISTOGRAM_BUCKETS", k.Buckets}, {"DECKARD_METRICS_PATH", k.Path}, {"DECKARD_METRICS_OPENMETRICS_ENABLED", k.Open}} {
			if kv[1] != "" {
				cmd.Env = append(cmd.Env, kv[0]+"="+kv[1])
			}
		}
		stdin, err := cmd.StdinPipe()
		fatal(err)
		var errs strings.Builder
		cmd.Stderr = &errs
		fatal(cmd.Start())
		exited := make(chan error, 1)
		go func() { exited <- cmd.Wait() }()
		path := k.Path
		if path == "" {
			path = "/metrics"
		}
		gone := false
		for i := 0; i < 600 && !gone; i++ {
			req, _ := http.NewRequest("GET", fmt.Sprintf("http://127.0.0.1:%d%s", port, path), nil)
			if i%2 == 1 {
				req.Header.Set("Accept", "text/plain")
			}
			resp, err := http.DefaultClient.Do(req)
			if err == nil {
				b, _ := io.ReadAll(bufio.NewReader(resp.Body))
				resp.Body.Close()
				if resp.StatusCode == 200 {
					text = string(b)
					break
				}
				c.Violation("export-status", k, "the metrics endpoint %s answered %s: %.300s", path, resp.Status, b)
				break
			}
			select {
			case <-exited:
				gone = true
			case <-time.After(50 * time.Millisecond):
			}
		}
		stdin.Close()
		if !gone {
			<-exited
		}
		if text != "" || c.Violated() {
			break
		}
		if try == 3 {
			if strings.Contains(errs.String(), "panic") {
				c.Violation("export-panic", k, "the metrics process failed: %.1500s", errs.String())
				return
			}
			fmt.Fprintln(os.Stderr, "metrics child did not come up:", errs.String())
			os.Exit(2)
		}
	}
	if c.Violated() {
		return
	}
	ss, err := parseExposition(text)
	if err != nil {
		c.Violation("export-format", k, "the exposition is malformed: %v", err)
		return
	}
	labels := resourceLabels(k)
	want := bucketBounds(k.Buckets)
	le := map[string]map[string]float64{}
	vals := map[string]float64{}
	for _, s := range ss {
		if s.name == "target_info" {
			continue
		}
		if strings.Contains(s.name, "rpc_server_duration") {
			c.Violation("export-rpc", k, "series %s is exported", s.name)
			return
		}
		for n, v := range labels {
			if s.labels[n] != v {
				c.Violation("export-labels", k, "series %s has label %s=%q, want %q (labels %v)", s.name, n, s.labels[n], v, s.labels)
				return
			}
			delete(s.labels, n)
		}
		if b, ok := s.labels["le"]; ok {
			delete(s.labels, "le")
			n := s.name
			if le[n] == nil {
				le[n] = map[string]float64{}
			}
			le[n][b] = s.value
		}
		vals[s.name+fmt.Sprint(s.labels)] = s.value
		c.Count("series checked", 1)
	}
	if len(le) < 5 {
		c.Violation("export-missing", k, "only %d of 5 histograms are exported", len(le))
	}
	for n, b := range le {
		if len(b) != len(want)+1 {
			c.Violation("export-buckets", k, "histogram %s has buckets %v, want %v", n, b, want)
			return
		}
		for _, w := range append(append([]float64(nil), want...), math.Inf(1)) {
			num := 0.0
			for _, v := range k.Values {
				if float64(v) <= w {
					num++
				}
			}
			found := false
			for t, got := range b {
				if f, err := strconv.ParseFloat(t, 64); err == nil && f == w {
					found = true
					if got != num {
						c.Violation("export-buckets", k, "histogram %s counts %v up to %v, want %v of %v", n, got, w, num, k.Values)
						return
					}
				}
			}
			if !found {
				c.Violation("export-buckets", k, "histogram %s has buckets %v, want %v", n, b, want)
				return
			}
		}
	}
	for n, v := range map[string]float64{"deckard_total_messages" + fmt.Sprint(map[string]string{"queue": "q"}): 5,
		"deckard_total_messages" + fmt.Sprint(map[string]string{"queue": "p"}):           0,
		"deckard_oldest_message" + fmt.Sprint(map[string]string{"queue": "q"}):           7,
		"deckard_ack_total" + fmt.Sprint(map[string]string{"queue": "q", "reason": "r"}): float64(len(k.Values))} {
		if got, ok := vals[n]; !ok || got != v {
			c.Violation("export-value", k, "series %s is %v (%v), want %v", n, got, ok, v)
			return
		}
	}
	c.Eval(1)
	c.Count("metrics endpoints examined", 1)
	c.Distinct(fmt.Sprint(k.Attrs, k.Service, k.Buckets, k.Path, k.Open))
}

var (
	exportAttrs   = []string{"", "a=b", "deployment.environment=prod,team=x", "service.version=9.9", "service.version=1.0,k8s.pod.name=p-1", "bad", "x=1,bad,y=2", "a.b.c=d.e.f", "service.name=billing,a=b", "team=x,service.name=billing", "a.b=1,a_b=2,a.b=3"}
	exportBuckets = []string{"", "1,2,3", "10, 20 ,30", "0.5,1.5", "5", "x,y", "1,,2", "0,1000000", "-5,0,5", "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22"}
)

// randomExport is the i-th configuration: each attribute list and each
// bucket list comes up in turn.
func randomExport(r *rand.Rand, i int) *exportCase {
	k := &exportCase{
		Attrs:   exportAttrs[i%len(exportAttrs)],
		Service: pick(r, "", "svc", "my-deckard"),
		Buckets: exportBuckets[i%len(exportBuckets)],
		Path:    pick(r, "", "", "/m", "/a/b"),
		Open:    pick(r, "", "true", "false"),
	}
	for i := r.IntN(12) + 1; i > 0; i-- {
		k.Values = append(k.Values, pick(r, 0, 1, 2, 5, 6, 10, 20, 30, 1000, 10000, 10001, r.Int64N(3000)))
	}
	return k
}

func init() {
	p := &profile{name: "C21", w: with(baseWeights, map[string]int{"metrics": 14, "remove": 8, "timeout": 8, "unlock": 8, "ttl": 5, "exceed": 3, "edit": 3, "adv": 18}), names: "mixed", locks: 45, rm: 12, bounds: 15, ttl: 25, update: 25, queues: 5, ids: 10, kinds: kindMix, steps: 110}
	vk.Register(&vk.Check{Prop: "C21", Shards: 6, QuickS: 40, ThoroughS: 420,
		Rule: traceRule + "; or a counter with its labels per back end; or a configuration of the metrics endpoint",
		Assumptions: append([]string{
			"the OpenTelemetry SDK and its Prometheus exporter are stand-ins (not available offline): they fix a histogram's buckets when it is created and run gauge callbacks at collection, as the real ones do",
		}, backendAssumptions...),
		Run: func(c *vk.Ctx) {
			r := c.Rand(uint64(2100 + c.Shard))
			if c.Shard == 0 {
				emptyPrefix(c)
			}
			for i := 0; i < c.N(12, 600) && !c.Past(0.3) && !c.Violated(); i++ {
				exportOnce(c, randomExport(r, i*c.Shards+c.Shard))
			}
			for i, kind := range kindMix {
				if i%c.Shards == c.Shard && !c.Violated() {
					metricBatches(c, kind, pick(r, 999, 1000, 1001, 2100))
				}
			}
			for i, kind := range []string{"rg", "cm", "mg", "rm"} {
				if (i+1)%c.Shards == c.Shard && !c.Violated() {
					latencies(c, kind)
				}
			}
			env = metricEnv()
			if c.Shard == c.Shards-1 {
				manyQueues(c, "C21", allKinds)
			}
			explore(c, "C21", p, c.N(2500, 200000), 1)
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			var b struct {
				Batches, Empty, Export, Latencies bool
				Kind                   string
				N                      int
			}
			_ = json.Unmarshal(raw, &b)
			switch {
			case b.Export:
				var k exportCase
				fatal(json.Unmarshal(raw, &k))
				exportOnce(c, &k)
			case b.Empty:
				emptyPrefix(c)
			case b.Latencies:
				latencies(c, b.Kind)
			case b.Batches:
				metricBatches(c, b.Kind, b.N)
			default:
				env = metricEnv()
				replayTrace("C21")(c, raw)
			}
		},
	})
}
