package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zverif/vk"
	"go.mongodb.org/mongo-driver/v2/bson"
)

// C37: the published dashboards, evaluated over what the running service emits, show what was done. A service process
// without housekeeping executes known traffic, a housekeeper process on the same back ends does the rest; both are
// scraped and audited like in the chart's default deployment.

type boardCase struct {
	Kind string
	Seed uint64
}

type boardPanel struct {
	title   string
	targets [][2]string // query, legend
}

type kibanaViz struct {
	title   string
	fields  []string // of the bucket aggregations, in order
	sums    []string
	dates   []string
	filters map[string]string
	indices []string
}

type boards struct {
	panels []boardPanel
	vars   [][2]string // name, query
	viz    []kibanaViz
	cols   map[string][]string // columns of saved searches
	sIdx   map[string][]string // index patterns of saved searches
	stamp  string              // the time field
}

func kid(m map[string]any, path ...string) any {
	var v any = m
	for _, p := range path {
		o, _ := v.(map[string]any)
		v = o[p]
	}
	return v
}

func jstr(v any) string { s, _ := v.(string); return s }

func jlist(v any) []any { l, _ := v.([]any); return l }

func jobj(v any) map[string]any { m, _ := v.(map[string]any); return m }

// inner decodes JSON held in a string.
func inner(v any) (m map[string]any) {
	_ = json.Unmarshal([]byte(jstr(v)), &m)
	return
}

func readBoards(dir string) (*boards, error) {
	b := &boards{cols: map[string][]string{}, sIdx: map[string][]string{}}
	raw, err := os.ReadFile(filepath.Join(dir, "grafana.json"))
	if err != nil {
		return nil, err
	}
	var g map[string]any
	if err := json.Unmarshal(raw, &g); err != nil {
		return nil, err
	}
	var walk func(l []any)
	walk = func(l []any) {
		for _, x := range l {
			p := boardPanel{title: jstr(jobj(x)["title"])}
			for _, t := range jlist(jobj(x)["targets"]) {
				if e := jstr(jobj(t)["expr"]); e != "" && jobj(t)["hide"] != true {
					p.targets = append(p.targets, [2]string{e, jstr(jobj(t)["legendFormat"])})
				}
			}
			if len(p.targets) > 0 {
				b.panels = append(b.panels, p)
			}
			walk(jlist(jobj(x)["panels"]))
		}
	}
	walk(jlist(g["panels"]))
	for _, v := range jlist(kid(g, "templating", "list")) {
		q := jstr(jobj(v)["definition"])
		if q == "" {
			q = jstr(kid(jobj(v), "query", "query"))
		}
		if q != "" {
			b.vars = append(b.vars, [2]string{jstr(jobj(v)["name"]), q})
		}
	}
	raw, err = os.ReadFile(filepath.Join(dir, "kibana.ndjson"))
	if err != nil {
		return nil, err
	}
	byID := map[string]map[string]any{}
	var all []map[string]any
	sc := bufio.NewScanner(bytes.NewReader(raw))
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var o map[string]any
		if err := json.Unmarshal(sc.Bytes(), &o); err != nil {
			return nil, err
		}
		byID[jstr(o["id"])] = o
		all = append(all, o)
	}
	filters := func(attr map[string]any) map[string]string {
		out := map[string]string{}
		for _, f := range jlist(inner(kid(attr, "kibanaSavedObjectMeta", "searchSourceJSON"))["filter"]) {
			if kid(jobj(f), "meta", "disabled") == true {
				continue
			}
			for k, v := range jobj(kid(jobj(f), "query", "match_phrase")) {
				out[k] = jstr(v)
				if o, ok := v.(map[string]any); ok {
					out[k] = jstr(o["query"])
				}
			}
		}
		return out
	}
	var indices func(o map[string]any) []string
	indices = func(o map[string]any) (out []string) {
		for _, r := range jlist(o["references"]) {
			t := byID[jstr(jobj(r)["id"])]
			switch jstr(jobj(r)["type"]) {
			case "index-pattern":
				out = append(out, jstr(kid(t, "attributes", "title")))
			case "search":
				out = append(out, indices(t)...)
			}
		}
		return
	}
	for _, o := range all {
		attr := jobj(o["attributes"])
		switch o["type"] {
		case "index-pattern":
			b.stamp = jstr(attr["timeFieldName"])
		case "search":
			title := jstr(attr["title"])
			for _, c := range jlist(attr["columns"]) {
				b.cols[title] = append(b.cols[title], jstr(c))
			}
			b.sIdx[title] = indices(o)
		case "visualization":
			v := kibanaViz{title: jstr(attr["title"]), filters: filters(attr), indices: indices(o)}
			for _, r := range jlist(o["references"]) {
				if t := byID[jstr(jobj(r)["id"])]; t != nil && t["type"] == "search" {
					for k, x := range filters(jobj(t["attributes"])) {
						v.filters[k] = x
					}
				}
			}
			for _, a := range jlist(inner(attr["visState"])["aggs"]) {
				f := jstr(kid(jobj(a), "params", "field"))
				if jobj(a)["enabled"] == false || f == "" {
					continue
				}
				switch jstr(jobj(a)["type"]) {
				case "terms":
					v.fields = append(v.fields, f)
				case "sum", "avg", "max", "min":
					v.sums = append(v.sums, f)
				case "date_histogram":
					v.dates = append(v.dates, f)
				}
			}
			b.viz = append(b.viz, v)
		}
	}
	return b, nil
}

var metricName = regexp.MustCompile(`\b[a-z]\w*\s*\{`)

func boardFail(k, f string, a ...any) *mismatch { return mm(k, nil, []string{"C37"}, f, a...) }

// docMetric is a row of the documented table of metrics.
type docMetric struct {
	name, kind string
	labels     []string
}

func readMetricDocs(file string) (out []docMetric) {
	raw, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	row := regexp.MustCompile("^\\| *(deckard_\\w+) *\\| *(Counter|Histogram|Gauge) *\\|[^|]*\\|([^|]*)\\|")
	word := regexp.MustCompile(`\w+`)
	for _, l := range strings.Split(string(raw), "\n") {
		if m := row.FindStringSubmatch(l); m != nil {
			out = append(out, docMetric{m[1], m[2], word.FindAllString(m[3], -1)})
		}
	}
	return
}

// truth is what the dashboards have to show.
type truth struct {
	mu    sync.Mutex
	panel map[string]map[string]float64 // by title, by legend
	viz   map[string]map[string]float64 // by title, by terms
	calls [2]float64                    // accesses the calls need at least: cache, storage
	sub   map[string]float64            // queue, id: sum of the score subtractions
	start time.Time
	end   time.Time
}

func (t *truth) add(what map[string]map[string]float64, title, key string, n float64) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if what[title] == nil {
		what[title] = map[string]float64{}
	}
	what[title][key] += n
}

func (t *truth) p(title, key string, n int) { t.add(t.panel, title, key, float64(n)) }
func (t *truth) v(title, key string, n int) { t.add(t.viz, title, key, float64(n)) }

func (t *truth) used(cache, storage float64) {
	t.mu.Lock()
	t.calls[0] += cache
	t.calls[1] += storage
	t.mu.Unlock()
}

const boardLatency = 12 * time.Millisecond

var boardReasons = []string{"", "DONE", "no luck", "a/b"}

// traffic executes calls on the queues of one prefix and notes what has to be seen of them.
func (t *truth) traffic(cl deckard.DeckardClient, s *site, r *rand.Rand, prefix string) *mismatch {
	ctx := pctx()
	n := 0
	add := func(q string, k int, f func(*deckard.AddMessage)) *mismatch {
		req := &deckard.AddRequest{}
		for i := 0; i < k; i++ {
			n++
			m := &deckard.AddMessage{Id: fmt.Sprint("m", n), Queue: q, Timeless: true, Score: float64(1 + r.IntN(50))}
			if f != nil {
				f(m)
			}
			req.Messages = append(req.Messages, m)
		}
		_, err := cl.Add(ctx, req)
		t.used(1, 1)
		if err != nil {
			return boardFail("call", "adding %d messages to %s: %v", k, q, err)
		}
		return nil
	}
	pull := func(q string, k, dl int) ([]*deckard.Message, *mismatch) {
		res, err := cl.Pull(ctx, &deckard.PullRequest{Queue: q, Amount: int32(k), AckDeadlineMs: int64(dl)})
		if err != nil {
			return nil, boardFail("call", "pulling from %s: %v", q, err)
		}
		t.used(1, 0)
		return res.Messages, nil
	}
	steps := []func() *mismatch{
		func() *mismatch { // acks and nacks
			q := prefix + []string{"", "::a", "::b"}[r.IntN(3)]
			if m := add(q, 3+r.IntN(5), nil); m != nil {
				return m
			}
			ms, m := pull(q, 2+r.IntN(4), 36000_000)
			if m != nil {
				return m
			}
			for i, x := range ms {
				a := &deckard.AckRequest{Queue: q, Id: x.Id, Reason: boardReasons[r.IntN(len(boardReasons))], LockMs: int64(r.IntN(2))}
				if i == 0 {
					a.LockMs = 1
				}
				t.used(1, 1)
				if i == 0 || i > 1 && r.IntN(3) > 0 {
					a.ScoreSubtract = float64(r.IntN(40)) / 4
					a.Breakpoint = []string{"", "page-2"}[r.IntN(2)]
					if _, err := cl.Ack(ctx, a); err != nil {
						return boardFail("call", "ack: %v", err)
					}
					t.p("ACKs by Queue", prefix, 1)
					t.v("Deckard - Ack/Nack By Queue", prefix+"|ACK", 1)
					t.v("Deckard - Ack Reason By Queue", prefix+"|"+a.Reason, 1)
					t.mu.Lock()
					t.sub[q+"|"+x.Id] += a.ScoreSubtract
					t.mu.Unlock()
				} else {
					if _, err := cl.Nack(ctx, a); err != nil {
						return boardFail("call", "nack: %v", err)
					}
					t.v("Deckard - Ack/Nack By Queue", prefix+"|NACK", 1)
					t.v("Deckard - Nack Reason By Queue", prefix+"|"+a.Reason, 1)
				}
			}
			return nil
		},
		func() *mismatch { // deadlines that pass
			q := fmt.Sprint(prefix, "::late", n)
			k := 1 + r.IntN(6)
			if m := add(q, k, nil); m != nil {
				return m
			}
			ms, m := pull(q, k, 1)
			if m != nil {
				return m
			}
			if len(ms) != k {
				return boardFail("call", "pulled %d of %d messages of %s", len(ms), k, q)
			}
			t.p("Timeouts by Queue", prefix, k)
			t.v("Deckard - Ack/Nack By Queue", prefix+"|TIMEOUT", k)
			return nil
		},
		func() *mismatch { // empty pulls
			ms, m := pull(prefix+"::none", 1+r.IntN(3), 0)
			if m == nil && len(ms) > 0 {
				m = boardFail("call", "pulled %d messages of a queue nothing was added to", len(ms))
			}
			t.p("Empty Queue Pull", prefix+" empty-queue", 1)
			return m
		},
		func() *mismatch { // messages missing in the storage
			q := fmt.Sprint(prefix, "::ghost", n)
			k := 1 + r.IntN(4)
			if m := add(q, k, nil); m != nil {
				return m
			}
			lost := 1 + r.IntN(k)
			left := lost
			got := s.mongo.Drop("deckard.queue", func(d bson.D) bool {
				for _, e := range d {
					if e.Key == "queue" && e.Value == q && left > 0 {
						left--
						return true
					}
				}
				return false
			})
			if got != lost {
				fatal(fmt.Errorf("dropped %d of %d documents of %s", got, lost, q))
			}
			ms, m := pull(q, k, 36000_000)
			if m != nil {
				return m
			}
			if len(ms) != k-lost {
				return boardFail("call", "pulled %d messages of %s, %d of %d are stored", len(ms), q, k-lost, k)
			}
			t.p("Missing Storage Elements", prefix, lost)
			if lost == k {
				t.p("Empty Queue Pull", prefix+" missing-storage", 1)
			}
			t.used(0, 2)
			return nil
		},
		func() *mismatch { // expired messages
			k := 1 + r.IntN(5)
			t.p("TTL", "storage - "+prefix, k)
			t.p("TTL", "cache - "+prefix, k)
			return add(prefix+"::old", k, func(m *deckard.AddMessage) { m.Timeless, m.TtlMinutes = false, -int64(1+r.IntN(90)) })
		},
		func() *mismatch { // too many messages
			q := fmt.Sprint(prefix, "::full", n)
			most, k := 1+r.IntN(3), 1+r.IntN(5)
			if _, err := cl.EditQueue(ctx, &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: int64(most)}}); err != nil {
				return boardFail("call", "editing %s: %v", q, err)
			}
			t.p("Max elements", "storage - "+prefix, k)
			t.p("Max elements", "cache - "+prefix, k)
			return add(q, most+k, nil)
		},
	}
	for i := 0; i < 2*len(steps); i++ {
		j := i
		if i >= len(steps) {
			j = r.IntN(len(steps))
		}
		if m := steps[j](); m != nil {
			return m
		}
	}
	return nil
}

func samples(p int) ([]sample, error) {
	text, err := scrape(p, "/metrics")
	if err != nil {
		return nil, err
	}
	return parseExposition(text)
}

// target adds the labels Prometheus gives the series of a pod of the chart.
func target(ss []sample, pod string) []sample {
	for i := range ss {
		l := map[string]string{"pod": pod, "app_kubernetes_io_name": "deckard"}
		for k, v := range ss[i].labels {
			l[k] = v
		}
		ss[i].labels = l
	}
	return ss
}

// shown evaluates a panel: legend to the values of the series drawn under it.
func (p *boardPanel) shown(w *window) (map[string][]float64, *mismatch) {
	out := map[string][]float64{}
	subst := strings.NewReplacer("$queue", ".*", "$service_name", "deckard", "$res", "1m")
	for _, t := range p.targets {
		v, err := promEval(subst.Replace(t[0]), w)
		if err != nil {
			return nil, boardFail("query", "panel %q: the query %s is not valid: %v", p.title, t[0], err)
		}
		for _, s := range v {
			if s.v != 0 {
				k := legend(t[1], s.labels)
				out[k] = append(out[k], s.v)
			}
		}
	}
	return out, nil
}

// ours reports whether a panel is about metrics of the service.
func (p *boardPanel) ours() bool {
	for _, t := range p.targets {
		for _, m := range metricName.FindAllString(t[0], -1) {
			if !strings.HasPrefix(m, "deckard_") {
				return false
			}
		}
	}
	return true
}

// judge compares the panels with what happened; final tells that housekeeping has had its time.
func (b *boards) judge(t *truth, w *window, cmds [2]float64) *mismatch {
	for i := range b.panels {
		p := &b.panels[i]
		if !p.ours() {
			continue
		}
		got, m := p.shown(w)
		if m != nil {
			return m
		}
		sum, most, least := 0.0, math.Inf(-1), math.Inf(1)
		for k, l := range got {
			for _, v := range l {
				sum, most, least = sum+v, math.Max(most, v), math.Min(least, v)
			}
			if len(l) > 1 {
				return boardFail("panel-twice", "panel %q draws %q %d times: %v", p.title, k, len(l), l)
			}
		}
		bounds := func(i int, what string) *mismatch {
			switch {
			case sum < t.calls[i]:
				return boardFail("panel-low", "panel %q shows %v %s accesses (%v); the calls made need at least %v", p.title, sum, what, got, t.calls[i])
			case sum > 2*cmds[i]+20:
				return boardFail("panel-high", "panel %q shows %v %s accesses (%v); the back end received %v commands altogether", p.title, sum, what, got, cmds[i])
			}
			return nil
		}
		switch p.title {
		case "Storage Accesses":
			m = bounds(1, "storage")
			if m == nil && len(t.panel["Missing Storage Elements"]) > 0 {
				again := 0.0
				for k, l := range got {
					if strings.Contains(k, "(retry)") {
						again += l[0]
					}
				}
				if again == 0 {
					m = boardFail("panel-empty", "panel %q shows no retry although messages were missing: %v", p.title, got)
				}
			}
		case "Cache Accessess", "Cache Accesses":
			m = bounds(0, "cache")
		case "Storage latency", "Cache latency":
			if len(got) == 0 || most < float64(boardLatency.Milliseconds()-2) {
				m = boardFail("panel-low", "panel %q shows %v; every access took %v", p.title, got, boardLatency)
			} else if least < 0 || most > 1000*w.seconds+20000 {
				m = boardFail("panel-high", "panel %q shows %v after %v s", p.title, got, w.seconds)
			}
		case "Oldest Message by Queue", "Total Elements by Queue":
			continue // gauges, of the housekeeper
		case "Code Usage":
			continue // nothing records it
		default:
			want := t.panel[p.title]
			if want == nil {
				continue
			}
			for k, v := range want {
				if len(got[k]) != 1 || math.Abs(got[k][0]-v) > 1e-6 {
					return boardFail("panel "+p.title, "panel %q shows %v for %q, want %v (all: %v)", p.title, got[k], k, v, got)
				}
			}
			for k, v := range got {
				if _, ok := want[k]; !ok {
					return boardFail("panel "+p.title, "panel %q shows %v for %q, which did not happen", p.title, v, k)
				}
			}
		}
		if m != nil {
			return m
		}
	}
	return nil
}

// gauges judges the panels of the metrics task.
func (b *boards) gauges(t *truth, w *window, s *site, since time.Time) *mismatch {
	total := map[string]float64{}
	for _, d := range s.mongo.Docs("deckard.queue") {
		for _, e := range d {
			if e.Key == "queue" {
				total[strings.Split(jstr(e.Value), "::")[0]]++
			}
		}
	}
	for i := range b.panels {
		p := &b.panels[i]
		got, m := p.shown(w)
		if m != nil {
			return m
		}
		switch p.title {
		case "Total Elements by Queue":
			for k, v := range total {
				if len(got[k]) != 1 || got[k][0] != v {
					return boardFail("panel "+p.title, "panel %q shows %v for %q, %v messages are stored", p.title, got[k], k, v)
				}
			}
			for k, v := range got {
				if total[k] == 0 {
					return boardFail("panel "+p.title, "panel %q shows %v for %q, where nothing is stored", p.title, v, k)
				}
			}
		case "Oldest Message by Queue":
			low, high := float64(since.Sub(t.end).Milliseconds()), float64(time.Since(t.start).Milliseconds())
			for k := range total {
				if len(got[k]) != 1 || got[k][0] < low-5 || got[k][0] > high+5 {
					return boardFail("panel "+p.title, "panel %q shows %v ms for %q, whose messages were all used between %v and %v ms ago", p.title, got[k], k, low, high)
				}
			}
		}
	}
	label := regexp.MustCompile(`label_values\(\s*(\w+)\s*,\s*(\w+)\s*\)`)
	for _, v := range b.vars {
		m := label.FindStringSubmatch(v[1])
		if m == nil {
			continue
		}
		vals := map[string]bool{}
		for _, s := range w.to {
			if s.name == m[1] {
				vals[s.labels[m[2]]] = true
			}
		}
		if v[0] == "queue" {
			for k := range total {
				if !vals[k] {
					return boardFail("variable", "the dashboard's list of queues (%s) lacks %q: %v", v[1], k, vals)
				}
			}
		}
	}
	return nil
}

// documented checks the table of metrics in the documentation against the scrapes.
func documented(docs []docMetric, w *window) *mismatch {
	everywhere, all := map[string]int{}, 0 // labels of the resource are on every series
	for _, s := range w.to {
		if !strings.HasPrefix(s.name, "deckard_") {
			continue
		}
		all++
		for l := range s.labels {
			everywhere[l]++
		}
	}
	for _, d := range docs {
		name := map[string]string{"Counter": d.name + "_total", "Histogram": d.name + "_count", "Gauge": d.name}[d.kind]
		seen, has := 0, map[string]bool{}
		for _, s := range w.to {
			if s.name != name && !(d.kind == "Counter" && s.name == d.name) {
				continue
			}
			seen++
			for l := range s.labels {
				if everywhere[l] < all && l != "le" && !strings.HasPrefix(l, "otel_") {
					has[l] = true
				}
			}
		}
		if seen == 0 && d.name == "deckard_auditor_store_latency" {
			continue // perhaps no batch was sent until the scrape
		}
		if seen == 0 {
			return boardFail("documented", "the documented %s %s is not exported", d.kind, d.name)
		}
		for _, l := range d.labels {
			if !has[l] {
				return boardFail("documented", "%s has the labels %v, documented are %v", d.name, has, d.labels)
			}
			delete(has, l)
		}
		if len(has) > 0 {
			return boardFail("documented", "%s has the labels %v, which are not documented", d.name, has)
		}
	}
	return nil
}

func matchesIndex(patterns []string, index string) bool {
	for _, p := range patterns {
		for _, one := range strings.Split(p, ",") {
			if ok, _ := filepath.Match(strings.TrimSpace(one), index); ok {
				return true
			}
		}
	}
	return false
}

// kibana evaluates the visualisations over the audit documents.
func (b *boards) kibana(t *truth, es *esRec) *mismatch {
	es.mu.Lock()
	defer es.mu.Unlock()
	type docu struct {
		index string
		m     map[string]any
	}
	var docs []docu
	for i := range es.reqs {
		for _, e := range es.reqs[i].entries {
			var m map[string]any
			if err := json.Unmarshal([]byte(e.line), &m); err != nil {
				return boardFail("document", "audit document %.200s: %v", e.line, err)
			}
			docs = append(docs, docu{e.index, m})
			at, err := time.Parse(time.RFC3339Nano, jstr(m[b.stamp]))
			if err != nil || at.Before(t.start.Add(-2*time.Second)) || at.After(time.Now().Add(2*time.Second)) {
				return boardFail("document", "the time field %q of the audit document %.300s is not when it happened", b.stamp, e.line)
			}
		}
	}
	if len(docs) == 0 {
		return boardFail("document", "the audit store holds no document")
	}
	field := func(f string) string { return strings.TrimSuffix(f, ".keyword") }
	for title, cols := range b.cols {
		n, has := 0, map[string]bool{"_source": true}
		for _, d := range docs {
			if matchesIndex(b.sIdx[title], d.index) {
				n++
				for f := range d.m {
					has[f] = true
				}
			}
		}
		if n != len(docs) {
			return boardFail("index", "search %q covers the indices %q: %d of %d audit documents (in %q)", title, b.sIdx[title], n, len(docs), docs[0].index)
		}
		for _, c := range cols {
			if !has[field(c)] {
				return boardFail("column", "search %q: column %q is in none of the audit documents, like %v", title, c, docs[0].m)
			}
		}
	}
	for _, v := range b.viz {
		got := map[string]float64{}
		sums, seen := map[string]float64{}, map[string]bool{}
		for _, d := range docs {
			ok := matchesIndex(v.indices, d.index)
			for f, want := range v.filters {
				if !strings.EqualFold(jstr(d.m[field(f)]), want) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			var key []string
			for f := range d.m {
				seen[f] = true
			}
			for _, f := range v.fields {
				if x, has := d.m[field(f)]; has && x != nil { // documents without it are in no bucket
					key = append(key, jstr(x))
				}
			}
			if len(key) < len(v.fields) {
				continue
			}
			got[strings.Join(key, "|")]++
			if len(v.sums) > 0 && len(v.fields) > 1 && v.fields[0] == "queue.keyword" && v.fields[1] == "id.keyword" {
				x, isNum := d.m[field(v.sums[0])].(float64)
				if d.m[field(v.sums[0])] != nil && !isNum {
					return boardFail("field", "%q of the audit document %v is not a number", v.sums[0], d.m)
				}
				sums[key[0]+"|"+key[1]] += x
			}
		}
		for _, f := range append(append(append([]string{}, v.sums...), v.dates...), v.fields...) {
			if !seen[field(f)] {
				return boardFail("field", "visualisation %q uses %q, which is in none of the audit documents, like %v", v.title, f, docs[0].m)
			}
		}
		for k, n := range t.viz[v.title] {
			if got[k] != n {
				return boardFail("visualisation "+v.title, "visualisation %q shows %v for %q, want %v (all: %v)", v.title, got[k], k, n, got)
			}
		}
		if t.viz[v.title] != nil {
			for k, n := range got {
				sig := k[strings.LastIndexByte(k, '|')+1:]
				judged := v.title != "Deckard - Ack/Nack By Queue" || sig == "ACK" || sig == "NACK" || sig == "TIMEOUT"
				if t.viz[v.title][k] == 0 && judged {
					return boardFail("visualisation "+v.title, "visualisation %q shows %v for %q, which did not happen", v.title, n, k)
				}
			}
		}
		if len(sums) > 0 {
			for k, n := range t.sub {
				if math.Abs(sums[k]-n) > 1e-6 {
					return boardFail("visualisation "+v.title, "visualisation %q sums %v for %q, the acks subtracted %v", v.title, sums[k], k, n)
				}
			}
		}
	}
	return nil
}

// static judges what needs no traffic.
func (b *boards) static() *mismatch {
	by := regexp.MustCompile(`\bby\s*\(([^)]*)\)`)
	for _, p := range b.panels {
		for _, t := range p.targets {
			m := by.FindStringSubmatch(t[0])
			if m == nil {
				continue
			}
			for _, l := range legendLabel.FindAllStringSubmatch(t[1], -1) {
				if !regexp.MustCompile(`\b` + l[1] + `\b`).MatchString(m[1]) {
					return boardFail("legend "+p.title, "panel %q names its series by %q, but %s leaves only %s", p.title, l[1], t[0], m[1])
				}
			}
		}
	}
	return nil
}

func boardDir() string { return filepath.Join(filepath.Dir(binary()), "boards") }

func boardRun(c *vk.Ctx, k *boardCase) *mismatch {
	b, err := readBoards(boardDir())
	fatal(err)
	docs := readMetricDocs(filepath.Join(boardDir(), "components.md"))
	if m := b.static(); m != nil {
		return m
	}
	r := rand.New(rand.NewPCG(k.Seed, 37))
	s, err := openSite(c, k.Kind, true, delays("", "10h"))
	fatal(err)
	defer s.close()
	one := map[string]string{"DECKARD_METRICS_ENABLED": "true", "DECKARD_HOUSEKEEPER_ENABLED": "false"}
	two := map[string]string{"DECKARD_METRICS_ENABLED": "true", "DECKARD_HOUSEKEEPER_ENABLED": "true"}
	for x, v := range s.env {
		if one[x] == "" {
			one[x] = v
		}
		if two[x] == "" {
			two[x] = v
		}
	}
	for _, x := range []string{"TIMEOUT", "UNLOCK", "TTL", "MAX_ELEMENTS", "METRICS"} {
		two["DECKARD_HOUSEKEEPER_TASK_"+x+"_DELAY"] = "20ms"
	}
	m1, m2 := shardPort(c.Shard), shardPort(c.Shard)
	one["DECKARD_METRICS_PORT"], two["DECKARD_METRICS_PORT"] = fmt.Sprint(m1), fmt.Sprint(m2)
	t := &truth{panel: map[string]map[string]float64{}, viz: map[string]map[string]float64{}, sub: map[string]float64{}, start: time.Now()}
	s.latency(func() { time.Sleep(boardLatency) })
	p1, err := startProc(c.Shard, s.dir, one)
	if err != nil {
		return boardFail("start", "%v", err)
	}
	defer p1.kill()
	conn, err := dialTo(p1.port, nil)
	fatal(err)
	defer conn.Close()
	cl := deckard.NewDeckardClient(conn)
	var w0 []sample
	for end := time.Now().Add(30 * time.Second); ; time.Sleep(5 * time.Millisecond) {
		if w0, err = samples(m1); err == nil {
			break
		}
		if time.Now().After(end) {
			return boardFail("scrape", "the metrics endpoint is not served: %v", err)
		}
	}
	w0 = target(w0, "deckard-0")
	first := time.Now()
	prefixes := []string{"orders", "mail", "b2b.eu", "Größe"}[:2+r.IntN(3)]
	bad := make([]*mismatch, len(prefixes))
	var wg sync.WaitGroup
	for i, pre := range prefixes {
		seed := r.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			bad[i] = t.traffic(cl, s, rand.New(rand.NewPCG(seed, 1)), pre)
		}()
	}
	wg.Wait()
	for _, m := range bad {
		if m != nil {
			return m
		}
	}
	t.end = time.Now()
	c.Active("dashboards, after the traffic", k)
	e1, err := samples(m1)
	if err != nil {
		return boardFail("scrape", "%v", err)
	}
	e1 = target(e1, "deckard-0")
	// latencies are judged now: the housekeeper gets fast back ends
	w := &window{from: w0, to: e1, seconds: time.Since(first).Seconds()}
	for i := range b.panels {
		if p := b.panels[i]; strings.HasSuffix(p.title, "latency") {
			if m := (&boards{panels: []boardPanel{p}}).judge(t, w, [2]float64{}); m != nil {
				return m
			}
			c.Count("panels judged", 1)
		}
	}
	s.latency(func() {})
	time.Sleep(30 * time.Millisecond)
	since := time.Now()
	p2, err := startProc(c.Shard, s.dir, two)
	if err != nil {
		return boardFail("start", "%v", err)
	}
	defer p2.kill()
	rest := &boards{vars: b.vars}
	for _, p := range b.panels {
		if !strings.HasSuffix(p.title, "latency") {
			rest.panels = append(rest.panels, p)
		}
	}
	// judged once everything is shown, and again a little later: nothing is shown beyond it
	good := 0
	var m *mismatch
	for end := time.Now().Add(houseLimit); good < 3; time.Sleep(25 * time.Millisecond) {
		e2, err := samples(m2)
		if err == nil {
			again, err1 := samples(m1)
			if err1 != nil {
				return boardFail("scrape", "%v", err1)
			}
			w = &window{from: w0, to: append(target(again, "deckard-0"), target(e2, "deckard-housekeeper-0")...), seconds: time.Since(first).Seconds()}
			cmds := [2]float64{float64(s.redis.Commands()), float64(s.mongo.Commands())}
			if m = rest.judge(t, w, cmds); m == nil {
				m = rest.gauges(t, w, s, since)
			}
			if m == nil {
				m = documented(docs, w)
			}
		} else {
			m = boardFail("scrape", "%v", err)
		}
		if m == nil {
			good++
			continue
		}
		if good > 0 || time.Now().After(end) || p1.gone() || p2.gone() {
			return m
		}
	}
	c.Count("panels judged", int64(len(rest.panels)))
	for title, want := range t.panel {
		c.Count("values in "+title, int64(len(want)))
	}
	// everything is audited once both have ended
	for _, p := range []*proc{p1, p2} {
		p.signal(syscall.SIGTERM)
	}
	_ = conn.Close()
	for _, p := range []*proc{p1, p2} {
		if !p.wait(60 * time.Second) {
			return boardFail("no-exit", "the process was still running 60 s after the signal")
		}
	}
	if m := b.kibana(t, s.es); m != nil {
		return m
	}
	c.Count("visualisations judged", int64(len(b.viz)))
	c.Count("documented metrics seen", int64(len(docs)))
	var names []string
	for x := range t.panel {
		names = append(names, x)
	}
	sort.Strings(names)
	c.Distinct(fmt.Sprint(k.Kind, prefixes, len(names), k.Seed))
	return nil
}

func runBoard(c *vk.Ctx, k *boardCase) {
	c.Active("dashboards", k)
	defer c.Active("", nil)
	var m *mismatch
	if !c.Guard("dashboards", k, func() { m = boardRun(c, k) }) {
		return
	}
	c.Eval(1)
	if m != nil {
		c.Violation(m.key, k, "on %s back ends: %s", k.Kind, m.text)
	}
}

func init() {
	vk.Register(&vk.Check{Prop: "C37", Shards: 6, QuickS: 40, ThoroughS: 300,
		Rule:        "a distinct non-trivial case is a history of random traffic over a service and a housekeeper process whose scrapes and audit documents were put through every panel and visualisation",
		Assumptions: []string{"Redis, MongoDB and the audit store are in-process protocol servers written for this task; the processes under test are the real binary", "the exporter behind the metrics endpoint is an offline stand-in, which names series as the real one does", "Prometheus adds the labels of the chart's pods; queries are evaluated between two scrapes, without extrapolation"},
		Run: func(c *vk.Ctx) {
			r := c.Rand(37)
			for i := 0; i < c.N(24, 4000); i++ {
				k := &boardCase{Kind: []string{"rg", "cg"}[i%2], Seed: r.Uint64()}
				if i%c.Shards == c.Shard && !c.Past(0.9) && !c.Violated() {
					runBoard(c, k)
				}
			}
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			var k boardCase
			if json.Unmarshal(raw, &k) == nil {
				runBoard(c, &k)
			}
		},
	})
}
