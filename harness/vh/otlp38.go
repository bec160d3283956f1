package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/project"
	"github.com/takenet/deckard/internal/zverif/vk"
	"google.golang.org/grpc/metadata"
)

// C38: the real binary with a collector: every call is exported as one span that
// continues the caller's trace; no collector, and no configured one, disturb it.

type otlpCase struct {
	Mode    string
	Kind    string
	Var     string
	Op      string `json:",omitempty"`
	Seed    uint64
	Clients int
	Calls   int
	Signal  int
}

func otlpFail(k, f string, a ...any) *mismatch { return mm(k, nil, []string{"C38"}, f, a...) }

// otlpSpan is what the stand-in of the OTLP client sends.
type otlpSpan struct {
	Resource                  map[string]any
	Name, Trace, Span, Parent string
	Remote                    bool
	Kind                      string
	Attrs                     map[string]any
}

// collector receives spans.
type collector struct {
	l     net.Listener
	mu    sync.Mutex
	spans []otlpSpan
	conns int
	mute  bool // accepts and never reads
	open  []net.Conn
}

func startCollector(addr string, mute bool) (*collector, error) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	s := &collector{l: l, mute: mute}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns++
			s.open = append(s.open, c)
			s.mu.Unlock()
			if mute {
				continue
			}
			go func() {
				defer c.Close()
				r := bufio.NewReader(c)
				for {
					b, err := r.ReadBytes('\n')
					if err != nil {
						return
					}
					if string(b) == "null\n" {
						if _, err := c.Write([]byte{1}); err != nil {
							return
						}
						continue
					}
					var o otlpSpan
					if json.Unmarshal(b, &o) == nil {
						s.mu.Lock()
						s.spans = append(s.spans, o)
						s.mu.Unlock()
					}
				}
			}()
		}
	}()
	return s, nil
}

func (s *collector) stop() {
	s.l.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.open {
		c.Close()
	}
}

func (s *collector) got() ([]otlpSpan, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]otlpSpan(nil), s.spans...), s.conns
}

// otlpCall is a call that was answered.
type otlpCall struct {
	method        string
	trace, parent string // empty: the caller has no trace
	sampled       bool
	attrs         map[string]any
	what          string
}

// serviceName is the service of the calls.
func serviceName() string {
	return strings.Split(strings.TrimPrefix(deckard.Deckard_Add_FullMethodName, "/"), "/")[0]
}

// spanVal is an attribute value as a sorted list of strings.
func spanVal(v any) string {
	var l []string
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			l = append(l, fmt.Sprint(e))
		}
	case []string:
		l = append(l, x...)
	case nil:
	default:
		l = append(l, fmt.Sprint(x))
	}
	sort.Strings(l)
	return strings.Join(l, "\x00")
}

type otlpClient struct {
	cl    deckard.DeckardClient
	r     *rand.Rand
	q     string
	n     int
	calls []*otlpCall
	bad   *mismatch
	in    map[string]bool // messages stored
}

// header gives a call a trace, or none.
func (x *otlpClient) header(ctx context.Context, o *otlpCall) context.Context {
	if x.r.IntN(5) == 0 {
		if x.r.IntN(3) == 0 {
			return metadata.AppendToOutgoingContext(ctx, "traceparent", pick(x.r, "", "00-xx-yy-01", "00-00000000000000000000000000000000-0000000000000000-01"))
		}
		return ctx
	}
	o.trace = fmt.Sprintf("%016x%016x", x.r.Uint64(), x.r.Uint64()|1)
	o.parent = fmt.Sprintf("%016x", x.r.Uint64()|1)
	o.sampled = x.r.IntN(4) > 0
	f := "00"
	if o.sampled {
		f = "01"
	}
	return metadata.AppendToOutgoingContext(ctx, "traceparent", "00-"+o.trace+"-"+o.parent+"-"+f)
}

func (x *otlpClient) step(ctx context.Context) {
	o := &otlpCall{sampled: true}
	c := x.header(ctx, o)
	x.n++
	id := fmt.Sprintf("m%d", x.r.IntN(6))
	var err error
	good, want := true, ""
	switch k := x.r.IntN(9); {
	case k < 3:
		o.method = "Add"
		q := &deckard.AddRequest{}
		ids := []string{}
		for i := 0; i < 1+x.r.IntN(3); i++ {
			id := fmt.Sprintf("m%d", (x.n+i)%6)
			ids = append(ids, id)
			q.Messages = append(q.Messages, &deckard.AddMessage{Id: id, Queue: x.q, Timeless: true})
		}
		o.attrs = map[string]any{"deckard.id": ids, "deckard.queue": []string{x.q}}
		n := 0
		for _, id := range ids {
			if !x.in[id] {
				n++
				x.in[id] = true
			}
		}
		var a *deckard.AddResponse
		a, err = x.cl.Add(c, q)
		good, want = err == nil && a.CreatedCount == int64(n) && a.UpdatedCount == int64(len(ids)-n), fmt.Sprint(a)
	case k < 5:
		o.method = "Pull"
		var a *deckard.PullResponse
		a, err = x.cl.Pull(c, &deckard.PullRequest{Queue: x.q, Amount: 3, MaxScore: 1e15})
		ids := []string{}
		for _, m := range a.GetMessages() {
			ids = append(ids, m.Id)
			good = good && x.in[m.Id]
		}
		o.attrs = map[string]any{"deckard.id": ids, "deckard.queue": []string{x.q}, "deckard.amount": []string{"3"}}
		want = fmt.Sprint(ids)
	case k == 5:
		o.method = "Count"
		var a *deckard.CountResponse
		a, err = x.cl.Count(c, &deckard.CountRequest{Queue: x.q})
		o.attrs = map[string]any{"deckard.queue": []string{x.q}}
		n := 0
		for _, v := range x.in {
			if v {
				n++
			}
		}
		good, want = err == nil && a.Count == int64(n), fmt.Sprint(a)
	case k == 6:
		o.method = "GetById"
		var a *deckard.GetByIdResponse
		a, err = x.cl.GetById(c, &deckard.GetByIdRequest{Queue: x.q, Id: id})
		o.attrs = map[string]any{"deckard.id": []string{id}, "deckard.queue": []string{x.q}}
		good, want = err == nil && a.Found == x.in[id], fmt.Sprint(a)
	case k == 7:
		o.method = "Remove"
		var a *deckard.RemoveResponse
		a, err = x.cl.Remove(c, &deckard.RemoveRequest{Queue: x.q, Ids: []string{id}})
		o.attrs = map[string]any{"deckard.id": []string{id}, "deckard.queue": []string{x.q}}
		n := int64(0)
		if x.in[id] {
			n = 1
		}
		good, want = err == nil && a.StorageRemoved == n, fmt.Sprint(a)
		x.in[id] = false
	default:
		o.method = "GetQueue"
		_, err = x.cl.GetQueue(c, &deckard.GetQueueRequest{Queue: x.q})
	}
	o.what = fmt.Sprintf("%s in queue %s", o.method, x.q)
	if err != nil || !good {
		if x.bad == nil {
			x.bad = otlpFail("answer", "%s answered %s, %v", o.what, want, err)
		}
		return
	}
	x.calls = append(x.calls, o)
}

// judgeSpans compares what arrived with the answered calls.
func judgeSpans(c *vk.Ctx, got []otlpSpan, calls []*otlpCall) *mismatch {
	byParent := map[string][]otlpSpan{}
	roots := map[string][]otlpSpan{} // by method and queue
	svc := serviceName()
	own := 0
	key := func(method string, at map[string]any) string {
		return method + " " + spanVal(at["deckard.queue"]) + " " + spanVal(at["deckard.id"])
	}
	for _, s := range got {
		if s.Resource["service.name"] != project.Name || s.Resource["service.version"] != project.Version {
			return otlpFail("resource", "the span %s says service.name = %v and service.version = %v; this is %s %s", s.Name, s.Resource["service.name"], s.Resource["service.version"], project.Name, project.Version)
		}
		if !strings.HasPrefix(s.Name, svc+"/") {
			continue
		}
		own++
		m := strings.TrimPrefix(s.Name, svc+"/")
		if s.Parent != "" {
			byParent[s.Trace+s.Parent] = append(byParent[s.Trace+s.Parent], s)
		} else {
			k := key(m, s.Attrs)
			roots[k] = append(roots[k], s)
		}
	}
	wantRoots := map[string]int{}
	n := 0
	for _, o := range calls {
		if o.trace == "" {
			wantRoots[key(o.method, o.attrs)]++
			n++
			continue
		}
		l := byParent[o.trace+o.parent]
		if !o.sampled {
			if len(l) > 0 {
				return otlpFail("unsampled", "%s: its caller's trace is not sampled, yet %d spans were exported", o.what, len(l))
			}
			continue
		}
		n++
		if len(l) == 0 {
			return otlpFail("span-lost", "%s was answered before the process ended, but no span that continues its caller's trace was exported (%d spans arrived)", o.what, len(got))
		}
		if len(l) > 1 {
			return otlpFail("span-twice", "%s was exported as %d spans", o.what, len(l))
		}
		if l[0].Name != svc+"/"+o.method {
			return otlpFail("span-name", "%s was exported as %s", o.what, l[0].Name)
		}
		for _, k := range sortedKeys(o.attrs) {
			if spanVal(l[0].Attrs[k]) != spanVal(o.attrs[k]) {
				return otlpFail("span-attribute", "the exported span of %s says %s = %v, want %v", o.what, k, l[0].Attrs[k], o.attrs[k])
			}
		}
	}
	for _, k := range sortedKeys(wantRoots) {
		if len(roots[k]) != wantRoots[k] {
			return otlpFail("root-spans", "%d calls without a trace (%q), %d such spans exported", wantRoots[k], k, len(roots[k]))
		}
	}
	if own != n {
		return otlpFail("span-foreign", "%d spans of calls exported, %d calls that belong there", own, n)
	}
	c.Count("spans compared", int64(n))
	return nil
}

func otlpEnv(k *otlpCase, right, wrong string) map[string]string {
	env := map[string]string{"DECKARD_HOUSEKEEPER_ENABLED": "false"}
	switch k.Var {
	case "general":
		env["OTEL_EXPORTER_OTLP_ENDPOINT"] = right
	case "traces":
		env["OTEL_EXPORTER_OTLP_TRACES_ENDPOINT"] = right
	case "both":
		env["OTEL_EXPORTER_OTLP_ENDPOINT"] = wrong
		env["OTEL_EXPORTER_OTLP_TRACES_ENDPOINT"] = right
	}
	return env
}

func otlpRun(c *vk.Ctx, k *otlpCase) *mismatch {
	var addr string
	var col *collector
	var err error
	switch k.Mode {
	case "off": // nothing is configured: nothing reaches the default collector
		if col, err = startCollector("127.0.0.1:4317", false); err != nil {
			c.Count("default port of collectors taken", 1)
			return nil
		}
	case "down":
		addr = fmt.Sprint("127.0.0.1:", shardPort(c.Shard))
	default:
		col, err = startCollector("127.0.0.1:0", k.Mode == "stalled")
		fatal(err)
		addr = col.l.Addr().String()
	}
	if col != nil {
		defer col.stop()
	}
	other, err := startCollector("127.0.0.1:0", false)
	fatal(err)
	defer other.stop()
	s, err := openSite(c, k.Kind, false, otlpEnv(k, "http://"+addr, "http://"+other.l.Addr().String()))
	fatal(err)
	defer s.close()
	p, err := startProc(c.Shard, s.dir, s.env)
	if err != nil {
		return otlpFail("start", "the service does not start: %v", err)
	}
	defer p.kill()
	ctx, cancel := within(exitLimit)
	defer cancel()
	var cs []*otlpClient
	var wg sync.WaitGroup
	r := rand.New(rand.NewPCG(k.Seed, 38))
	for i := 0; i < k.Clients; i++ {
		conn, err := dialTo(p.port, nil)
		fatal(err)
		defer conn.Close()
		x := &otlpClient{cl: deckard.NewDeckardClient(conn), r: rand.New(rand.NewPCG(r.Uint64(), 1)), q: fmt.Sprintf("q%d", i), in: map[string]bool{}}
		cs = append(cs, x)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < k.Calls && x.bad == nil; j++ {
				x.step(ctx)
			}
		}()
	}
	wg.Wait()
	var calls []*otlpCall
	for _, x := range cs {
		if x.bad != nil {
			return x.bad
		}
		calls = append(calls, x.calls...)
	}
	c.Count("calls", int64(len(calls)))
	if k.Mode == "held" {
		held, release := make(chan struct{}), make(chan struct{})
		var armed atomic.Bool
		armed.Store(true)
		s.latency(func() {
			if armed.CompareAndSwap(true, false) {
				close(held)
				<-release
			}
		})
		free := sync.OnceFunc(func() { close(release) })
		defer free()
		done := make(chan struct{})
		x := cs[0]
		go func() {
			defer close(done)
			for armed.Load() || len(x.calls) == 0 {
				x.step(ctx)
				if x.bad != nil {
					return
				}
			}
		}()
		before := len(x.calls)
		select {
		case <-held:
		case <-done:
			return x.bad
		}
		p.signal(syscall.Signal(k.Signal))
		end := time.Now().Add(exitLimit)
		for {
			n, err := net.DialTimeout("tcp", fmt.Sprint("127.0.0.1:", p.port), time.Second)
			if err != nil {
				break
			}
			n.Close()
			if time.Now().After(end) {
				return otlpFail("still-accepting", "new connections are still accepted")
			}
			time.Sleep(5 * time.Millisecond)
		}
		time.Sleep(100 * time.Millisecond)
		free()
		<-done
		if x.bad != nil {
			return x.bad
		}
		calls = append(calls, x.calls[before:]...)
		c.Count("calls in progress at the signal", 1)
	} else {
		p.signal(syscall.Signal(k.Signal))
	}
	if !p.wait(exitLimit) {
		return otlpFail("no-exit", "the process was still running %v after the signal", exitLimit)
	}
	if p.err != nil {
		return otlpFail("exit-status", "the process ended with %s; last output: %s", p.status(), p.tail(500))
	}
	if l, n := other.got(); n > 0 || len(l) > 0 {
		return otlpFail("endpoint", "%d spans went to the general endpoint although one for traces is configured", len(l))
	}
	c.Distinct(fmt.Sprint(k.Mode, k.Kind, k.Var, k.Signal, k.Clients, len(calls)))
	switch k.Mode {
	case "off":
		if l, n := col.got(); n > 0 {
			return otlpFail("not-disabled", "no endpoint is configured, yet %d connections brought %d spans to the default one", n, len(l))
		}
	case "export", "held":
		l, _ := col.got()
		if m := judgeSpans(c, l, calls); m != nil {
			return m
		}
	case "stalled":
		if _, n := col.got(); n == 0 {
			return otlpFail("no-export", "nothing connected to the configured collector")
		}
	}
	return nil
}

func runOtlp(c *vk.Ctx, k *otlpCase) {
	c.Active("export of traces "+k.Mode, nil)
	var m *mismatch
	if !c.Guard("export of traces "+k.Mode, k, func() {
		c.Active("", nil)
		m = otlpRun(c, k)
	}) {
		return
	}
	c.Eval(1)
	c.Count("runs of the real process ("+k.Mode+")", 1)
	if m != nil {
		c.Violation(m.key, k, "%s on %s back ends, endpoint variable %s: %s", k.Mode, k.Kind, k.Var, m.text)
	}
}

func init() {
	vk.Register(&vk.Check{Prop: "C38", Shards: 4, QuickS: 20, ThoroughS: 300,
		Rule: "a distinct non-trivial case is a (mode, back ends, variables set, signal, number of clients, number of answered calls)",
		Assumptions: []string{"the OpenTelemetry SDK, its gRPC instrumentation and its OTLP client are offline stand-ins that model their documented behaviour (parent-based sampling, W3C propagation, batches, flush at shutdown, endpoint variables) and send JSON lines",
			"the process under test is the real binary on real connections"},
		Run: func(c *vk.Ctx) {
			var l []*otlpCase
			sig := func() int { return shutSignals[len(l)%3] }
			l = append(l, &otlpCase{Mode: "off", Kind: "mm", Var: "none", Seed: 1, Clients: 2, Calls: 20, Signal: sig()})
			for i, v := range []string{"general", "traces", "both"} {
				l = append(l, &otlpCase{Mode: "stalled", Kind: "mm", Var: v, Seed: 2, Clients: 2, Calls: 40, Signal: sig()},
					&otlpCase{Mode: "down", Kind: "mm", Var: v, Seed: 3, Clients: 2, Calls: 40, Signal: sig()},
					&otlpCase{Mode: "export", Kind: "mm", Var: v, Seed: 4, Clients: 1, Calls: 5, Signal: sig()})
				for j, kind := range []string{"rg", "mg", "cg"} {
					l = append(l, &otlpCase{Mode: "held", Kind: kind, Var: v, Seed: uint64(5 + i*3 + j), Clients: 1 + j, Calls: 10, Signal: sig()})
				}
			}
			for i, k := range l {
				if i%max(c.Shards, 1) == c.Shard && !c.Violated() {
					runOtlp(c, k)
				}
			}
			n := c.N(60, 2000)
			for i := c.Shard; i < n && !c.Past(1) && !c.Violated(); i += max(c.Shards, 1) {
				r := c.Rand(38000 + uint64(i))
				k := &otlpCase{Mode: "export", Kind: pick(r, "mm", "rg", "mg", "rm", "cg"), Var: pick(r, "general", "traces", "both"), Seed: r.Uint64(), Clients: 1 + r.IntN(6), Calls: 1 + r.IntN(80), Signal: shutSignals[r.IntN(3)]}
				if k.Kind != "mm" && r.IntN(4) == 0 {
					k.Mode = "held"
				}
				runOtlp(c, k)
				if i < 2 {
					c.Sample(k)
				}
			}
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			var k otlpCase
			if err := json.Unmarshal(raw, &k); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			for i := 0; i < 3 && !c.Violated(); i++ {
				runOtlp(c, &k)
			}
		}})
}
