package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/zverif/vk"
	"google.golang.org/grpc/health/grpc_health_v1"
)

// footprint is what the service holds when no call is executed and no message exists.
type footprint struct {
	own        map[string]int // goroutines Deckard's code started or executes, by function
	goroutines int
	files      int
	redisConns int
	keys, size int
	mongoConns int
	cursors    int
	docs       int
	audit      int
	heap       int64
	alone      bool
}

var createdBy = regexp.MustCompile(`(?m)^created by (\S+)`)

// goroutines counts all goroutines and those of Deckard's own code.
func goroutines() (n int, own map[string]int) {
	buf := make([]byte, 1<<20)
	for {
		k := runtime.Stack(buf, true)
		if k < len(buf) {
			buf = buf[:k]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	own = map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		n++
		for _, l := range strings.Split(g, "\n") {
			l = strings.TrimPrefix(l, "created by ")
			if strings.HasPrefix(l, "github.com/takenet/deckard") && !strings.Contains(l, "/zverif/") && !strings.HasPrefix(l, "github.com/takenet/deckard.") {
				f, _, _ := strings.Cut(l, "(0x")
				f, _, _ = strings.Cut(f, " in goroutine")
				own[f]++
				break
			}
		}
	}
	return
}

func openFiles() int {
	l, _ := os.ReadDir("/proc/self/fd")
	return len(l)
}

func liveHeap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// discardES accepts audit entries and counts connections.
type discardES struct {
	srv   *http.Server
	addr  string
	open  atomic.Int64
	bulks atomic.Int64
}

func startDiscardES() *discardES {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	fatal(err)
	e := &discardES{addr: "http://" + l.Addr().String()}
	body := `{"took":1,"errors":false,"items":[` + strings.Repeat(`{"index":{"_index":"deckard","status":201}},`, 400) + `{}]}`
	e.srv = &http.Server{
		ConnState: func(_ net.Conn, s http.ConnState) {
			switch s {
			case http.StateNew:
				e.open.Add(1)
			case http.StateClosed, http.StateHijacked:
				e.open.Add(-1)
			}
		},
		Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("X-Elastic-Product", "Elasticsearch")
			w.Header().Set("Content-Type", "application/json")
			if !strings.HasSuffix(r.URL.Path, "/_bulk") {
				_, _ = w.Write([]byte(`{"version":{"number":"7.17.0","build_flavor":"default"},"tagline":"You Know, for Search"}`))
				return
			}
			if n := e.bulks.Add(1); n%7 == 3 {
				http.Error(w, body, 500)
				return
			}
			_, _ = w.Write([]byte(body))
		}),
	}
	go func() { _ = e.srv.Serve(l) }()
	return e
}

// resWorld is a world under churn.
type resWorld struct {
	*world
	r     *rand.Rand
	es    *discardES
	calls int64
	fails int64
	next  int
	ids   map[string][]string
}

func (w *resWorld) measure() (f footprint) {
	f.goroutines, f.own = goroutines()
	f.files = openFiles()
	if w.redis != nil {
		f.redisConns, f.keys, f.size = w.redis.Held()
	}
	if w.mongo != nil {
		f.mongoConns, f.cursors, f.docs = w.mongo.Held()
	}
	if w.es != nil {
		f.audit = int(w.es.open.Load())
	}
	f.heap = liveHeap()
	f.alone = w.redis == nil && w.mongo == nil && w.es == nil
	return
}

var resQueues = []string{"q", "q::1", "q::2", "p::x", "p", "other::y"}

// episode executes a few hundred calls and removes every message they added.
func (w *resWorld) episode(n int) {
	r := w.r
	w.ids = map[string][]string{}
	var flight [][2]string
	for i := 0; i < n; i++ {
		q := resQueues[r.IntN(len(resQueues))]
		c, undo := context.Background(), func() {}
		switch r.IntN(12) {
		case 0: // the client goes away
			x, cancel := context.WithCancel(c)
			if r.IntN(2) == 0 {
				cancel()
			}
			c, undo = x, cancel
		case 1:
			if w.redis != nil || w.mongo != nil {
				undo = failNth(w.world, r.IntN(3))
			}
		case 2:
			x, cancel := context.WithTimeout(c, time.Hour)
			c, undo = x, cancel
		}
		var err error
		w.calls++
		switch k := r.IntN(40); {
		case k < 10:
			rq := &deckard.AddRequest{}
			for j := r.IntN(12); j >= 0; j-- {
				w.next++
				id := fmt.Sprint("m", w.next)
				w.ids[q] = append(w.ids[q], id)
				rq.Messages = append(rq.Messages, &deckard.AddMessage{Id: id, Queue: q, Score: float64(r.IntN(100)), TtlMinutes: int64(1 + r.IntN(30)), Timeless: r.IntN(3) == 0, StringPayload: "text", Metadata: map[string]string{"a": "b"}})
			}
			_, err = w.api.Add(c, rq)
		case k < 18:
			var a *deckard.PullResponse
			a, err = w.api.Pull(c, &deckard.PullRequest{Queue: q, Amount: int32(1 + r.IntN(8)), MaxScore: float64(r.IntN(2) * 60), AckDeadlineMs: int64(1 + r.IntN(100000))})
			for _, m := range a.GetMessages() {
				flight = append(flight, [2]string{q, m.Id})
			}
		case k < 27 && len(flight) > 0:
			j := r.IntN(len(flight))
			x := flight[j]
			flight = append(flight[:j], flight[j+1:]...)
			rq := &deckard.AckRequest{Queue: x[0], Id: x[1], Score: float64(r.IntN(3)), LockMs: int64(r.IntN(3)) * 1000, RemoveMessage: r.IntN(4) == 0, Breakpoint: fmt.Sprint(r.IntN(5))}
			if r.IntN(3) == 0 {
				_, err = w.api.Nack(c, rq)
			} else {
				_, err = w.api.Ack(c, rq)
			}
		case k < 29:
			_, err = w.api.Count(c, &deckard.CountRequest{Queue: q})
		case k < 31 && len(w.ids[q]) > 0:
			_, err = w.api.GetById(c, &deckard.GetByIdRequest{Queue: q, Id: w.ids[q][r.IntN(len(w.ids[q]))]})
		case k < 32:
			_, err = w.api.EditQueue(c, &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: int64(20 + r.IntN(100))}})
		case k < 33:
			_, err = w.api.GetQueue(c, &deckard.GetQueueRequest{Queue: q})
		case k < 34 && len(w.ids[q]) > 0:
			_, err = w.api.Remove(c, &deckard.RemoveRequest{Queue: q, Ids: []string{w.ids[q][r.IntN(len(w.ids[q]))]}})
		case k == 34:
			_ = queue.ProcessTimeoutMessages(c, w.q)
		case k == 35:
			queue.ProcessLockPool(c, w.q)
		case k == 36:
			now := dtime.Now()
			_, err = queue.RemoveTTLMessages(c, w.q, &now)
		case k == 37:
			_, err = queue.RemoveExceedingMessages(c, w.q)
		case k == 38:
			queue.ComputeMetrics(c, w.q)
		default:
			queue.RecoveryMessagesPool(c, w.q)
			clockMs.Add(int64(r.IntN(90000)))
		}
		undo()
		if err != nil {
			w.fails++
		}
	}
	for _, q := range resQueues {
		for l := w.ids[q]; len(l) > 0; {
			k := min(500, len(l))
			_, err := w.api.Remove(context.Background(), &deckard.RemoveRequest{Queue: q, Ids: l[:k]})
			fatal(err)
			l = l[k:]
		}
	}
}

// settled measures until nothing exceeds what was held before, at most 15 s.
func (w *resWorld) settled(base *footprint) (f footprint, key, text string) {
	for i := 0; ; i++ {
		f = w.measure()
		if key, text = f.exceeds(base, w.calls); key == "" || i == 60 {
			return
		}
		time.Sleep(250 * time.Millisecond)
	}
}

const resSlack = 24 // of each resource: pools may grow a little, leaks grow with the calls

func (f *footprint) exceeds(b *footprint, calls int64) (string, string) {
	for _, k := range sortedKeys(f.own) {
		if f.own[k] > b.own[k]+4 {
			return "goroutines-left", fmt.Sprintf("%d goroutines in or started by %s, %d before", f.own[k], k, b.own[k])
		}
	}
	for _, x := range []struct {
		key, what string
		n, b      int
	}{
		{"goroutines-left", "goroutines", f.goroutines, b.goroutines},
		{"files-left", "open files and connections", f.files, b.files},
		{"connections-left", "connections to Redis", f.redisConns, b.redisConns},
		{"connections-left", "connections to MongoDB", f.mongoConns, b.mongoConns},
		{"connections-left", "connections to the audit server", f.audit, b.audit},
		{"cursors-left", "open MongoDB cursors", f.cursors, b.cursors},
		{"keys-left", "Redis keys", f.keys, b.keys},
		{"keys-left", "members and bytes in Redis keys", f.size, b.size},
		{"documents-left", "MongoDB documents", f.docs, b.docs},
	} {
		if x.n > x.b+resSlack {
			return x.key, fmt.Sprintf("%d %s, %d before", x.n, x.what, x.b)
		}
	}
	lim := 1<<20 + 48*calls
	if f.alone {
		lim = 1<<17 + 16*calls // no stand-ins in this process
	}
	if d := f.heap - b.heap; d > lim {
		return "memory-left", fmt.Sprintf("%d bytes of live memory, %d before", f.heap, b.heap)
	}
	return "", ""
}

// residue compares what is held before and after many calls.
func residue(c *vk.Ctx, kind string, wire, audited bool, seed uint64, episodes int) {
	kase := map[string]any{"scenario": "what remains of finished calls", "back ends": kind, "over gRPC": wire, "audit": audited, "seed": seed, "episodes": episodes}
	c.Guard("residue", kase, func() {
		clockMs.Store(clockStart)
		w := &resWorld{r: rand.New(rand.NewPCG(seed, 35))}
		o := worldOpts{kind: kind, prefix: "deckard", aud: noAudit{}}
		if audited {
			w.es = startDiscardES()
			defer func() { _ = w.es.srv.Close() }()
			quiet()
			aud, wg, err := newRealAuditor(w.es.addr)
			fatal(err)
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan struct{})
			go func() { aud.StartSender(ctx); wg.Wait(); close(done) }()
			defer func() { cancel(); <-done }()
			o.aud = aud
		}
		x, err := newWorld(o)
		fatal(err)
		w.world = x
		defer x.close()
		if wire {
			fatal(x.listen())
		}
		for i := 0; i < 6; i++ {
			w.episode(250)
			if wire {
				w.visit(4)
			}
		}
		base, calls, fails := w.measure(), w.calls, w.fails
		for i := 0; i < episodes && !c.Past(1); i++ {
			w.episode(250)
			if wire {
				w.visit(6)
			}
		}
		before := w.calls
		w.calls -= calls
		f, key, text := w.settled(&base)
		c.Eval(1)
		c.Count("calls and housekeeping runs", before)
		c.Count("calls that failed", w.fails-fails)
		c.Count("footprints compared", 1)
		c.Max("goroutines at rest", int64(f.goroutines))
		c.Max("open files at rest", int64(f.files))
		c.Max(fmt.Sprintf("growth of live memory (%s%s%s), bytes per 1000 calls", kind, map[bool]string{true: ", gRPC"}[wire], map[bool]string{true: ", audit"}[audited]), max(0, (f.heap-base.heap)*1000/max(1, w.calls)))
		if w.es != nil {
			c.Count("audit requests", w.es.bulks.Load())
		}
		c.Distinct(fmt.Sprint("residue ", kind, wire, audited, seed))
		if key != "" {
			c.Violation(key, kase, "on %s back ends, %d calls and housekeeping runs after the first %d, with all messages removed: %s", kind, w.calls, calls, text)
		}
	})
}

// visit opens connections and streams that end again.
func (w *resWorld) visit(n int) {
	for i := 0; i < n; i++ {
		conn, err := dial(config.GrpcPort.GetInt())
		if err != nil {
			continue
		}
		ctx, cancel := context.WithCancel(context.Background())
		st, err := grpc_health_v1.NewHealthClient(conn).Watch(ctx, &grpc_health_v1.HealthCheckRequest{})
		if err == nil {
			_, _ = st.Recv()
		}
		_, _ = deckard.NewDeckardClient(conn).Count(ctx, &deckard.CountRequest{Queue: "q"})
		w.calls++
		if i%2 == 0 {
			cancel()
		}
		_ = conn.Close()
		cancel()
	}
}

func init() {
	vk.Register(&vk.Check{Prop: "C35", Shards: 8, QuickS: 40, ThoroughS: 300,
		Rule:        "a distinct non-trivial case is a (back ends, transport, audit, seed) combination whose footprint after thousands of calls, all messages removed, was compared with the one after the first 1500",
		Assumptions: backendAssumptions,
		Run: func(c *vk.Ctx) {
			kinds := []struct {
				kind      string
				wire, aud bool
				n         int
			}{{"mm", false, false, 500}, {"rg", false, false, 120}, {"cg", false, true, 90}, {"mm", true, true, 150}, {"rg", true, false, 90}, {"mg", false, true, 90}, {"rm", false, true, 150}, {"cm", true, false, 90}}
			for i := 0; i < c.N(1, 40) && !c.Violated() && (i == 0 || !c.Past(0.8)); i++ {
				for j, k := range kinds {
					if (j+i)%max(c.Shards, 1) == c.Shard {
						residue(c, k.kind, k.wire, k.aud, c.Rand(uint64(3500+i*10+j)).Uint64(), k.n*(1+i%3))
					}
				}
			}
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			var k struct {
				Kind     string `json:"back ends"`
				Wire     bool   `json:"over gRPC"`
				Aud      bool   `json:"audit"`
				Seed     uint64 `json:"seed"`
				Episodes int    `json:"episodes"`
			}
			fatal(json.Unmarshal(raw, &k))
			residue(c, k.Kind, k.Wire, k.Aud, k.Seed, k.Episodes)
		}})
}
