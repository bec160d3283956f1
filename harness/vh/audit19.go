package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// answers of the recording server to a bulk request
const (
	ansOK = iota
	ans400
	ans500
	ans503
	ans429
	ansDrop
	ansSlow
	ansOKClose
)

type esEntry struct {
	audit.Entry
	line  string
	index string
}

type esReq struct {
	n        int
	accepted bool
	entries  []esEntry
}

// esRec is an audit store that records what it is sent and answers by script.
type esRec struct {
	mu     sync.Mutex
	reqs   []esReq
	script []int
	bad    []string
	srv    *http.Server
	addr   string
	gate   chan struct{} // answers wait until it is closed
}

func (s *esRec) fault(f string, a ...any) {
	s.mu.Lock()
	s.bad = append(s.bad, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

func startES(script []int) (*esRec, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &esRec{script: script, addr: "http://" + l.Addr().String()}
	s.srv = &http.Server{Handler: s}
	go func() { _ = s.srv.Serve(l) }()
	return s, nil
}

func (s *esRec) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	w.Header().Set("X-Elastic-Product", "Elasticsearch")
	w.Header().Set("Content-Type", "application/json")
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return // the client gave up
	}
	if !strings.HasSuffix(r.URL.Path, "/_bulk") {
		_, _ = w.Write([]byte(`{"version":{"number":"7.17.0","build_flavor":"default"},"tagline":"You Know, for Search"}`))
		return
	}
	if r.Method != "POST" && r.Method != "PUT" {
		s.fault("bulk request with method %s", r.Method)
	}
	ents := s.parse(body)
	s.mu.Lock()
	n := len(s.reqs)
	ans := ansOK
	if n < len(s.script) {
		ans = s.script[n]
	}
	s.reqs = append(s.reqs, esReq{n: n, accepted: ans == ansOK || ans == ansSlow || ans == ansOKClose, entries: ents})
	s.mu.Unlock()
	if s.gate != nil {
		<-s.gate
	}
	switch ans {
	case ans400:
		http.Error(w, `{"error":"bad"}`, 400)
		return
	case ans500:
		http.Error(w, `{"error":"bad"}`, 500)
		return
	case ans429:
		http.Error(w, `{"error":"too many"}`, 429)
		return
	case ans503:
		http.Error(w, `{"error":"busy"}`, 503)
		return
	case ansDrop:
		if h, ok := w.(http.Hijacker); ok {
			if c, _, err := h.Hijack(); err == nil {
				_ = c.Close()
			}
		}
		return
	case ansSlow:
		time.Sleep(3 * time.Millisecond)
	case ansOKClose:
		w.Header().Set("Connection", "close")
	}
	_, _ = w.Write([]byte(`{"took":1,"errors":false,"items":[]}`))
}

// parse checks the bulk format: alternating action and document lines, each ended by a newline.
func (s *esRec) parse(body []byte) (out []esEntry) {
	if len(body) == 0 || body[len(body)-1] != '\n' {
		s.fault("bulk body of %d bytes does not end with a newline", len(body))
	}
	sc := bufio.NewScanner(bytes.NewReader(body))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	action, index := true, ""
	for sc.Scan() {
		l := sc.Bytes()
		if len(bytes.TrimSpace(l)) == 0 {
			s.fault("empty line in a bulk body")
			continue
		}
		if action {
			var a map[string]map[string]any
			if err := json.Unmarshal(l, &a); err != nil || len(a) != 1 || a["index"] == nil || a["index"]["_index"] != "deckard" {
				s.fault("not an index action: %.200s", l)
			}
			index, _ = a["index"]["_index"].(string)
		} else {
			var e esEntry
			e.line, e.index = string(l), index
			d := json.NewDecoder(bytes.NewReader(l))
			d.DisallowUnknownFields()
			if err := d.Decode(&e.Entry); err != nil {
				s.fault("document %.200s: %v", l, err)
			}
			out = append(out, e)
		}
		action = !action
	}
	if !action {
		s.fault("action without document")
	}
	return
}

func (s *esRec) stop() { _ = s.srv.Close() }

// delivered counts, by key, accepted and failed appearances.
func (s *esRec) delivered(keyOf func(*esEntry) string) (acc, failed map[string]int, bad []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	acc, failed = map[string]int{}, map[string]int{}
	for i := range s.reqs {
		for j := range s.reqs[i].entries {
			k := keyOf(&s.reqs[i].entries[j])
			if s.reqs[i].accepted {
				acc[k]++
			} else {
				failed[k]++
			}
		}
	}
	return acc, failed, s.bad
}

func newRealAuditor(addr string) (*audit.AuditorImpl, *sync.WaitGroup, error) {
	config.AuditEnabled.Set(true)
	config.ElasticAddress.Set(addr)
	defer config.AuditEnabled.Set(false)
	wg := &sync.WaitGroup{}
	a, err := audit.NewAuditor(wg)
	return a, wg, err
}

// auditEnv is the environment of a C19 history.
type auditEnv struct {
	es     *esRec
	cancel context.CancelFunc
	done   chan struct{}
}

func (a *auditEnv) finish() { // as a shutdown does it
	a.cancel()
	<-a.done
}

func openAudited(script []int, kind string) (w *world, a *auditEnv, err error) {
	es, err := startES(script)
	if err != nil {
		return nil, nil, err
	}
	quiet()
	aud, wg, err := newRealAuditor(es.addr)
	if err != nil {
		return nil, nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	a = &auditEnv{es: es, cancel: cancel, done: make(chan struct{})}
	go func() {
		aud.StartSender(ctx)
		wg.Wait()
		close(a.done)
	}()
	w, err = newWorld(worldOpts{kind: kind, prefix: "deckard", aud: aud})
	if err == nil {
		w.closers = append(w.closers, func() { cancel(); <-a.done; es.stop() })
	}
	return
}

func evKey(sig, q, id, reason string, lock int64, sub float64, bp string, at int64) string {
	return fmt.Sprintf("%s queue=%q id=%q reason=%q lock=%d subtract=%v breakpoint=%.80q at=%d", sig, q, id, reason, lock, sub, bp, at)
}

func entKey(e *esEntry) string {
	return evKey(string(e.Signal), e.Queue, e.ID, e.Reason, e.LockMs, e.LastScoreSubtract, e.Breakpoint, e.Timestamp.UnixMilli())
}

// judgeAudit matches what the server received with the expected events.
func judgeAudit(es *esRec, want, optional map[string]int) (m *mismatch, n int64) {
	acc, failed, bad := es.delivered(entKey)
	for _, r := range es.reqs {
		for _, e := range r.entries {
			p, s, ok := strings.Cut(e.Queue, "::")
			if !ok {
				p, s = e.Queue, ""
			}
			if e.QueuePrefix != p || e.QueueSuffix != s {
				return mm("audit-prefix", nil, []string{"C19"}, "entry of queue %q has prefix %q and suffix %q", e.Queue, e.QueuePrefix, e.QueueSuffix), 0
			}
		}
	}
	if len(bad) > 0 {
		return mm("audit-format", nil, []string{"C19"}, "malformed bulk request: %s", bad[0]), 0
	}
	all := map[string]bool{}
	for _, m := range []map[string]int{acc, failed, want} {
		for k := range m {
			all[k] = true
		}
	}
	keys := sortedKeys(all)
	sort.Strings(keys)
	for _, k := range keys {
		n += int64(acc[k])
		switch {
		case acc[k] > want[k]+optional[k]:
			return mm("audit-extra", nil, []string{"C19"}, "%d accepted entries for %d events: %s", acc[k], want[k]+optional[k], k), n
		case acc[k]+failed[k] > 0 && want[k]+optional[k] == 0:
			return mm("audit-extra", nil, []string{"C19"}, "entry without event: %s", k), n
		case acc[k] < want[k] && failed[k] < want[k]-acc[k]:
			return mm("audit-lost", nil, []string{"C19"}, "%d events but only %d accepted entries and %d in failed requests: %s", want[k], acc[k], failed[k], k), n
		}
	}
	return nil, n
}

// auditRound runs clients on queues of their own; every event is known in advance.
func auditRound(c *vk.Ctx, kind string, seed uint64, clients, ops int, script []int) {
	clockMs.Store(clockStart)
	kase := map[string]any{"round": kind, "seed": seed, "clients": clients, "ops": ops, "script": script}
	w, a, err := openAudited(script, kind)
	fatal(err)
	defer w.close()
	c.Active("concurrent audit round", kase)
	defer c.Active("", nil)
	var mu sync.Mutex
	want := map[string]int{}
	key := func(sig, q, id, reason string, lock int64) string { return evKey(sig, q, id, reason, lock, 0, "", 0) }
	put := func(m map[string]int, k string) { mu.Lock(); m[k]++; mu.Unlock() }
	var wg, hk sync.WaitGroup
	var fail atomic.Value
	stop := make(chan struct{})
	hk.Add(1)
	go func() {
		defer hk.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			clockMs.Add(1)
			_ = queue.ProcessTimeoutMessages(pctx(), w.q)
			queue.ProcessLockPool(pctx(), w.q)
			time.Sleep(50 * time.Microsecond)
		}
	}()
	for ci := 0; ci < clients; ci++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, uint64(ci)))
			q := fmt.Sprintf("c%d::%d", ci, ci)
			if ci%2 == 1 {
				q = fmt.Sprintf("c%d", ci)
			}
			for i := 0; i < ops; i++ {
				add := &deckard.AddRequest{}
				n := 1 + r.IntN(6)
				left := r.IntN(3) == 0
				if left {
					n = 1
				}
				for j := 0; j < n; j++ {
					add.Messages = append(add.Messages, &deckard.AddMessage{Id: fmt.Sprintf("%d-%d", i, j), Queue: q, Timeless: true})
				}
				if _, err := w.api.Add(pctx(), add); err != nil {
					fail.Store(err.Error())
					return
				}
				for _, m := range add.Messages {
					put(want, key("INSERT_CACHE", q, m.Id, "", 0))
				}
				dl := int64(1 << 40)
				if left {
					dl = int64(1 + r.IntN(3))
				}
				res, err := w.api.Pull(pctx(), &deckard.PullRequest{Queue: q, Amount: int32(n), AckDeadlineMs: dl})
				if err != nil {
					fail.Store(err.Error())
					return
				}
				for j, m := range res.Messages {
					reason := fmt.Sprintf("%d-%d", i, j)
					if left {
						// times out, and is removed at some moment
						for end := time.Now().Add(20 * time.Second); ; {
							p, err := w.api.Pull(pctx(), &deckard.PullRequest{Queue: q, Amount: 1, AckDeadlineMs: 1 << 40})
							if err == nil && len(p.Messages) == 1 {
								m = p.Messages[0]
								break
							}
							if time.Now().After(end) {
								fail.Store("a message did not time out")
								return
							}
						}
						put(want, key("TIMEOUT", q, m.Id, "", 0))
					}
					req := &deckard.AckRequest{Id: m.Id, Queue: q, Reason: reason}
					switch r.IntN(5) {
					case 0: // removed at once
						req.RemoveMessage = true
						_, err = w.api.Ack(pctx(), req)
						put(want, key("ACK", q, m.Id, reason, 0))
						put(want, key("REMOVE", q, m.Id, "REQUEST", 0))
						continue
					case 1:
						_, err = w.api.Remove(pctx(), &deckard.RemoveRequest{Queue: q, Ids: []string{m.Id}})
						put(want, key("REMOVE", q, m.Id, "REQUEST", 0))
						continue
					case 2:
						req.LockMs = int64(1 + r.IntN(3))
						_, err = w.api.Ack(pctx(), req)
						put(want, key("ACK", q, m.Id, reason, req.LockMs))
						put(want, key("UNLOCK", q, m.Id, "lock_ack", 0))
					case 3:
						req.LockMs = int64(1 + r.IntN(3))
						_, err = w.api.Nack(pctx(), req)
						put(want, key("NACK", q, m.Id, reason, req.LockMs))
						put(want, key("UNLOCK", q, m.Id, "lock_nack", 0))
					default:
						_, err = w.api.Nack(pctx(), req)
						put(want, key("NACK", q, m.Id, reason, 0))
					}
					if err != nil {
						fail.Store(err.Error())
						return
					}
					// it comes back and is removed
					for end := time.Now().Add(20 * time.Second); ; {
						p, err := w.api.Pull(pctx(), &deckard.PullRequest{Queue: q, Amount: 1, AckDeadlineMs: 1 << 40})
						if err == nil && len(p.Messages) == 1 {
							_, _ = w.api.Remove(pctx(), &deckard.RemoveRequest{Queue: q, Ids: []string{p.Messages[0].Id}})
							put(want, key("REMOVE", q, p.Messages[0].Id, "REQUEST", 0))
							break
						}
						if time.Now().After(end) {
							fail.Store("a message did not come back")
							return
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	hk.Wait()
	a.finish()
	c.Eval(1)
	if f := fail.Load(); f != nil {
		c.Note("round given up: %v", f)
		c.Count("rounds given up", 1)
		return
	}
	acc, failed, bad := a.es.delivered(func(e *esEntry) string {
		return key(string(e.Signal), e.Queue, e.ID, e.Reason, e.LockMs)
	})
	total := int64(0)
	all := map[string]bool{}
	for _, m := range []map[string]int{acc, failed, want} {
		for k := range m {
			all[k] = true
		}
	}
	for _, k := range sortedKeys(all) {
		total += int64(acc[k])
		if acc[k] > want[k] || want[k] == 0 || acc[k]+failed[k] < want[k] {
			c.Violation("audit-concurrent", kase, "%d events, %d accepted entries, %d in failed requests: %s", want[k], acc[k], failed[k], k)
			return
		}
	}
	if len(bad) > 0 {
		c.Violation("audit-format", kase, "malformed bulk request: %s", bad[0])
	}
	c.Count("audit entries matched", total)
	c.Count("concurrent audit rounds", 1)
	c.Distinct(fmt.Sprint(kind, clients, ops, total, len(a.es.reqs)))
}

// auditShutdown cancels the sender while producers are storing: what was stored before must be sent.
func auditShutdown(c *vk.Ctx, r *rand.Rand) {
	clockMs.Store(0)
	n := pick(r, 0, 1, 199, 200, 201, 399, 400, 401, 1000, r.IntN(1200))
	producers := 1 + r.IntN(4)
	script := auditScript(r)
	kase := map[string]any{"shutdown": true, "stored": n, "producers": producers, "script": script}
	es, err := startES(script)
	fatal(err)
	defer es.stop()
	quiet()
	a, wg, err := newRealAuditor(es.addr)
	fatal(err)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	c.Active("audit shutdown", kase)
	go func() { a.StartSender(ctx); wg.Wait(); close(done) }()
	var before sync.Map
	var cancelled atomic.Bool
	var pw sync.WaitGroup
	var late atomic.Int64
	for p := 0; p < producers; p++ {
		pw.Add(1)
		go func() {
			defer pw.Done()
			for i := 0; i < n/producers+1; i++ {
				id := fmt.Sprintf("%d-%d", p, i)
				a.Store(pctx(), audit.Entry{ID: id, Queue: "q", Signal: audit.ACK})
				if !cancelled.Load() {
					before.Store(id, true)
				} else {
					late.Add(1)
				}
			}
		}()
	}
	if r.IntN(2) == 0 {
		pw.Wait()
	} else {
		time.Sleep(time.Duration(r.IntN(600)) * time.Microsecond)
	}
	cancelled.Store(true)
	cancel()
	pw.Wait()
	<-done
	a.Store(pctx(), audit.Entry{ID: "after", Queue: "q", Signal: audit.ACK}) // neither panics nor blocks
	c.Active("", nil)
	acc, failed, bad := es.delivered(func(e *esEntry) string { return e.ID })
	c.Eval(1)
	c.Count("shutdowns of the sender", 1)
	c.Count("entries stored after the signal", late.Load())
	for k, v := range acc {
		if v > 1 {
			c.Violation("audit-shutdown-twice", kase, "entry %s was accepted %d times", k, v)
			return
		}
	}
	before.Range(func(k, _ any) bool {
		if acc[k.(string)]+failed[k.(string)] == 0 {
			c.Violation("audit-shutdown-lost", kase, "entry %v was stored before the shutdown began and never sent", k)
			return false
		}
		return true
	})
	if len(bad) > 0 {
		c.Violation("audit-format", kase, "malformed bulk request: %s", bad[0])
	}
	c.Distinct(fmt.Sprint("shutdown", n, producers, len(es.reqs)))
}

// auditStall stores more than the service buffers while the audit store does not answer.
func auditStall(c *vk.Ctx, r *rand.Rand) {
	clockMs.Store(0)
	producers, each := 2+r.IntN(6), 1500+r.IntN(2500)
	kase := map[string]any{"stall": true, "producers": producers, "each": each}
	es, err := startES(nil)
	fatal(err)
	defer es.stop()
	es.gate = make(chan struct{})
	quiet()
	a, wg, err := newRealAuditor(es.addr)
	fatal(err)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan struct{})
	c.Active("audit store not answering", kase)
	defer c.Active("", nil)
	go func() { a.StartSender(ctx); wg.Wait(); close(done) }()
	var n atomic.Int64
	stored := make(chan struct{})
	go func() {
		var pw sync.WaitGroup
		for p := 0; p < producers; p++ {
			pw.Add(1)
			go func() {
				defer pw.Done()
				for i := 0; i < each; i++ {
					a.Store(pctx(), audit.Entry{ID: fmt.Sprintf("%d-%d", p, i), Queue: "q", Signal: audit.ACK})
					n.Add(1)
				}
			}()
		}
		pw.Wait()
		close(stored)
	}()
	// until all are stored, or the producers wait
	for last, still := int64(-1), 0; still < 20; time.Sleep(2 * time.Millisecond) {
		if x := n.Load(); x != last {
			last, still = x, 0
		} else {
			still++
		}
	}
	c.Max("entries stored while the audit store did not answer", n.Load())
	close(es.gate)
	<-stored
	if r.IntN(2) == 0 {
		time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
	}
	cancel()
	<-done
	acc, _, bad := es.delivered(func(e *esEntry) string { return e.ID })
	c.Eval(1)
	c.Count("audit stores that stopped answering for a while", 1)
	for p := 0; p < producers; p++ {
		for i := 0; i < each; i++ {
			if k := fmt.Sprintf("%d-%d", p, i); acc[k] != 1 {
				c.Violation("audit-stall", kase, "%d producers stored %d entries each, the audit store answering late but every time: it accepted entry %s %d times", producers, each, k, acc[k])
				return
			}
		}
	}
	if len(bad) > 0 {
		c.Violation("audit-format", kase, "malformed bulk request: %s", bad[0])
	}
	c.Distinct(fmt.Sprint("stall", producers, each, len(es.reqs)))
}

func auditScript(r *rand.Rand) (s []int) {
	if r.IntN(3) > 0 {
		return nil
	}
	for i := 0; i < 12; i++ {
		s = append(s, pick(r, ansOK, ansOK, ans400, ans500, ans503, ans429, ansDrop, ansSlow, ansOKClose))
	}
	return
}

func init() {
	p := &profile{name: "C19", w: with(baseWeights, map[string]int{"ttl": 6, "timeout": 8, "unlock": 8, "exceed": 4, "edit": 4, "wipe": 1, "recover": 2, "remove": 8}), names: "mixed", locks: 40, rm: 15, bounds: 5, ttl: 30, update: 20, queues: 4, ids: 12, kinds: kindMix, steps: 300}
	var cur *auditEnv
	set := func() {
		env = traceEnv{
			aux: auditScript,
			open: func(tc *traceCase) (w *world, err error) {
				w, cur, err = openAudited(tc.Aux, tc.Kind)
				return
			},
			post: func(c *vk.Ctx, e *engine, tc *traceCase) *mismatch {
				cur.finish()
				want, opt := map[string]int{}, map[string]int{}
				for _, v := range e.m.events {
					k := evKey(v.Sig, v.Q, v.ID, v.Reason, v.Lock, v.Sub, v.BP, v.At)
					if v.Optional {
						opt[k]++
					} else {
						want[k]++
					}
				}
				m, n := judgeAudit(cur.es, want, opt)
				c.Count("audit entries matched", n)
				c.Count("bulk requests", int64(len(cur.es.reqs)))
				return m
			},
		}
	}
	vk.Register(&vk.Check{Prop: "C19", Shards: 6, QuickS: 25, ThoroughS: 420,
		Rule:        traceRule + "; concurrent rounds and shutdowns count by size and number of requests",
		Assumptions: append([]string{"the audit store is an HTTP server recording bulk requests; a request it fails or drops may be sent again by the client library"}, backendAssumptions...),
		Run: func(c *vk.Ctx) {
			r := c.Rand(uint64(1900 + c.Shard))
			for n := 0; n < c.N(30, 100000) && !c.Past(0.25); n++ {
				auditShutdown(c, r)
			}
			for n := 0; n < c.N(1, 200); n++ {
				auditStall(c, r)
			}
			for n := 0; n < c.N(20, 100000) && !c.Past(0.5); n++ {
				auditRound(c, pick(r, "mm", "mm", "rg", "rm", "mg"), r.Uint64(), 1+r.IntN(5), 3+r.IntN(30), auditScript(r))
			}
			bubbles(c, "audit", c.N(20, 100000), 0.65)
			set()
			explore(c, "C19", p, c.N(1500, 200000), 1)
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			if replayBubble(c, raw) {
				return
			}
			set()
			replayTrace("C19")(c, raw)
		},
	})
}
