package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zverif/fakemongo"
	"github.com/takenet/deckard/internal/zverif/fakeredis"
	"github.com/takenet/deckard/internal/zverif/vk"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	grpchealth "google.golang.org/grpc/health/grpc_health_v1"
	reflectpb "google.golang.org/grpc/reflection/grpc_reflection_v1"
	"google.golang.org/grpc/status"
)

// C20: the real binary, signals at chosen and at random moments, clients that know what was answered.

// exitLimit is far above the time any shutdown here needs.
const exitLimit = 80 * time.Second

type shutCase struct {
	Mode    string
	Kind    string
	Op      string `json:",omitempty"`
	Seed    uint64
	Signal  int
	Twice   bool              `json:",omitempty"`
	Clients int               `json:",omitempty"`
	After   int               `json:",omitempty"` // answered calls before the signal
	Pause   int               `json:",omitempty"` // microseconds until the signal after that
	Latency int               `json:",omitempty"` // up to so many microseconds per back end command
	At      int               `json:",omitempty"` // command at which a task is held
	Env     map[string]string `json:",omitempty"`
}

// site is everything around one process.
type site struct {
	kind  string
	redis *fakeredis.Cluster
	mongo *fakemongo.Server
	es    *esRec
	env   map[string]string
	dir   string
	shard int
}

func (s *site) close() {
	if s.redis != nil {
		s.redis.Close()
	}
	if s.mongo != nil {
		s.mongo.Close()
	}
	if s.es != nil {
		s.es.stop()
	}
}

func (s *site) latency(f func()) {
	if s.redis != nil {
		s.redis.SetLatency(func(*fakeredis.Command) { f() })
	}
	if s.mongo != nil {
		s.mongo.SetLatency(func(c *fakemongo.Command) {
			switch c.Name {
			case "insert", "update", "delete", "find", "aggregate", "count", "distinct", "findAndModify", "getMore":
				f()
			}
		})
	}
}

func openSite(c *vk.Ctx, kind string, audited bool, extra map[string]string) (*site, error) {
	s := &site{kind: kind, env: map[string]string{}, dir: c.Dir, shard: c.Shard}
	var err error
	if kind[0] != 'm' {
		n := 1
		if kind[0] == 'c' {
			n = 3
		}
		if s.redis, err = fakeredis.Start(n); err != nil {
			return nil, err
		}
		s.env["DECKARD_CACHE_TYPE"] = "REDIS"
		s.env["DECKARD_CACHE_URI"] = patient(s.redis.URI())
		s.env["DECKARD_CACHE_PREFIX"] = "deckard"
		s.env["DECKARD_REDIS_CLUSTER_MODE"] = fmt.Sprint(n > 1)
	}
	if kind[1] == 'g' {
		if s.mongo, err = fakemongo.Start(); err != nil {
			s.close()
			return nil, err
		}
		s.env["DECKARD_STORAGE_TYPE"] = "MONGODB"
		s.env["DECKARD_STORAGE_URI"] = s.mongo.URI()
	}
	if audited {
		if s.es, err = startES(nil); err != nil {
			s.close()
			return nil, err
		}
		s.env["DECKARD_AUDIT_ENABLED"] = "true"
		s.env["DECKARD_ELASTIC_ADDRESS"] = s.es.addr
	}
	for k, v := range extra {
		s.env[k] = v
	}
	return s, nil
}

func fast() map[string]string {
	m := map[string]string{}
	for _, t := range []string{"TIMEOUT", "UNLOCK", "UPDATE", "TTL", "MAX_ELEMENTS", "METRICS"} {
		m["DECKARD_HOUSEKEEPER_TASK_"+t+"_DELAY"] = "15ms"
	}
	return m
}

func shutFail(k, f string, a ...any) *mismatch { return mm(k, nil, []string{"C20"}, f, a...) }

// ended waits for the exit and judges it.
func ended(p *proc, what string) *mismatch {
	if !p.wait(exitLimit) {
		return shutFail("no-exit", "%s: the process was still running %v after the signal; last output: %s", what, exitLimit, p.tail(500))
	}
	if p.err != nil {
		return shutFail("exit-status", "%s: the process ended with %s; last output: %s", what, p.status(), p.tail(700))
	}
	return nil
}

// ---- clients that keep a model of their own queue ----

type shutMsg struct {
	id          string
	stored      bool
	pool        int
	acks, nacks int64
	audit       map[string]int
}

type shutWorker struct {
	q      string
	cl     deckard.DeckardClient
	r      *rand.Rand
	ms     []*shutMsg
	max    int64
	n      int
	failed []string
	bad    *mismatch
}

func (w *shutWorker) in(pool int) (l []*shutMsg) {
	for _, m := range w.ms {
		if m.pool == pool && m.stored {
			l = append(l, m)
		}
	}
	return
}

// step does one call; ok: it was answered with success.
func (w *shutWorker) step(ctx context.Context) (ok bool, err error) {
	r := w.r
	fl, av := w.in(pFlight), w.in(pAvail)
	bad := func(f string, a ...any) {
		if w.bad == nil {
			w.bad = shutFail("wrong-answer", f, a...)
		}
	}
	switch k := r.IntN(12); {
	case k < 4 || len(w.ms) == 0:
		var l []*shutMsg
		req := &deckard.AddRequest{}
		for i := 1 + r.IntN(3); i > 0; i-- {
			w.n++
			m := &shutMsg{id: fmt.Sprintf("%s-%d", w.q, w.n), audit: map[string]int{}}
			l = append(l, m)
			req.Messages = append(req.Messages, &deckard.AddMessage{Id: m.id, Queue: w.q, Timeless: true, Score: float64(r.IntN(100) + 1)})
		}
		w.ms = append(w.ms, l...)
		a, err := w.cl.Add(ctx, req)
		if err != nil {
			w.failed = append(w.failed, fmt.Sprintf("add of %d messages from %q", len(l), l[0].id))
			return false, err
		}
		if a.CreatedCount != int64(len(l)) {
			bad("add of %d new messages answered %v", len(l), a)
		}
		for _, m := range l {
			m.stored, m.pool = true, pAvail
			m.audit["INSERT_CACHE"]++
		}
	case k < 7:
		n := 1 + r.IntN(3)
		a, err := w.cl.Pull(ctx, &deckard.PullRequest{Queue: w.q, Amount: int32(n), AckDeadlineMs: 3600000})
		if err != nil {
			// which messages it took is unknown, but nothing may have been taken
			w.failed = append(w.failed, "pull")
			return false, err
		}
		if len(a.Messages) != min(n, len(av)) {
			bad("pull of %d of %d available messages returned %d", n, len(av), len(a.Messages))
		}
		for _, x := range a.Messages {
			found := false
			for _, m := range av {
				if m.id == x.Id {
					m.pool, found = pFlight, true
				}
			}
			if !found {
				bad("pull returned %q, which was not available", x.Id)
			}
		}
	case k < 10 && len(fl) > 0:
		m := fl[r.IntN(len(fl))]
		req := &deckard.AckRequest{Id: m.id, Queue: w.q, RemoveMessage: r.IntN(5) == 0}
		if r.IntN(3) == 0 {
			req.LockMs = 3600000
		}
		ack := r.IntN(2) == 0
		var a *deckard.AckResponse
		var err error
		sig := "ACK"
		if ack {
			a, err = w.cl.Ack(ctx, req)
		} else {
			sig = "NACK"
			a, err = w.cl.Nack(ctx, req)
		}
		if err != nil {
			w.failed = append(w.failed, strings.ToLower(sig)+" of "+m.id)
			return false, err
		}
		if !a.Success {
			bad("%s of %q in flight answered failure", sig, m.id)
		}
		m.audit[sig]++
		if ack {
			m.acks++
		} else {
			m.nacks++
		}
		m.pool = pAvail
		if req.LockMs > 0 {
			m.pool = pLockA
		}
		if req.RemoveMessage {
			m.stored, m.pool = false, pNone
			m.audit["REMOVE"]++
		}
	case k == 10:
		all := append(fl, av...)
		if len(all) == 0 {
			return true, nil
		}
		m := all[r.IntN(len(all))]
		a, err := w.cl.Remove(ctx, &deckard.RemoveRequest{Queue: w.q, Ids: []string{m.id}})
		if err != nil {
			w.failed = append(w.failed, "remove of "+m.id)
			return false, err
		}
		if a.StorageRemoved != 1 || a.CacheRemoved != 1 {
			bad("remove of %q answered %v", m.id, a)
		}
		m.stored, m.pool = false, pNone
		m.audit["REMOVE"]++
	default:
		v := w.max + 1
		if v < 1000000 {
			v = 1000000
		}
		_, err := w.cl.EditQueue(ctx, &deckard.EditQueueRequest{Queue: w.q, Configuration: &deckard.QueueConfiguration{MaxElements: v}})
		if err != nil {
			w.failed = append(w.failed, "edit")
			return false, err
		}
		w.max = v
	}
	return true, nil
}

// judgeWorkers compares what is left behind with what was answered.
func judgeWorkers(c *vk.Ctx, s *site, ws []*shutWorker) *mismatch {
	for _, w := range ws {
		if w.bad != nil {
			return w.bad
		}
	}
	if s.es != nil {
		got := map[string]int{}
		s.es.mu.Lock()
		for _, r := range s.es.reqs {
			for _, e := range r.entries {
				got[e.Queue+"\x00"+e.ID+"\x00"+string(e.Signal)]++
			}
		}
		s.es.mu.Unlock()
		for _, w := range ws {
			for _, m := range w.ms {
				for _, sig := range []string{"INSERT_CACHE", "ACK", "NACK", "REMOVE"} {
					n := got[w.q+"\x00"+m.id+"\x00"+sig]
					c.Count("audit entries compared", int64(m.audit[sig]))
					if n != m.audit[sig] {
						what := "audit-lost"
						if n > m.audit[sig] {
							what = "executed-unanswered"
						}
						return shutFail(what, "the audit server holds %d entries %s of %q, but %d such calls were answered (calls of this client that failed after the signal: %q)", n, sig, m.id, m.audit[sig], w.failed)
					}
				}
			}
		}
	}
	if s.kind[1] != 'g' && s.kind[0] == 'm' {
		return nil
	}
	clockMs.Store(0)
	nw, err := newWorld(worldOpts{kind: s.kind, prefix: "deckard", redis: s.redis, mongo: s.mongo})
	fatal(err)
	defer nw.close()
	for _, w := range ws {
		if s.kind[1] == 'g' {
			cf, err := nw.st.GetQueueConfiguration(pctx(), w.q)
			fatal(err)
			v := int64(0)
			if cf != nil {
				v = cf.MaxElements
			}
			if v != w.max {
				return shutFail("lost-edit", "the maximum of %q is %d after the exit, want %d (failed calls: %q)", w.q, v, w.max, w.failed)
			}
			for _, m := range w.ms {
				l, err := nw.st.Find(pctx(), &storage.FindOptions{Limit: 1, Retry: true, InternalFilter: &storage.InternalFilter{Ids: &[]string{m.id}, Queue: w.q}})
				fatal(err)
				c.Count("stored messages compared after the exit", 1)
				if (len(l) == 1) != m.stored {
					k := "lost"
					if !m.stored {
						k = "executed-unanswered"
					}
					return shutFail(k, "message %q is stored after the exit: %v, by the answers it should be %v (failed calls: %q)", m.id, len(l) == 1, m.stored, w.failed)
				}
				if m.stored && l[0].Diagnostics != nil && (val(l[0].Diagnostics.Acks) != m.acks || val(l[0].Diagnostics.Nacks) != m.nacks) {
					return shutFail("lost-ack", "message %q has %d acks and %d nacks after the exit, answered were %d and %d (failed calls: %q)", m.id, val(l[0].Diagnostics.Acks), val(l[0].Diagnostics.Nacks), m.acks, m.nacks, w.failed)
				}
			}
		}
		if s.kind[0] != 'm' {
			for _, m := range w.ms {
				is, err := nw.ca.IsProcessing(pctx(), w.q, m.id)
				fatal(err)
				c.Count("cached messages compared after the exit", 1)
				if is != (m.pool == pFlight) {
					return shutFail("lost-cache", "message %q is in flight after the exit: %v, by the answers it is %s (failed calls: %q)", m.id, is, poolName[m.pool], w.failed)
				}
			}
			got := map[string]bool{}
			ids, err := nw.ca.PullMessages(pctx(), w.q, 100000, nil, nil, 3600000)
			fatal(err)
			for _, id := range ids {
				got[id] = true
			}
			for _, m := range w.ms {
				if got[m.id] != (m.pool == pAvail) {
					return shutFail("lost-cache", "message %q is available after the exit: %v, by the answers it is %s (failed calls: %q)", m.id, got[m.id], poolName[m.pool], w.failed)
				}
			}
		}
	}
	return nil
}

// shutTraffic: signals in the middle of traffic.
func shutTraffic(c *vk.Ctx, k *shutCase) *mismatch {
	r := rand.New(rand.NewPCG(k.Seed, 20))
	env := fast()
	// a recovery that overlaps a removal is a listed finding of C04
	env["DECKARD_HOUSEKEEPER_TASK_UPDATE_DELAY"] = "1h"
	for a, b := range k.Env {
		env[a] = b
	}
	s, err := openSite(c, k.Kind, true, env)
	fatal(err)
	defer s.close()
	if k.Latency > 0 {
		var n atomic.Uint64
		s.latency(func() {
			h := (n.Add(1) + k.Seed) * 0x9e3779b97f4a7c15
			time.Sleep(time.Duration(h>>33%uint64(k.Latency)) * time.Microsecond)
		})
	}
	p, err := startProc(c.Shard, s.dir, s.env)
	if err != nil {
		return shutFail("start", "%v", err)
	}
	defer p.kill()
	var answered, sent, after atomic.Int64
	go_ := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	var ws []*shutWorker
	for i := 0; i < k.Clients; i++ {
		conn, err := dialTo(p.port, nil)
		fatal(err)
		defer conn.Close()
		w := &shutWorker{q: fmt.Sprintf("w%d::x", i), cl: deckard.NewDeckardClient(conn), r: rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))}
		ws = append(ws, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for fails := 0; fails < 3 && w.bad == nil; {
				ctx, cancel := within(exitLimit)
				ok, err := w.step(ctx)
				cancel()
				if ok {
					if sent.Load() == 1 {
						after.Add(1)
					}
					if answered.Add(1) == int64(k.After) {
						once.Do(func() { close(go_) })
					}
					continue
				}
				fails++
				switch {
				case sent.Load() == 0:
					w.bad = shutFail("call-failed", "before any signal: %s failed: %v", w.failed[len(w.failed)-1], err)
				case status.Code(err) == codes.DeadlineExceeded:
					w.bad = shutFail("no-answer", "%s got no answer within %v", w.failed[len(w.failed)-1], exitLimit)
				}
				if w.bad != nil {
					once.Do(func() { close(go_) })
				}
			}
		}()
	}
	select {
	case <-go_:
	case <-p.exit:
		return shutFail("died", "the process ended without a signal: %s: %s", p.status(), p.tail(700))
	case <-time.After(exitLimit):
		return shutFail("stuck", "fewer than %d calls were answered within %v", k.After, exitLimit)
	}
	time.Sleep(time.Duration(k.Pause) * time.Microsecond)
	sent.Store(1)
	t0 := time.Now()
	p.signal(syscall.Signal(k.Signal))
	if k.Twice {
		time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
		p.signal(syscall.Signal(k.Signal))
	}
	if m := ended(p, fmt.Sprintf("signal %v after %d calls", syscall.Signal(k.Signal), k.After)); m != nil {
		return m
	}
	c.Max("milliseconds until the exit", p.at.Sub(t0).Milliseconds())
	wg.Wait()
	failed := 0
	for _, w := range ws {
		failed += len(w.failed)
		for _, f := range w.failed {
			c.Distinct(fmt.Sprint(k.Kind, k.Signal, strings.Fields(f)[0], after.Load()))
		}
	}
	c.Count("calls answered", answered.Load())
	c.Count("calls answered after the signal", after.Load())
	c.Count("calls refused after the signal", int64(failed))
	s.latency(func() {})
	return judgeWorkers(c, s, ws)
}

// shutHeld: a call in progress at the signal, held at its first back end command.
func shutHeld(c *vk.Ctx, k *shutCase) *mismatch {
	env := map[string]string{"DECKARD_HOUSEKEEPER_ENABLED": "false"}
	s, err := openSite(c, k.Kind, true, env)
	fatal(err)
	defer s.close()
	p, err := startProc(c.Shard, s.dir, s.env)
	if err != nil {
		return shutFail("start", "%v", err)
	}
	defer p.kill()
	conn, err := dialTo(p.port, nil)
	fatal(err)
	defer conn.Close()
	conn2, err := dialTo(p.port, nil)
	fatal(err)
	defer conn2.Close()
	w := &shutWorker{q: "h::x", cl: deckard.NewDeckardClient(conn)}
	cl2 := deckard.NewDeckardClient(conn2)
	ctx, cancel := within(exitLimit)
	defer cancel()
	add := func(cl deckard.DeckardClient, id string) (*shutMsg, error) {
		m := &shutMsg{id: id, audit: map[string]int{}}
		w.ms = append(w.ms, m)
		_, err := cl.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: id, Queue: w.q, Timeless: true, Score: float64(len(w.ms))}}})
		if err == nil {
			m.stored, m.pool = true, pAvail
			m.audit["INSERT_CACHE"]++
		}
		return m, err
	}
	for i := 0; i < 4; i++ {
		cl := w.cl
		if i == 0 {
			cl = cl2
		}
		if _, err := add(cl, fmt.Sprintf("m%d", i)); err != nil {
			return shutFail("call-failed", "before any signal: add failed: %v", err)
		}
	}
	pr, err := w.cl.Pull(ctx, &deckard.PullRequest{Queue: w.q, Amount: 1, AckDeadlineMs: 3600000})
	if err != nil || len(pr.Messages) != 1 {
		return shutFail("call-failed", "before any signal: pull answered %v, %v", pr, err)
	}
	w.ms[0].pool = pFlight
	// hold the first command
	held, release := make(chan struct{}), make(chan struct{})
	var armed atomic.Bool
	armed.Store(true)
	s.latency(func() {
		if armed.CompareAndSwap(true, false) {
			close(held)
			<-release
		}
	})
	free := sync.OnceFunc(func() { close(release) })
	defer free()
	var callErr error
	var answer any
	done := make(chan struct{})
	go func() {
		defer close(done)
		switch k.Op {
		case "add":
			var m *shutMsg
			m, callErr = add(w.cl, "held")
			answer = m
		case "pull":
			var a *deckard.PullResponse
			a, callErr = w.cl.Pull(ctx, &deckard.PullRequest{Queue: w.q, Amount: 1, AckDeadlineMs: 3600000})
			if callErr == nil {
				answer = len(a.Messages) == 1 && a.Messages[0].Id == "m1"
				w.ms[1].pool = pFlight
			}
		case "ack", "nack":
			f, sig := w.cl.Ack, "ACK"
			if k.Op == "nack" {
				f, sig = w.cl.Nack, "NACK"
			}
			var a *deckard.AckResponse
			a, callErr = f(ctx, &deckard.AckRequest{Id: "m0", Queue: w.q, Reason: "held"})
			if callErr == nil {
				answer = a.Success
				w.ms[0].pool = pAvail
				w.ms[0].audit[sig]++
				if sig == "ACK" {
					w.ms[0].acks++
				} else {
					w.ms[0].nacks++
				}
			}
		case "remove":
			var a *deckard.RemoveResponse
			a, callErr = w.cl.Remove(ctx, &deckard.RemoveRequest{Queue: w.q, Ids: []string{"m2"}})
			if callErr == nil {
				answer = a.CacheRemoved == 1 && a.StorageRemoved == 1
				w.ms[2].stored, w.ms[2].pool = false, pNone
				w.ms[2].audit["REMOVE"]++
			}
		case "count":
			var a *deckard.CountResponse
			a, callErr = w.cl.Count(ctx, &deckard.CountRequest{Queue: w.q})
			if callErr == nil {
				answer = a.Count
			}
		case "get":
			var a *deckard.GetByIdResponse
			a, callErr = w.cl.GetById(ctx, &deckard.GetByIdRequest{Queue: w.q, Id: "m2"})
			answer = callErr == nil && a.Found
		case "edit":
			_, callErr = w.cl.EditQueue(ctx, &deckard.EditQueueRequest{Queue: w.q, Configuration: &deckard.QueueConfiguration{MaxElements: 777777}})
			if callErr == nil {
				w.max = 777777
			}
		}
	}()
	select {
	case <-held:
	case <-done:
		fatal(fmt.Errorf("%s on %s used no back end command", k.Op, k.Kind))
	}
	p.signal(syscall.Signal(k.Signal))
	if k.Twice {
		time.Sleep(2 * time.Millisecond)
		p.signal(syscall.Signal(k.Signal))
	}
	// new connections are refused
	end := time.Now().Add(exitLimit)
	for {
		x, err := net.DialTimeout("tcp", fmt.Sprint("127.0.0.1:", p.port), time.Second)
		if err != nil {
			break
		}
		x.Close()
		if time.Now().After(end) {
			return shutFail("still-accepting", "new connections are still accepted %v after the signal while a call (%s) is in progress", exitLimit, k.Op)
		}
		time.Sleep(5 * time.Millisecond)
	}
	// and so are new calls on a connection there was
	if p.gone() {
		return shutFail("accepted-dropped", "the process ended (%s) while a call (%s) it had accepted was in progress", p.status(), k.Op)
	}
	for i := 0; ; i++ {
		var err error
		if _, err = add(cl2, fmt.Sprintf("late%d", i)); err != nil {
			w.failed = append(w.failed, fmt.Sprintf("add of late%d", i))
			break
		}
		if time.Now().After(end) {
			return shutFail("still-accepting", "new calls on an old connection are still answered %v after the signal while a call (%s) is in progress", exitLimit, k.Op)
		}
		time.Sleep(2 * time.Millisecond)
	}
	time.Sleep(time.Duration(k.Pause) * time.Microsecond)
	select {
	case <-done:
		return shutFail("accepted-dropped", "%s was in progress at the signal and got no normal answer: %v", k.Op, callErr)
	default:
	}
	if p.gone() {
		return shutFail("accepted-dropped", "the process ended (%s) while a call (%s) it had accepted was in progress", p.status(), k.Op)
	}
	free()
	<-done
	c.Count("calls held across the signal", 1)
	c.Distinct(k.Kind + k.Op + fmt.Sprint(k.Signal, k.Twice))
	if callErr != nil {
		return shutFail("accepted-dropped", "%s was in progress at the signal and failed: %v", k.Op, callErr)
	}
	if n, ok := answer.(int64); ok { // adds that were still accepted may count
		answer = n >= 4 && n <= int64(len(w.ms))
	}
	if b, ok := answer.(bool); ok && !b {
		return shutFail("wrong-answer", "%s was in progress at the signal and got another answer than normal", k.Op)
	}
	if m := ended(p, k.Op+" in progress at the signal"); m != nil {
		return m
	}
	return judgeWorkers(c, s, []*shutWorker{w})
}

// shutIdle: an instance with open connections and streams, but no call in progress.
func shutIdle(c *vk.Ctx, k *shutCase) *mismatch {
	env := fast()
	for a, b := range k.Env {
		env[a] = b
	}
	s, err := openSite(c, k.Kind, false, env)
	fatal(err)
	defer s.close()
	var p *proc
	if k.Env["DECKARD_GRPC_ENABLED"] == "false" {
		if p, err = launch(s.dir, shardPort(c.Shard), s.env); err != nil {
			fatal(err)
		}
		// no port tells that it is up, but its housekeeping does
		for i := 0; i < 3000 && !p.gone() && s.redis.Commands() < 20; i++ {
			time.Sleep(10 * time.Millisecond)
		}
		time.Sleep(100 * time.Millisecond)
	} else if p, err = startProc(c.Shard, s.dir, s.env); err != nil {
		return shutFail("start", "%v", err)
	}
	defer p.kill()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var conns []*grpc.ClientConn
	conn := func() *grpc.ClientConn {
		x, err := dialTo(p.port, nil)
		fatal(err)
		conns = append(conns, x)
		return x
	}
	defer func() {
		for _, x := range conns {
			x.Close()
		}
	}()
	switch k.Op {
	case "watch": // a health watch stays open for as long as the client wants
		st, err := grpchealth.NewHealthClient(conn()).Watch(ctx, &grpchealth.HealthCheckRequest{})
		fatal(err)
		if _, err := st.Recv(); err != nil {
			return shutFail("watch", "health watch failed: %v", err)
		}
	case "reflection":
		st, err := reflectpb.NewServerReflectionClient(conn()).ServerReflectionInfo(ctx)
		fatal(err)
		_ = st.Send(&reflectpb.ServerReflectionRequest{MessageRequest: &reflectpb.ServerReflectionRequest_ListServices{}})
		if _, err := st.Recv(); err != nil {
			return shutFail("reflection", "reflection failed: %v", err)
		}
	case "connected":
		for i := 0; i < 5; i++ {
			x, done := within(exitLimit)
			_, err := deckard.NewDeckardClient(conn()).Count(x, &deckard.CountRequest{Queue: "q"})
			done()
			if err != nil {
				return shutFail("call-failed", "before any signal: count failed: %v", err)
			}
		}
		if k.Pause > 0 {
			time.Sleep(time.Duration(k.Pause) * time.Microsecond)
		}
	case "none": // as soon as calls are accepted
	}
	p.signal(syscall.Signal(k.Signal))
	if k.Twice {
		p.signal(syscall.Signal(k.Signal))
	}
	c.Count("instances stopped without a call in progress", 1)
	c.Distinct(k.Kind + k.Op + fmt.Sprint(k.Signal, k.Twice, k.Env))
	return ended(p, "no call in progress, "+k.Op)
}

// shutTask: a background task is held at one of its commands when the signal arrives.
func shutTask(c *vk.Ctx, k *shutCase) *mismatch {
	env := fast()
	for a := range env {
		env[a] = "1h"
	}
	env["DECKARD_HOUSEKEEPER_TASK_"+k.Op+"_DELAY"] = "20ms"
	s, err := openSite(c, k.Kind, true, env)
	fatal(err)
	defer s.close()
	clockMs.Store(0)
	w, err := newWorld(worldOpts{kind: k.Kind, prefix: "deckard", redis: s.redis, mongo: s.mongo})
	fatal(err)
	n := 50
	req := &deckard.AddRequest{}
	for i := 0; i < n; i++ {
		req.Messages = append(req.Messages, &deckard.AddMessage{Id: fmt.Sprint("t", i), Queue: "t::x", Timeless: k.Op != "TTL", Score: float64(i + 1)})
	}
	_, err = w.api.Add(pctx(), req)
	fatal(err)
	switch k.Op {
	case "UPDATE":
		s.redis.Wipe()
	case "TIMEOUT":
		_, err = w.api.Pull(pctx(), &deckard.PullRequest{Queue: "t::x", Amount: int32(n), AckDeadlineMs: 1})
	case "UNLOCK":
		var a *deckard.PullResponse
		if a, err = w.api.Pull(pctx(), &deckard.PullRequest{Queue: "t::x", Amount: int32(n), AckDeadlineMs: 3600000}); err == nil {
			for _, x := range a.Messages {
				_, err = w.api.Ack(pctx(), &deckard.AckRequest{Id: x.Id, Queue: "t::x", LockMs: 1})
			}
		}
	case "MAX_ELEMENTS":
		_, err = w.api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: "t::x", Configuration: &deckard.QueueConfiguration{MaxElements: 10}})
	}
	fatal(err)
	w.close()
	time.Sleep(5 * time.Millisecond)
	held, release := make(chan struct{}), make(chan struct{})
	var up atomic.Bool
	var cnt atomic.Int64
	s.latency(func() {
		if up.Load() && cnt.Add(1) == int64(k.At) {
			close(held)
			<-release
		}
	})
	free := sync.OnceFunc(func() { close(release) })
	defer free()
	p, err := startProc(c.Shard, s.dir, s.env)
	if err != nil {
		return shutFail("start", "%v", err)
	}
	defer p.kill()
	up.Store(true)
	caught := false
	select {
	case <-held:
		caught = true
		c.Count("tasks held across the signal", 1)
		c.Distinct(k.Kind + k.Op + fmt.Sprint(k.At, k.Signal))
	case <-time.After(time.Duration(400+k.Pause/1000) * time.Millisecond): // the task has fewer commands
		up.Store(false)
	}
	p.signal(syscall.Signal(k.Signal))
	time.Sleep(time.Duration(k.Pause) * time.Microsecond)
	free()
	if m := ended(p, "task "+k.Op+" in progress at the signal"); m != nil {
		return m
	}
	s.latency(func() {})
	// a recovery step is finished before the process ends
	if k.Op == "UPDATE" && caught && k.Kind[0] != 'm' {
		if l := s.redis.Zset("deckard:queue:{t::x}"); len(l) != n {
			return shutFail("task-cut", "the recovery step in progress at the signal put only %d of %d messages back into the cache before the process ended", len(l), n)
		}
	}
	// a further instance finds every message
	w, err = newWorld(worldOpts{kind: k.Kind, prefix: "deckard", redis: s.redis, mongo: s.mongo})
	fatal(err)
	defer w.close()
	if k.Op == "TTL" || k.Op == "MAX_ELEMENTS" {
		return nil
	}
	for i := 0; i < 12 && queue.RecoveryMessagesPool(pctx(), w.q); i++ {
	}
	_ = queue.ProcessTimeoutMessages(pctx(), w.q)
	queue.ProcessLockPool(pctx(), w.q)
	a, err := w.api.Pull(pctx(), &deckard.PullRequest{Queue: "t::x", Amount: 1000, AckDeadlineMs: 3600000})
	fatal(err)
	got := map[string]bool{}
	for _, x := range a.Messages {
		got[x.Id] = true
	}
	if len(got) != n || len(a.Messages) != n {
		return shutFail("task-lost", "after a signal during task %s and a restart %d of %d messages can be pulled (%d answers)", k.Op, len(got), n, len(a.Messages))
	}
	return nil
}

func runShut(c *vk.Ctx, k *shutCase) {
	c.Active("shutdown "+k.Mode, nil)
	var m *mismatch
	if !c.Guard("shutdown "+k.Mode, k, func() {
		for i := 0; i < 2; i++ { // the watchdog of this check is the exit limit
			c.Active("", nil)
		}
		switch k.Mode {
		case "traffic":
			m = shutTraffic(c, k)
		case "held":
			m = shutHeld(c, k)
		case "idle":
			m = shutIdle(c, k)
		case "task":
			m = shutTask(c, k)
		}
	}) {
		return
	}
	c.Eval(1)
	c.Count("shutdowns of the real process ("+k.Mode+")", 1)
	if m != nil {
		c.Violation(m.key, k, "%s on %s back ends: %s", k.Mode, k.Kind, m.text)
	}
}

var shutSignals = []int{int(syscall.SIGTERM), int(syscall.SIGINT), int(syscall.SIGQUIT)}

func init() {
	vk.Register(&vk.Check{Prop: "C20", Shards: 6, QuickS: 40, ThoroughS: 600,
		Rule: "a distinct non-trivial case is a (back ends, signal, kind of refused call, number of calls answered after the signal) of a signal in traffic, a (back ends, held call, signal) or a (back ends, held task and command, signal)",
		Assumptions: []string{"Redis, MongoDB and the audit server are in-process protocol servers written for this task; the process under test is the real binary on real connections",
			"OpenTelemetry is replaced by an offline stand-in; the flush of traces is C38's"},
		Run: func(c *vk.Ctx) {
			var fixed []*shutCase
			sig := func() int { return shutSignals[len(fixed)%3] }
			// the slowest first
			for _, op := range []string{"watch", "reflection"} {
				fixed = append(fixed, &shutCase{Mode: "idle", Kind: "mm", Op: op, Signal: sig()})
			}
			// calls that take their time
			for _, op := range []string{"add", "remove", "edit"} {
				fixed = append(fixed, &shutCase{Mode: "held", Kind: "mg", Op: op, Signal: sig(), Pause: 8_000_000})
			}
			for _, kind := range []string{"rg", "mg", "rm", "cg"} {
				for _, op := range []string{"add", "pull", "ack", "nack", "remove", "edit", "count", "get"} {
					if (kind == "rm" || kind == "cg") && (op == "edit" || op == "count" || op == "get") {
						continue
					}
					fixed = append(fixed, &shutCase{Mode: "held", Kind: kind, Op: op, Signal: sig(), Twice: len(fixed)%2 == 0, Pause: 20000})
				}
			}
			for i, kind := range []string{"mm", "rg", "mg", "cm"} {
				for _, op := range []string{"none", "connected", "none"} {
					fixed = append(fixed, &shutCase{Mode: "idle", Kind: kind, Op: op, Signal: sig(), Twice: i == 1, Pause: i % 2 * 50000})
				}
			}
			fixed = append(fixed, &shutCase{Mode: "idle", Kind: "mm", Op: "connected", Signal: sig(), Env: map[string]string{"DECKARD_HOUSEKEEPER_ENABLED": "false"}},
				&shutCase{Mode: "idle", Kind: "rg", Op: "off", Signal: sig(), Env: map[string]string{"DECKARD_GRPC_ENABLED": "false"}},
				&shutCase{Mode: "idle", Kind: "rg", Op: "connected", Signal: sig(), Env: map[string]string{"DECKARD_DEBUG": "true", "DECKARD_LOG_TYPE": "text"}})
			for _, op := range []string{"UPDATE", "TIMEOUT", "UNLOCK", "TTL", "MAX_ELEMENTS"} {
				for at := 1; at <= 7; at += 1 + c.N(1, 0) {
					fixed = append(fixed, &shutCase{Mode: "task", Kind: "rg", Op: op, At: at, Signal: sig(), Pause: 3000})
					if op == "UPDATE" {
						fixed[len(fixed)-1].Pause = 60000
					}
				}
			}
			for i, k := range fixed {
				if i%max(c.Shards, 1) == c.Shard && !c.Violated() {
					runShut(c, k)
				}
			}
			n := c.N(400, 6000)
			for i := c.Shard; i < n && !c.Past(1); i += max(c.Shards, 1) {
				r := c.Rand(20000 + uint64(i))
				k := &shutCase{Mode: "traffic", Kind: pick(r, "rg", "mm", "rg", "mg", "rm", "cg"), Seed: r.Uint64(), Signal: shutSignals[r.IntN(3)], Twice: r.IntN(4) == 0, Clients: 1 + r.IntN(8), After: 1 + r.IntN(250), Pause: r.IntN(3000)}
				if r.IntN(3) > 0 {
					k.Latency = pick(r, 200, 2000, 20000)
					if k.Latency == 20000 {
						k.After = 1 + r.IntN(40)
					}
				}
				if r.IntN(6) == 0 {
					k.Env = map[string]string{"DECKARD_HOUSEKEEPER_ENABLED": "false"}
				}
				runShut(c, k)
				if i < 2 {
					c.Sample(k)
				}
			}
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			var k shutCase
			if err := json.Unmarshal(raw, &k); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			for i := 0; i < 5 && !c.Violated(); i++ {
				runShut(c, &k)
			}
		}})
}
