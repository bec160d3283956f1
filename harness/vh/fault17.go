package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sort"
	"sync"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zverif/fakemongo"
	"github.com/takenet/deckard/internal/zverif/fakeredis"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// What a fault does to one backend command.
const (
	fltFail     = 1 + iota // not executed, error reply
	fltDone                // executed, error reply
	fltDropReq             // not executed, connection closed
	fltDropDone            // executed, connection closed
	fltPart                // only the first half of a batch is executed (MongoDB)
	fltCrash               // this and every later command of the attempt fails, then the service is restarted
	fltDown                // this and every later command of the attempt fails
	fltGone                // the client abandons the call; a command that notices is not executed
	fltGoneDone            // the client abandons the call; the command is executed
)

var fltName = []string{"", "refused", "executed but answered with an error", "connection lost before execution", "connection lost after execution", "half executed", "crash and restart", "backend down", "call abandoned by the client before execution", "call abandoned by the client at execution"}

// Fault strikes the At-th backend command of one attempt of an operation.
type Fault struct{ At, Do int }

// faults is armed during one attempt.
type faults struct {
	mu    sync.Mutex
	n     int
	plan  []Fault
	fired []int
	log   []int // of all attempts since the last look
	armed bool

	// the call under way: its client's context
	ctx    context.Context
	cancel context.CancelFunc
}

func (f *faults) arm(p []Fault) {
	f.mu.Lock()
	f.n, f.plan, f.fired, f.armed = 0, p, nil, true
	f.ctx, f.cancel = context.WithCancel(pctx())
	f.mu.Unlock()
}

func (f *faults) disarm() []int {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.armed = false
	if f.cancel != nil {
		f.cancel()
	}
	f.ctx, f.cancel = nil, nil
	return f.fired
}

func (f *faults) next() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	if !f.armed {
		return 0
	}
	i := f.n
	f.n++
	for _, p := range f.plan {
		if p.At == i || p.At < i && (p.Do == fltCrash || p.Do == fltDown) {
			f.fired, f.log = append(f.fired, p.Do), append(f.log, p.Do)
			if p.Do >= fltGone {
				f.cancel()
				time.Sleep(200 * time.Microsecond) // let the driver notice
			}
			return p.Do
		}
	}
	return 0
}

// client is the context of the call under way.
func (f *faults) client(c context.Context) context.Context {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.ctx != nil {
		return f.ctx
	}
	return c
}

// abandoned: the client does not learn the answer.
func abandoned(fired []int) bool {
	for _, d := range fired {
		if d >= fltGone {
			return true
		}
	}
	return false
}

func (f *faults) install(w *world) {
	if w.redis != nil {
		w.redis.SetFault(func(*fakeredis.Command) fakeredis.Action {
			switch f.next() {
			case fltFail, fltCrash, fltDown:
				return fakeredis.FailErr
			case fltDone, fltPart:
				return fakeredis.DoneErr
			case fltDropReq:
				return fakeredis.DropReq
			case fltDropDone:
				return fakeredis.DropDone
			}
			return fakeredis.Pass
		})
	}
	if w.mongo != nil {
		w.mongo.SetFault(func(*fakemongo.Command) fakemongo.Action {
			switch f.next() {
			case fltFail, fltCrash, fltDown, fltDropReq, fltGone:
				return fakemongo.FailErr
			case fltDone, fltDropDone:
				return fakemongo.DoneErr
			case fltPart:
				return fakemongo.PartErr
			}
			return fakemongo.Pass
		})
	}
}

// dropped: the driver may have sent the command again by itself.
func dropped(w *world, fired []int) bool {
	for _, d := range fired {
		if d == fltDropReq || d == fltDropDone {
			return true
		}
	}
	return false
}

func crashed(fired []int) bool {
	for _, d := range fired {
		if d == fltCrash {
			return true
		}
	}
	return false
}

// restart replaces the service by a new instance on the same back ends.
func (w *world) restart() error {
	o := w.opts
	o.aud, o.redis, o.mongo, o.lag = w.aud, w.redis, w.mongo, w.lag
	n, err := newWorld(o)
	if err != nil {
		return err
	}
	w.closers = append(w.closers, n.closers...)
	n.closers = nil
	w.st, w.ca, w.cfg, w.q, w.svc, w.api = n.st, n.ca, n.cfg, n.q, n.svc, n.svc
	return nil
}

func (e *engine) restart() error {
	if err := e.w.restart(); err != nil {
		return err
	}
	e.inner = e.w.api
	e.w.api = faultAPI{e}
	return nil
}

// fx is the fault state of an engine.
type fx struct {
	f       faults
	plans   [][]Fault // of the current operation, one per attempt
	failed  int       // attempts of the current operation that returned an error
	again   int       // attempts, failed or not, whose command a driver may have repeated
	total   int64     // faults that struck in this history
	ghosts  bool      // removed messages may linger in the cache
	bug     *mismatch
	restart int64
	hit     map[string]bool
}

// call runs one API call with its faults, and once more without when it failed, as a client would.
func (e *engine) call(name string, f func(a api) error) error {
	x := e.fx
	if x == nil || x.plans == nil {
		return f(e.inner)
	}
	plans := x.plans
	x.plans = nil
	for _, p := range plans {
		x.f.arm(p)
		err := f(e.inner)
		fired := x.f.disarm()
		e.struck(name, p, fired)
		if dropped(e.w, fired) {
			x.again++
		}
		if abandoned(fired) {
			e.obs("calls abandoned by the client", 1)
			if err == nil {
				err = context.Canceled
			}
		}
		if err == nil {
			if crashed(fired) {
				if err := e.restart(); err != nil {
					return err
				}
				x.restart++
			}
			e.obs("calls that succeeded in spite of a fault", int64(min(len(fired), 1)))
			return nil
		}
		if len(fired) == 0 {
			return err
		}
		x.failed++
		e.obs("failures reported to the client", 1)
		if crashed(fired) {
			if err := e.restart(); err != nil {
				return err
			}
			x.restart++
		}
	}
	return f(e.inner)
}

func (e *engine) struck(name string, p []Fault, fired []int) {
	if len(fired) == 0 {
		return
	}
	e.fx.total++
	for _, f := range p {
		e.fx.hit[fmt.Sprintf("%s %s %d %s", e.w.kind, name, f.At, fltName[f.Do])] = true
	}
	e.obs("attempts struck by a fault", 1)
}

// unsure says that the last call may have taken effect more than once.
func (e *engine) unsure() bool { return e.fx != nil && (e.fx.failed > 0 || e.fx.again > 0) }

// faultAPI routes an engine's calls through its faults.
type faultAPI struct{ e *engine }

func viaFaults[T any](a faultAPI, name string, f func(api) (T, error)) (r T, err error) {
	err = a.e.call(name, func(x api) (e error) { r, e = f(x); return })
	return
}

func (a faultAPI) Add(c context.Context, r *deckard.AddRequest) (*deckard.AddResponse, error) {
	return viaFaults(a, "add", func(x api) (*deckard.AddResponse, error) { return x.Add(a.e.fx.f.client(c), r) })
}
func (a faultAPI) Pull(c context.Context, r *deckard.PullRequest) (*deckard.PullResponse, error) {
	return viaFaults(a, "pull", func(x api) (*deckard.PullResponse, error) { return x.Pull(a.e.fx.f.client(c), r) })
}
func (a faultAPI) Ack(c context.Context, r *deckard.AckRequest) (*deckard.AckResponse, error) {
	return viaFaults(a, "ack", func(x api) (*deckard.AckResponse, error) { return x.Ack(a.e.fx.f.client(c), r) })
}
func (a faultAPI) Nack(c context.Context, r *deckard.AckRequest) (*deckard.AckResponse, error) {
	return viaFaults(a, "nack", func(x api) (*deckard.AckResponse, error) { return x.Nack(a.e.fx.f.client(c), r) })
}
func (a faultAPI) Count(c context.Context, r *deckard.CountRequest) (*deckard.CountResponse, error) {
	return viaFaults(a, "count", func(x api) (*deckard.CountResponse, error) { return x.Count(a.e.fx.f.client(c), r) })
}
func (a faultAPI) Remove(c context.Context, r *deckard.RemoveRequest) (*deckard.RemoveResponse, error) {
	return viaFaults(a, "remove", func(x api) (*deckard.RemoveResponse, error) { return x.Remove(a.e.fx.f.client(c), r) })
}
func (a faultAPI) Flush(c context.Context, r *deckard.FlushRequest) (*deckard.FlushResponse, error) {
	return viaFaults(a, "flush", func(x api) (*deckard.FlushResponse, error) { return x.Flush(a.e.fx.f.client(c), r) })
}
func (a faultAPI) GetById(c context.Context, r *deckard.GetByIdRequest) (*deckard.GetByIdResponse, error) {
	return viaFaults(a, "get", func(x api) (*deckard.GetByIdResponse, error) { return x.GetById(a.e.fx.f.client(c), r) })
}
func (a faultAPI) EditQueue(c context.Context, r *deckard.EditQueueRequest) (*deckard.EditQueueResponse, error) {
	return viaFaults(a, "edit", func(x api) (*deckard.EditQueueResponse, error) { return x.EditQueue(a.e.fx.f.client(c), r) })
}
func (a faultAPI) GetQueue(c context.Context, r *deckard.GetQueueRequest) (*deckard.GetQueueResponse, error) {
	return viaFaults(a, "getq", func(x api) (*deckard.GetQueueResponse, error) { return x.GetQueue(a.e.fx.f.client(c), r) })
}

// before prepares the faults of an operation; housekeeping fails here and is repeated by the operation itself.
func (e *engine) before(op *Op) *mismatch {
	x := e.fx
	x.plans, x.failed, x.again = nil, 0, 0
	if len(op.Faults) == 0 {
		return nil
	}
	switch op.K {
	case "pull":
		return e.faultyPull(op)
	case "timeout", "unlock", "ttl", "exceed", "recover", "metrics":
		if op.K == "exceed" && !e.exceedSafe() {
			return nil
		}
		any := false
		for _, p := range op.Faults {
			x.f.arm(p)
			e.house(op.K)
			fired := x.f.disarm()
			e.struck(op.K, p, fired)
			any = any || len(fired) > 0
			if crashed(fired) {
				fatal(e.restart())
				x.restart++
			}
		}
		if any && (op.K == "ttl" || op.K == "exceed") {
			x.ghosts = true
		}
	case "adv", "wipe":
	default:
		x.plans = op.Faults
	}
	return nil
}

func (e *engine) house(k string) {
	switch k {
	case "timeout":
		_ = queue.ProcessTimeoutMessages(pctx(), e.w.q)
	case "unlock":
		queue.ProcessLockPool(pctx(), e.w.q)
	case "ttl":
		now := dtime.Now()
		_, _ = queue.RemoveTTLMessages(pctx(), e.w.q, &now)
	case "exceed":
		_, _ = queue.RemoveExceedingMessages(pctx(), e.w.q)
	case "recover":
		queue.RecoveryMessagesPool(pctx(), e.w.q)
	case "metrics":
		queue.ComputeMetrics(pctx(), e.w.q)
	}
}

// faultyPull executes a pull that may fail, then finds out which messages it took by
// pulling everything else: taken messages must come back at their deadline.
func (e *engine) faultyPull(op *Op) *mismatch {
	x := e.fx
	now := vnow()
	if e.pullAmbiguous(op) {
		op.Faults = nil
		return nil
	}
	cand := e.candidates(op)
	inC := map[key]*msg{}
	for _, m := range cand {
		inC[m.key] = m
	}
	dl := min(max(op.DL, -1), 1<<53)
	if dl == 0 {
		dl = 300000
	}
	seen := map[key]bool{}
	judge := func(r *deckard.Message, within map[key]*msg) *mismatch {
		k := key{r.Queue, r.Id}
		m := e.m.ms[k]
		switch {
		case m == nil || !m.inStore:
			return mm("unknown", nil, []string{"C17"}, "after a failure a pull from %q returned %q, which does not exist", op.Q, r.Id)
		case seen[k]:
			return mm("twice", nil, []string{"C17"}, "after a failure %q of %q was delivered twice before its deadline", r.Id, r.Queue)
		case m.pool != pAvail:
			return mm("not-available", m.susp, []string{"C17"}, "after a failure %q of %q was delivered although it is %s until %d", r.Id, r.Queue, poolName[m.pool], m.due)
		case within != nil && within[k] == nil:
			return mm("out-of-bounds", nil, []string{"C17"}, "%q of %q was delivered outside the bounds", r.Id, r.Queue)
		}
		if bad := e.content(m, r, false); bad != "" {
			return mm("content", m.susp, []string{"C17"}, "pull of %q from %q: %s", r.Id, r.Queue, bad)
		}
		seen[k] = true
		return nil
	}
	limit, struck, clean := 0, false, false
	for i := 0; i <= len(op.Faults) && !clean; i++ {
		var p []Fault
		if i < len(op.Faults) {
			p = op.Faults[i]
		}
		x.f.arm(p)
		resp, err := e.w.base().Pull(x.f.client(pctx()), &deckard.PullRequest{Queue: op.Q, Amount: op.N, MinScore: float64(op.Min), MaxScore: float64(op.Max), ScoreFilter: op.Filter, AckDeadlineMs: op.DL})
		fired := x.f.disarm()
		e.struck("pull", p, fired)
		struck = struck || len(fired) > 0
		limit += amountOf(op.N)
		if dropped(e.w, fired) {
			limit += 5 * amountOf(op.N)
		}
		if crashed(fired) {
			fatal(e.restart())
			x.restart++
		}
		if err == nil && abandoned(fired) {
			err = context.Canceled
		}
		if err != nil {
			if len(fired) == 0 {
				return mm("pull-error", nil, []string{"C17"}, "pull of %d from %q failed although the back ends work again: %v", op.N, op.Q, err)
			}
			e.obs("failures reported to the client", 1)
			continue
		}
		clean = true
		for _, r := range resp.Messages {
			if m := judge(r, inC); m != nil {
				return m
			}
		}
		if len(resp.Messages) > amountOf(op.N) {
			return mm("too-many", nil, []string{"C17"}, "pull of %d returned %d messages", op.N, len(resp.Messages))
		}
		// success: nothing may be missing that was there to deliver
		if n := len(resp.Messages); !dropped(e.w, fired) && i == 0 && n < min(amountOf(op.N), e.liveIn(cand, amountOf(op.N))) {
			return mm("false-success", nil, []string{"C17"}, "pull of %d from %q succeeded with %d messages although a command failed and %d were there", op.N, op.Q, n, e.liveIn(cand, amountOf(op.N)))
		}
		for k := range seen {
			e.m.ms[k].pool, e.m.ms[k].due = pFlight, now+dl
		}
	}
	op0 := *op
	_ = op0
	// take the rest
	rest := map[key]bool{}
	for {
		resp, err := e.w.base().Pull(pctx(), &deckard.PullRequest{Queue: op.Q, Amount: 1000, AckDeadlineMs: 3600000})
		if err != nil {
			return mm("pull-error", nil, []string{"C17"}, "pull from %q failed although the back ends work again: %v", op.Q, err)
		}
		if len(resp.Messages) == 0 {
			break
		}
		for _, r := range resp.Messages {
			if m := judge(r, nil); m != nil {
				return m
			}
			rest[key{r.Queue, r.Id}] = true
		}
	}
	taken := 0
	for _, m := range e.m.inPool(op.Q, pAvail) {
		if rest[m.key] {
			m.pool, m.due = pFlight, now+3600000
			continue
		}
		if e.m.hidden(m) || !m.inStore { // dropped as missing
			m.pool = pNone
			e.m.drop(m)
			continue
		}
		taken++
		if inC[m.key] == nil {
			return mm("taken-outside", m.susp, []string{"C17"}, "a failed pull of %d from %q (bounds %v..%v) took or lost %q, which it could not select", op.N, op.Q, op.Min, op.Max, m.id)
		}
		m.pool, m.due = pFlight, now+dl
	}
	if taken > limit || !struck && taken > 0 {
		return mm("taken-too-many", nil, []string{"C17"}, "failed pulls of %d from %q took or lost %d messages", op.N, op.Q, taken)
	}
	e.obs("pulls resolved after a failure", 1)
	e.obs("messages taken by failed pulls", int64(taken))
	op.K = "pulled"
	return nil
}

// liveIn counts the deliverable ones of the best n candidates.
func (e *engine) liveIn(cand []*msg, n int) (k int) {
	for _, m := range cand[:min(n, len(cand))] {
		if m.inStore && !e.m.hidden(m) {
			k++
		}
	}
	return
}

func (w *world) base() api {
	if f, ok := w.api.(faultAPI); ok {
		return f.e.inner
	}
	return w.api
}

// setDrain compares the set of messages still delivered with the live ones.
func (e *engine) setDrain(prop string) *mismatch {
	clockMs.Add(7200_000)
	live := map[key]bool{}
	qs := map[string]bool{}
	var far int64
	for _, x := range e.m.all() {
		qs[x.q] = true
		if x.inStore && x.pool != pNone {
			live[x.key] = true
		}
		if x.pool >= pFlight && x.due < vnow()+10*365*86400000 {
			far = max(far, x.due)
		}
	}
	if d := far - vnow(); d > 0 {
		clockMs.Add(d + 1)
	}
	for i := e.runs(vnow(), pFlight, pLockA, pLockN); i >= 0; i-- {
		_ = queue.ProcessTimeoutMessages(pctx(), e.w.q)
		queue.ProcessLockPool(pctx(), e.w.q)
	}
	got := map[key]bool{}
	names := make([]string, 0, len(qs))
	for q := range qs {
		names = append(names, q)
	}
	sort.Strings(names)
	for _, q := range names {
		for i := 0; i < 50; i++ {
			resp, err := e.w.base().Pull(pctx(), &deckard.PullRequest{Queue: q, Amount: 1000, AckDeadlineMs: 1 << 40})
			if err != nil {
				return mm("drain-error", nil, []string{prop}, "pull from %q failed although the back ends work again: %v", q, err)
			}
			if len(resp.Messages) == 0 {
				break
			}
			for _, r := range resp.Messages {
				k := key{r.Queue, r.Id}
				if got[k] {
					return mm("drain-twice", nil, []string{prop}, "%q of %q was delivered twice at the end", r.Id, r.Queue)
				}
				got[k] = true
				if m := e.m.ms[k]; m == nil || !m.inStore {
					return mm("drain-removed", nil, []string{prop}, "%q of %q was delivered at the end although it does not exist", r.Id, r.Queue)
				}
			}
		}
	}
	for k := range live {
		m := e.m.ms[k]
		if !got[k] && !e.m.hidden(m) && !(m.pool >= pFlight && m.due > vnow()) {
			return mm("drain-lost", m.susp, []string{prop}, "%q of %q is in storage but is never delivered (was %s)", k.id, k.q, poolName[m.pool])
		}
	}
	e.obs("drains by sets", 1)
	return nil
}

var fltKinds = []string{"rm", "mg", "rg", "cg", "rg"}

// drawFaults decorates an operation with failures of its first attempts.
func drawFaults(r *rand.Rand, kind string, op *Op, pct int) {
	if r.IntN(100) >= pct {
		return
	}
	attempts := 1
	if r.IntN(4) == 0 {
		attempts = 2 + r.IntN(2)
	}
	for i := 0; i < attempts; i++ {
		var p []Fault
		for n := 1 + r.IntN(5)/4; n > 0; n-- {
			f := Fault{At: r.IntN(4), Do: pick(r, fltFail, fltFail, fltDone, fltDone, fltPart, fltDown)}
			if r.IntN(6) == 0 {
				f.At = r.IntN(12)
			}
			if r.IntN(12) == 0 && kind[0] != 'm' {
				f.Do = pick(r, fltDropReq, fltDropDone)
			}
			if r.IntN(12) == 0 && kind[1] == 'g' && kind[0] != 'm' {
				f.Do = fltCrash
			}
			if r.IntN(5) == 0 && !housekeeping[op.K] {
				f.Do = pick(r, fltGone, fltGoneDone)
			}
			p = append(p, f)
		}
		op.Faults = append(op.Faults, p)
	}
}

var housekeeping = map[string]bool{"timeout": true, "unlock": true, "ttl": true, "exceed": true, "recover": true, "metrics": true}

// faultTrace runs a history with faults; without set, only what also fails without faults is told apart.
func stripFaults(tc *traceCase) *traceCase {
	t := *tc
	t.Ops = append([]Op(nil), tc.Ops...)
	for i := range t.Ops {
		t.Ops[i].Faults = nil
		if t.Ops[i].K == "pulled" {
			t.Ops[i].K = "pull"
		}
	}
	return &t
}

func faultHooks(e *engine) {
	e.inner = e.w.api
	e.fx = &fx{hit: map[string]bool{}}
	e.fx.f.install(e.w)
	e.w.api = faultAPI{e}
}

// runFaulty executes a faulted history; a contradiction that also appears without the faults is not C17's.
func runFaulty(c *vk.Ctx, tc *traceCase, prop string) *mismatch {
	e, m, err := runTrace(c, tc, nil, faultHooks)
	fatal(err)
	return ownFault(c, tc, e, m, prop)
}

func ownFault(c *vk.Ctx, tc *traceCase, e *engine, m *mismatch, prop string) *mismatch {
	if m == nil {
		return nil
	}
	if e.fx.total == 0 {
		return nil
	}
	if !m.props[prop] {
		if _, m2, err := runTrace(c, stripFaults(tc), nil, nil); err == nil && m2 != nil {
			return nil
		}
		m.props[prop] = true
	}
	return m
}

func faultOps(tc *traceCase) []Op {
	ops := append([]Op(nil), tc.Ops...)
	for i := range ops {
		if ops[i].K == "pulled" {
			ops[i].K = "pull"
		}
	}
	return ops
}

// enumerate strikes every backend command of one operation in turn with every kind of fault.
func enumerate(c *vk.Ctx, prop, kind, note string, before []Op, op Op, after []Op, hits map[string]bool) {
	if op.K == "ttl" || op.K == "exceed" {
		after = nil // what lingers in the cache is judged as a set
	}
	for do := fltFail; do <= fltGoneDone; do++ {
		if do >= fltGone && housekeeping[op.K] || kind[0] == 'm' && (do == fltDropReq || do == fltDropDone) || kind[1] == 'm' && do == fltPart || do == fltCrash && kind != "rg" && kind != "cg" {
			continue
		}
		for at := 0; at < 60; at++ {
			o := op
			o.Faults = [][]Fault{{{At: at, Do: do}}}
			tc := &traceCase{Kind: kind, Start: clockStart, Note: note, Ops: append(append(append([]Op(nil), before...), o), after...)}
			var m *mismatch
			var e *engine
			ok := c.Guard(note, tc, func() {
				var err error
				e, m, err = runTrace(c, tc, nil, faultHooks)
				fatal(err)
			})
			if !ok {
				return
			}
			c.Eval(1)
			hit := e.fx.total > 0
			for k := range e.fx.hit {
				if !hits[k] {
					hits[k] = true
					c.Distinct(k)
				}
			}
			for k, v := range e.kinds {
				c.Count(k, v)
			}
			tc.Ops = faultOps(tc)
			if m = ownFault(c, tc, e, m, prop); m != nil {
				c.Violation(m.key, tc, "%s on %s back ends, command %d of %s %s: %s", note, kind, at, op.K, fltName[do], m.text)
				return
			}
			if !hit {
				break
			}
			c.Count("fault points enumerated", 1)
		}
	}
}

func fltBase(ttl bool) []Op {
	ops := []Op{}
	for i := 0; i < 8; i++ {
		o := add1("q", fmt.Sprintf("m%d", i), float64(10+i*3), 0, true)
		if ttl && i%2 == 0 {
			o.Msgs[0].Timeless, o.Msgs[0].TTL = false, int64(1+i)
		}
		ops = append(ops, o)
	}
	return append(ops, add1("p::x", "m0", 5, 0, true), add1("p::y", "m9", 6, 0, true), add1("p::y", "m8", 6, 0, true),
		Op{K: "pull", Q: "q", N: 4, DL: 1000}, Op{K: "pull", Q: "p::x", N: 1, DL: 5000},
		Op{K: "ack", Q: "q", IDs: []string{"m0"}, Lock: 500}, Op{K: "nack", Q: "q", IDs: []string{"m1"}, Lock: 700, Score: 4})
}

type fltTarget struct {
	note string
	pre  []Op
	op   Op
	ttl  bool
}

func fltTargets() (l []fltTarget) {
	many := Op{K: "add"}
	for i := 0; i < 5; i++ {
		for _, q := range []string{"q", "p::x", "r"} {
			many.Msgs = append(many.Msgs, Spec{ID: fmt.Sprintf("m%d", 5+i), Q: q, Score: F(3 + i), Timeless: true, SP: "new", Desc: "e"})
		}
	}
	adv := func(n int64) []Op { return []Op{{K: "adv", Adv: n}} }
	bulk, ids := Op{K: "add"}, []string{}
	for i := 0; i < 250; i++ {
		id := fmt.Sprintf("b%d", i)
		bulk.Msgs = append(bulk.Msgs, Spec{ID: id, Q: "q", Score: F(100 + i), Timeless: true})
		ids = append(ids, id)
	}
	short := Op{K: "add", Msgs: append([]Spec(nil), bulk.Msgs...)}
	for i := range short.Msgs {
		short.Msgs[i].Timeless, short.Msgs[i].TTL = false, int64(1+i%3)
	}
	l = []fltTarget{
		{note: "add of 250 messages", op: bulk},
		{note: "remove of 250 messages", pre: []Op{bulk}, op: Op{K: "remove", Q: "q", IDs: ids}},
		{note: "pull of 250 messages", pre: []Op{bulk}, op: Op{K: "pull", Q: "q", N: 250, DL: 900}},
		{note: "timeout of 250 messages", pre: []Op{bulk, {K: "pull", Q: "q", N: 250, DL: 900}, {K: "adv", Adv: 1000}}, op: Op{K: "timeout"}},
		{note: "expiry of 250 messages", pre: []Op{short, {K: "adv", Adv: 400000}}, op: Op{K: "ttl"}, ttl: true},
		{note: "eviction of 250 messages", pre: []Op{bulk, {K: "edit", Q: "q", V: 5}}, op: Op{K: "exceed"}},
		{note: "add of one new message", op: add1("q", "n", 2, 0, true)},
		{note: "add to three queues with updates", op: many},
		{note: "pull", op: Op{K: "pull", Q: "q", N: 2, DL: 900}},
		{note: "pull with a lagging replica", op: Op{K: "pull", Q: "q", N: 4, DL: 900, Lag: 3}},
		{note: "pull with bounds", op: Op{K: "pull", Q: "q", N: 3, Min: 25, Max: 40, DL: 900}},
		{note: "ack", op: Op{K: "ack", Q: "q", IDs: []string{"m2"}, Reason: "r", BP: "b"}},
		{note: "ack with score", op: Op{K: "ack", Q: "q", IDs: []string{"m2"}, Score: 12}},
		{note: "ack with lock", op: Op{K: "ack", Q: "q", IDs: []string{"m3"}, Lock: 300, Score: 3}},
		{note: "ack with removal", op: Op{K: "ack", Q: "q", IDs: []string{"m2"}, Remove: true}},
		{note: "nack", op: Op{K: "nack", Q: "q", IDs: []string{"m2"}, Reason: "r"}},
		{note: "nack with lock", op: Op{K: "nack", Q: "q", IDs: []string{"m3"}, Lock: 300}},
		{note: "nack with removal", op: Op{K: "nack", Q: "q", IDs: []string{"m2"}, Remove: true}},
		{note: "ack of a message that is not in flight", op: Op{K: "ack", Q: "q", IDs: []string{"m7"}}},
		{note: "remove", op: Op{K: "remove", Q: "q", IDs: []string{"m0", "m2", "m5", "zz"}}},
		{note: "count", op: Op{K: "count", Q: "q"}},
		{note: "lookup", op: Op{K: "get", Q: "q", IDs: []string{"m2"}}},
		{note: "edit", pre: []Op{{K: "edit", Q: "q", V: 9}, {K: "getq", Q: "q"}}, op: Op{K: "edit", Q: "q", V: 4}},
		{note: "first edit", pre: []Op{{K: "getq", Q: "q"}}, op: Op{K: "edit", Q: "q", V: 4}},
		{note: "configuration read", pre: []Op{{K: "edit", Q: "q", V: 9}}, op: Op{K: "getq", Q: "q"}},
		{note: "first configuration read", op: Op{K: "getq", Q: "q"}},
		{note: "timeout housekeeping", pre: adv(1000), op: Op{K: "timeout"}},
		{note: "timeout housekeeping of two queues", pre: adv(6000), op: Op{K: "timeout"}},
		{note: "unlock housekeeping", pre: adv(700), op: Op{K: "unlock"}},
		{note: "expiry housekeeping", pre: adv(200000), op: Op{K: "ttl"}, ttl: true},
		{note: "eviction housekeeping", pre: []Op{{K: "edit", Q: "q", V: 5}, {K: "edit", Q: "p::y", V: 1}}, op: Op{K: "exceed"}},
		{note: "metrics task", op: Op{K: "metrics"}},
		{note: "recovery", pre: []Op{{K: "wipe"}, add1("q", "m1", 1, 0, true)}, op: Op{K: "recover"}},
		{note: "recovery of an empty storage", pre: []Op{{K: "remove", Q: "q", IDs: []string{"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"}}, {K: "remove", Q: "p::x", IDs: []string{"m0"}}, {K: "remove", Q: "p::y", IDs: []string{"m8", "m9"}}, {K: "wipe"}}, op: Op{K: "recover"}},
	}
	return
}

func fltAfter() []Op {
	return []Op{{K: "getq", Q: "q"}, {K: "count", Q: "q"}, {K: "get", Q: "q", IDs: []string{"m2"}}, {K: "pull", Q: "q", N: 3, DL: 100}, {K: "nack", Q: "q", IDs: []string{"m4"}}, {K: "adv", Adv: 800}, {K: "unlock"}, {K: "timeout"}, {K: "pull", Q: "q", N: 1}}
}

func exploreFaults(c *vk.Ctx, prop string, p *profile, n int, frac float64) {
	for i := c.Shard; i < n && !c.Past(frac); i += max(c.Shards, 1) {
		r := c.Rand(vk.Hash(p.name)%1000003 + uint64(i)*1000003)
		kind := p.kinds[i/max(c.Shards, 1)%len(p.kinds)]
		pp := *p
		if kind[1] == 'm' {
			pp.ttl = 0
		}
		tc := &traceCase{Kind: kind, Start: clockStart + r.Int64N(1000000)}
		steps := p.steps/2 + r.IntN(p.steps)
		pct := 5 + r.IntN(30)
		var g *gen
		k := 0
		var e *engine
		var m *mismatch
		ok := c.Guard("faulted history on "+kind, tc, func() {
			var err error
			e, m, err = runTrace(c, tc, func(e *engine) (Op, bool) {
				if g == nil {
					g = newGen(r, &pp, e, kind)
				}
				k++
				if k > steps || e.fx.ghosts {
					return Op{}, false
				}
				if k%5 == 0 {
					c.Distinct(kind + e.signature())
				}
				op := g.op()
				drawFaults(r, kind, &op, pct)
				return op, true
			}, faultHooks)
			fatal(err)
		})
		if !ok {
			return
		}
		c.Eval(1)
		c.Count("faulted histories on "+kind, 1)
		c.Count("operations", int64(len(tc.Ops)))
		c.Count("restarts", e.fx.restart)
		for k, v := range e.kinds {
			c.Count(k, v)
		}
		if i < 3 {
			c.Sample(map[string]any{"back ends": kind, "operations": brief(tc.Ops, 8)})
		}
		if m == nil {
			continue
		}
		tc.Ops = faultOps(tc)
		if m = ownFault(c, tc, e, m, prop); m == nil {
			c.Note("a history was cut short at an observation that does not depend on the faults")
			continue
		}
		c.Violation(m.key, tc, "on %s back ends, after %d failures: %s", kind, e.fx.total, m.text)
		return
	}
}

func init() {
	p := &profile{name: "C17", w: with(baseWeights, map[string]int{"timeout": 8, "unlock": 8, "exceed": 3, "edit": 4, "getq": 4, "remove": 8, "wipe": 1, "recover": 2, "ttl": 1}), names: "mixed", locks: 40, rm: 15, bounds: 20, ttl: 15, update: 25, queues: 3, ids: 10, kinds: fltKinds, steps: 80}
	vk.Register(&vk.Check{Prop: "C17", Shards: 8, QuickS: 40, ThoroughS: 600,
		Rule:        "a distinct non-trivial case is a (back ends, call, command index, kind of fault) that struck, or a distinct abstract state of a history with failures",
		Assumptions: append([]string{"a failed call is repeated by its client until it succeeds, at the same virtual time"}, backendAssumptions...),
		Run: func(c *vk.Ctx) {
			hits := map[string]bool{}
			replyDocs = 100
			if c.Shard == 0 {
				primaryLost(c, "C17")
			}
			for i, kind := range []string{"rm", "rg", "cg"} {
				for _, bc := range bulkFaults(kind, i) {
					if bc.I%max(c.Shards, 1) == c.Shard && !c.Violated() {
						bc.run(c)
					}
				}
			}
			i := 0
			for _, t := range fltTargets() {
				for _, kind := range []string{"rm", "mg", "rg", "cg"} {
					i++
					if i%max(c.Shards, 1) != c.Shard || t.ttl && kind == "rm" {
						continue
					}
					enumerate(c, "C17", kind, t.note, append(fltBase(t.ttl), t.pre...), t.op, fltAfter(), hits)
					if c.Violated() {
						return
					}
				}
			}
			exploreFaults(c, "C17", p, c.N(8000, 400000), 1)
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			replyDocs = 100
			var bc bulkFault
			if json.Unmarshal(raw, &bc) == nil && bc.Bulk > 0 {
				bc.run(c)
				return
			}
			var tc traceCase
			fatal(json.Unmarshal(raw, &tc))
			c.Guard("faulted history on "+tc.Kind, &tc, func() {
				if m := runFaulty(c, &tc, "C17"); m != nil {
					c.Violation(m.key, &tc, "on %s back ends: %s", tc.Kind, m.text)
				}
			})
		},
	})
}

// ackedTwice lets the ack counters of a message whose ack was repeated exceed by the number of repetitions.
func (e *engine) ackedTwice(x *msg) *mismatch {
	if x == nil || !x.inStore {
		return nil
	}
	l, err := e.w.st.Find(pctx(), &storage.FindOptions{Limit: 1, Retry: true, InternalFilter: &storage.InternalFilter{Ids: &[]string{x.id}, Queue: x.q}})
	if err != nil {
		return mm("find-error", nil, []string{"C17"}, "lookup failed although the back ends work again: %v", err)
	}
	if len(l) == 0 {
		return nil
	}
	d := l[0].Diagnostics
	if d == nil {
		d = &message.MessageDiagnostics{}
	}
	more := int64(e.fx.failed + 4*e.fx.again)
	ex := func(g *int64, want int64) bool { return val(g) < want || val(g) > want+more }
	if x.cacks > 0 && (ex(d.Acks, x.acks) || ex(d.ConsecutiveAcks, x.cacks)) || x.cnacks > 0 && (ex(d.Nacks, x.nacks) || ex(d.ConsecutiveNacks, x.cnacks)) {
		return mm("acks-counted", nil, []string{"C17"}, "after %d failures of an ack or nack of %q its diagnostics are %d/%d %d/%d, want about %d/%d %d/%d", e.fx.failed, x.id, val(d.Acks), val(d.ConsecutiveAcks), val(d.Nacks), val(d.ConsecutiveNacks), x.acks, x.nacks, x.cacks, x.cnacks)
	}
	if x.cacks > 0 {
		x.acks, x.cacks = val(d.Acks), val(d.ConsecutiveAcks)
	} else {
		x.nacks, x.cnacks = val(d.Nacks), val(d.ConsecutiveNacks)
	}
	return nil
}

func val(p *int64) int64 {
	if p == nil {
		return 0
	}
	return *p
}
