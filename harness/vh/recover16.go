package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sort"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// tapCache and tapStorage let clients act between any two backend calls of recovery.
type tap struct{ f func(at string) }

func (t *tap) hit(at string) {
	if f := t.f; f != nil {
		t.f = nil // the clients' own calls are not interrupted
		f(at)
		t.f = f
	}
}

type tapCache struct {
	cache.Cache
	t *tap
}

func (c *tapCache) Get(x context.Context, k string) (string, error) {
	c.t.hit("before get " + k)
	r, err := c.Cache.Get(x, k)
	c.t.hit("after get " + k)
	return r, err
}
func (c *tapCache) Set(x context.Context, k, v string) error {
	c.t.hit("before set " + k)
	err := c.Cache.Set(x, k, v)
	c.t.hit("after set " + k)
	return err
}
func (c *tapCache) Insert(x context.Context, q string, m ...*message.Message) ([]string, error) {
	c.t.hit("before insert")
	r, err := c.Cache.Insert(x, q, m...)
	c.t.hit("after insert")
	return r, err
}

type tapStorage struct {
	storage.Storage
	t *tap
}

func (s *tapStorage) Find(x context.Context, o *storage.FindOptions) ([]message.Message, error) {
	s.t.hit("before find")
	r, err := s.Storage.Find(x, o)
	s.t.hit("after find")
	return r, err
}

// recCase is one recovery: N stored messages, a lost cache, failing steps and acting clients.
type recCase struct {
	Kind    string
	N       int
	Seed    uint64
	Clients int       // percentage of taps at which clients act
	Steps   [][]Fault // faults of the first steps
	Second  bool      // a second instance recovers in turn with the first
	One     bool      `json:",omitempty"` // all messages in one queue
	Queues  int       `json:",omitempty"` // number of queues, when not three
	Note    string    `json:",omitempty"`
}

const (
	rsWaiting = iota // in storage, not delivered since the loss
	rsFlight
	rsLocked
	rsGone
)

type recMsg struct {
	state   int
	score   float64
	touched bool // priority no longer the stored one
}

type recRun struct {
	w    *world
	c    *vk.Ctx
	rc   *recCase
	r    *rand.Rand
	ms   map[key]*recMsg
	keys []key
	next int
	bad  *mismatch
	taps map[string]bool
	f    faults
	ops  int
	one  bool
	nq   int
}

func (x *recRun) fail(k, f string, a ...any) {
	if x.bad == nil {
		x.bad = mm(k, nil, []string{"C16"}, f, a...)
	}
}

func recQueue(i int) string {
	if i < 3 {
		return []string{"q", "p::a", "p::b"}[i]
	}
	return manyName(i)
}

func (x *recRun) add(n int, old bool) {
	req := &deckard.AddRequest{}
	for i := 0; i < n; i++ {
		qi := x.r.IntN(x.nq)
		if x.one {
			qi = 1
		}
		k := key{recQueue(qi), fmt.Sprintf("m%d", x.next)}
		if old && len(x.keys) > 0 {
			k = x.keys[x.r.IntN(len(x.keys))]
		} else {
			x.next++
			x.keys = append(x.keys, k)
		}
		s := pick(x.r, float64(1+x.r.IntN(5000)), float64(1+x.r.IntN(5000)), float64(1+x.r.IntN(5000)), pick(x.r, -1, 0.5, 1e14, 4*maxScore))
		req.Messages = append(req.Messages, &deckard.AddMessage{Id: k.id, Queue: k.q, Score: s, Timeless: true, StringPayload: "x"})
		s = min(max(s, 0), maxScore)
		m := x.ms[k]
		switch {
		case m == nil || m.state == rsGone:
			x.ms[k] = &recMsg{score: s, touched: m != nil}
		default:
			m.touched = true
		}
	}
	if _, err := x.w.api.Add(pctx(), req); err != nil {
		x.fail("recovery-add", "an add failed during recovery: %v", err)
	}
}

// delivered judges one delivery.
func (x *recRun) delivered(r *deckard.Message, to int) {
	k := key{r.Queue, r.Id}
	m := x.ms[k]
	switch {
	case m == nil:
		x.fail("recovery-unknown", "%q of %q was delivered but never existed", k.id, k.q)
	case m.state == rsGone:
		x.fail("recovery-removed", "%q of %q was delivered after its removal", k.id, k.q)
	case m.state == rsFlight:
		x.fail("recovery-twice", "%q of %q was delivered again while in flight", k.id, k.q)
	case m.state == rsLocked:
		x.fail("recovery-locked", "%q of %q was delivered while locked", k.id, k.q)
	default:
		m.state = to
	}
}

// act performs one client operation.
func (x *recRun) act() {
	x.ops++
	pickKey := func(state int) (key, bool) {
		for i := 0; i < 30 && len(x.keys) > 0; i++ {
			k := x.keys[x.r.IntN(len(x.keys))]
			if x.ms[k].state == state {
				return k, true
			}
		}
		return key{}, false
	}
	switch x.r.IntN(7) {
	case 0:
		x.add(1+x.r.IntN(4), false)
	case 1:
		x.add(1+x.r.IntN(3), true)
	case 2, 3:
		resp, err := x.w.api.Pull(pctx(), &deckard.PullRequest{Queue: recQueue(x.r.IntN(x.nq)), Amount: int32(1 + x.r.IntN(6)), AckDeadlineMs: 1 << 40})
		if err != nil {
			x.fail("recovery-pull", "a pull failed during recovery: %v", err)
			return
		}
		for _, m := range resp.Messages {
			x.delivered(m, rsFlight)
		}
	case 4:
		if k, ok := pickKey(rsFlight); ok {
			req := &deckard.AckRequest{Id: k.id, Queue: k.q, Score: float64(1 + x.r.IntN(5000))}
			x.ms[k].state = rsWaiting
			x.ms[k].touched = true
			switch x.r.IntN(3) {
			case 0:
				req.RemoveMessage = true
				x.ms[k].state = rsGone
			case 1:
				req.LockMs = 1 << 40
				x.ms[k].state = rsLocked
			}
			if _, err := x.w.api.Ack(pctx(), req); err != nil {
				x.fail("recovery-ack", "an ack failed during recovery: %v", err)
			}
		}
	case 5:
		if k, ok := pickKey(rsFlight); ok {
			x.ms[k].state, x.ms[k].touched = rsWaiting, true
			if _, err := x.w.api.Nack(pctx(), &deckard.AckRequest{Id: k.id, Queue: k.q}); err != nil {
				x.fail("recovery-nack", "a nack failed during recovery: %v", err)
			}
		}
	case 6:
		if k, ok := pickKey(pick(x.r, rsWaiting, rsFlight, rsLocked)); ok {
			x.ms[k].state = rsGone
			if _, err := x.w.api.Remove(pctx(), &deckard.RemoveRequest{Queue: k.q, Ids: []string{k.id}}); err != nil {
				x.fail("recovery-remove", "a removal failed during recovery: %v", err)
			}
		}
	}
}

func (x *recRun) lose() {
	if x.w.redis != nil {
		x.w.redis.Wipe()
	} else if x.w.mongo != nil {
		fatal(x.w.restart())
	} else {
		x.w.ca.Flush(pctx())
	}
}

// openRecovery stores n messages.
func openRecovery(rc *recCase) (*recRun, *tap) {
	clockMs.Store(clockStart)
	t := &tap{}
	w, err := newWorld(worldOpts{kind: rc.Kind, prefix: "deckard",
		wrapC: func(c cache.Cache) cache.Cache { return &tapCache{c, t} },
		wrapS: func(s storage.Storage) storage.Storage { return &tapStorage{s, t} }})
	fatal(err)
	x := &recRun{w: w, ms: map[key]*recMsg{}, taps: map[string]bool{}, one: rc.One, nq: max(rc.Queues, 3)}
	x.r = rand.New(rand.NewPCG(rc.Seed, 16))
	for left := rc.N; left > 0; {
		n := min(left, 1500)
		x.add(n, false)
		left -= n
	}
	x.f.install(w)
	return x, t
}

// recover runs recovery to its end on a lost cache and judges the outcome.
func (x *recRun) recover(c *vk.Ctx, rc *recCase, t *tap) *mismatch {
	x.c, x.rc, x.bad, x.f.log = c, rc, nil, nil
	x.r = rand.New(rand.NewPCG(rc.Seed, 17))
	clockMs.Store(clockStart)
	for _, m := range x.ms {
		if m.state != rsGone {
			m.state, m.touched = rsWaiting, false
		}
	}
	x.lose()
	x.ops = 0
	if rc.Clients > 0 {
		t.f = func(at string) {
			x.taps[at] = true
			for x.ops < 400 && x.bad == nil && x.r.IntN(100) < rc.Clients {
				armed := x.f.armed
				x.f.armed = false
				x.act()
				x.f.armed = armed
			}
		}
	}
	instances := []*queue.Queue{x.w.q}
	var second *world
	if rc.Second {
		o := x.w.opts
		o.aud, o.redis, o.mongo = x.w.aud, x.w.redis, x.w.mongo
		o.wrapC, o.wrapS = nil, nil
		var err error
		second, err = newWorld(o)
		fatal(err)
		defer second.close()
		instances = append(instances, second.q)
	}
	struck, crashes, done := 0, 0, false
	limit := len(rc.Steps) + len(x.ms)/4000 + 6
	if rc.Clients > 0 {
		limit += 3
	}
	for i := 0; i < limit*len(instances) && !done && x.bad == nil; i++ {
		var p []Fault
		if i < len(rc.Steps) {
			p = rc.Steps[i]
		}
		x.f.arm(p)
		q := instances[i%len(instances)]
		if i%len(instances) == 0 {
			q = x.w.q
		}
		more := queue.RecoveryMessagesPool(pctx(), q)
		fired := x.f.disarm()
		struck += len(fired)
		done = !more && len(fired) == 0
		if crashed(fired) {
			crashes++
			lost := x.w.redis == nil
			tf := t.f
			t.f = nil
			fatal(x.w.restart())
			t.f = tf
			if lost { // the memory cache went with it
				for _, m := range x.ms {
					if m.state != rsGone {
						m.state, m.touched = rsWaiting, false
						// its stored score may have changed since
						m.touched = rc.Clients > 0
					}
				}
			}
		}
		if rc.Clients > 0 && x.bad == nil {
			tf := t.f
			t.f = nil
			x.act()
			t.f = tf
		}
		c.Count("recovery steps", 1)
	}
	t.f = nil
	c.Count("recovery steps struck by faults", int64(struck))
	c.Count("restarts during recovery", int64(crashes))
	c.Count("client operations during recovery", int64(x.ops))
	if x.bad != nil {
		return x.bad
	}
	if !done {
		return mm("recovery-endless", nil, []string{"C16"}, "recovery of %d messages did not finish within %d steps", len(x.ms), limit)
	}
	if queue.RecoveryMessagesPool(pctx(), x.w.q) {
		return mm("recovery-again", nil, []string{"C16"}, "a finished recovery ran again")
	}
	for _, do := range []int{fltFail, fltDone} { // nor does a failing look at its state start it again
		x.f.arm([]Fault{{At: 0, Do: do}})
		queue.RecoveryMessagesPool(pctx(), x.w.q)
		x.f.disarm()
		if queue.RecoveryMessagesPool(pctx(), x.w.q) {
			return mm("recovery-again", nil, []string{"C16"}, "a finished recovery ran again after a command of it failed")
		}
	}
	// everything waiting is delivered exactly once, in the order of the stored scores
	for qi := 0; qi < x.nq; qi++ {
		q := recQueue(qi)
		last := -1.0
		for n := 0; ; n++ {
			resp, err := x.w.api.Pull(pctx(), &deckard.PullRequest{Queue: q, Amount: int32(pick(x.r, 1000, 1000, 900, 37, 5)), AckDeadlineMs: 1 << 40})
			if err != nil {
				return mm("recovery-drain", nil, []string{"C16"}, "a pull failed after recovery: %v", err)
			}
			if len(resp.Messages) == 0 {
				break
			}
			lo, hi := maxScore, -1.0
			for _, m := range resp.Messages {
				x.delivered(m, rsFlight)
				if x.bad != nil {
					return x.bad
				}
				if v := x.ms[key{m.Queue, m.Id}]; !v.touched {
					lo, hi = min(lo, v.score), max(hi, v.score)
				}
			}
			if lo < last {
				return mm("recovery-order", nil, []string{"C16"}, "after recovery a message of stored score %v was delivered after one of score %v", lo, last)
			}
			last = max(last, hi)
		}
	}
	var lost []string
	for _, k := range x.keys {
		if x.ms[k].state == rsWaiting {
			lost = append(lost, k.q+"/"+k.id)
		}
	}
	if len(lost) > 0 {
		sort.Strings(lost)
		return mm("recovery-lost", nil, []string{"C16"}, "%d of %d stored messages are not delivered after recovery: %v", len(lost), len(x.ms), lost[:min(len(lost), 5)])
	}
	c.Count("recoveries judged", 1)
	c.Count("messages recovered and drained", int64(len(x.ms)))
	c.Max("messages in a recovery", int64(len(x.ms)))
	return nil
}

func runRecovery(c *vk.Ctx, rc *recCase) *mismatch {
	x, t := openRecovery(rc)
	defer x.w.close()
	m := x.recover(c, rc, t)
	for at := range x.taps {
		c.Distinct("clients act " + at + " " + rc.Kind)
	}
	return m
}

func recGuard(c *vk.Ctx, rc *recCase, f func() *mismatch) {
	c.Active("recovery", rc)
	c.Guard("recovery", rc, func() {
		if m := f(); m != nil {
			c.Violation(m.key, rc, "recovery on %s back ends: %s", rc.Kind, m.text)
		}
	})
	c.Eval(1)
	c.Active("", nil)
}

var recKinds = []string{"rg", "mg", "cg", "rm"}

func recFaultKinds(kind string) (l []int) {
	l = []int{fltFail, fltDone, fltDown}
	if kind[1] == 'g' {
		l = append(l, fltCrash)
	}
	return
}

func init() {
	p := &profile{name: "C16", w: with(baseWeights, map[string]int{"wipe": 4, "recover": 8, "ttl": 1, "edit": 1}), names: "mixed", scores: []string{"small", "unique", "mixed", "extreme"}, locks: 40, rm: 10, bounds: 5, ttl: 10, update: 30, queues: 4, ids: 14, kinds: []string{"rg", "mg", "rm", "mm", "cg"}, steps: 90}
	vk.Register(&vk.Check{Prop: "C16", Shards: 8, QuickS: 45, ThoroughS: 600,
		Rule:        "a distinct non-trivial case is a (back ends, number of messages, step, command index, kind of fault) that struck recovery, a point at which clients acted, or a distinct abstract state of a history with recoveries",
		Assumptions: backendAssumptions,
		Run: func(c *vk.Ctx) {
			replyDocs = 2500
			if c.Shard == 0 {
				staleRecovery(c)
			}
			explore(c, "C16", p, c.N(640, 2000), 0.3)
			// every command of the first and second step of small and of two-batch recoveries
			i := 0
			for _, n := range []int{4001, 3} {
				for ki, kind := range recKinds {
					if kind == "rm" && n > 4000 && c.Quick() {
						continue
					}
					var x *recRun
					var t *tap
					for si := 0; si < 2; si++ {
						for _, do := range recFaultKinds(kind) {
							if c.Quick() && n > 4000 && kind != "rg" && do != fltFail && do != fltCrash {
								continue
							}
							i++
							if (i+ki)%max(c.Shards, 1) != c.Shard {
								continue
							}
							for at := 0; at < 40; at++ {
								rc := &recCase{Kind: kind, N: n, Seed: 1, Steps: [][]Fault{{{At: at, Do: do}}}, One: n > 4000, Note: "enumerated"}
								if si == 1 {
									rc.Steps = [][]Fault{nil, {{At: at, Do: do}}}
								}
								if x == nil {
									x, t = openRecovery(rc)
								}
								struck := false
								recGuard(c, rc, func() *mismatch {
									m := x.recover(c, rc, t)
									struck = len(x.f.log) > 0
									return m
								})
								if c.Violated() {
									x.w.close()
									return
								}
								if !struck {
									break
								}
								c.Distinct(fmt.Sprint(kind, n, si, at, fltName[do]))
								c.Count("fault points enumerated", 1)
							}
						}
					}
					if x != nil {
						x.w.close()
					}
				}
			}
			// batch boundaries
			for j, n := range []int{0, 1, 3999, 4000, 4001, 8000, 8001, 12000} {
				if j%max(c.Shards, 1) != c.Shard {
					continue
				}
				for _, kind := range []string{"rg", "mg", "rm"} {
					if kind == "rm" && (n > 8001 || n < 4001) && c.Quick() {
						continue
					}
					rc := &recCase{Kind: kind, N: n, Seed: uint64(n), One: n == 8001, Note: "boundary"}
					recGuard(c, rc, func() *mismatch { return runRecovery(c, rc) })
				}
			}
			for j, n := range []int{60, 300, 4100} { // most queues have few messages
				if j%max(c.Shards, 1) != c.Shard {
					continue
				}
				for _, kind := range []string{"rg", "mg"} {
					rc := &recCase{Kind: kind, N: n, Seed: uint64(n), Queues: 41, Clients: pick(c.Rand(uint64(n)), 0, 30), Note: "many queues"}
					recGuard(c, rc, func() *mismatch { return runRecovery(c, rc) })
				}
			}
			// random faults, clients and second instances
			for j := 0; j < c.N(60, 20000) && (j < 8 || !c.Past(0.7)) && !c.Violated(); j++ {
				r := c.Rand(uint64(1600 + j*64 + c.Shard))
				rc := &recCase{Kind: pick(r, recKinds...), N: pick(r, 0, 1, 5, 30, 100, 300, 4000, 4003, 4200, 8003), Seed: r.Uint64(), Clients: pick(r, 0, 20, 40, 70), One: r.IntN(3) == 0, Queues: pick(r, 3, 3, 3, 29)}
				for s := r.IntN(6); s > 0; s-- {
					var f []Fault
					if r.IntN(3) > 0 {
						f = append(f, Fault{At: r.IntN(9), Do: pick(r, recFaultKinds(rc.Kind)...)})
					}
					rc.Steps = append(rc.Steps, f)
				}
				if rc.Kind == "rg" || rc.Kind == "cg" {
					rc.Second = r.IntN(4) == 0
				}
				recGuard(c, rc, func() *mismatch { return runRecovery(c, rc) })
				c.Distinct(fmt.Sprint("random", rc.Kind, rc.N, rc.Seed))
			}
			explore(c, "C16", p, c.N(6000, 300000), 1)
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			replyDocs = 2500
			var rc recCase
			if json.Unmarshal(raw, &rc) == nil && (rc.N > 0 || rc.Seed > 0) {
				recGuard(c, &rc, func() *mismatch { return runRecovery(c, &rc) })
				return
			}
			replayTrace("C16")(c, raw)
		},
	})
}
