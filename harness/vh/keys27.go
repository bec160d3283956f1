package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/zverif/fakeredis"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// prefixes to configure, and what they mean: trimmed of blanks and outer colons, with a default.
var keyPrefixes = []string{"deckard", "deckard_v1", "", "  ", ":", "a", "a:b", " :p: ", "dev*", "?", "x[ab]y", `b\a`, `b\*`, "[", "q^z", "é世", "queue", "*"}

func effPrefix(p string) string {
	p = strings.TrimSpace(p)
	if p == "" {
		return "deckard_v1"
	}
	p = strings.Trim(p, ":")
	if p == "" {
		return "deckard_v1"
	}
	return p
}

// neighbours are prefixes of other users that resemble p, none of which lies below p.
func neighbours(p string) (l []string) {
	for _, n := range []string{p + "x", "x" + p, strings.ToUpper(p) + "_", "devel", "dev", "xay", "xby", "x", "ba", "b", "z", "queue2", "deckard_v", "deckard_v11", "y^z", "qzz"} {
		if n != p && n != "" && !strings.HasPrefix(n+":", p+":") && !strings.HasPrefix(p+":", n+":") {
			l = append(l, n)
		}
	}
	return
}

// keyWatch observes the command stream and key space of one Redis.
type keyWatch struct {
	mu       sync.Mutex
	prefixes []string
	bad      string
	seen     int64
	multi    int64
	foreign  map[string]string // foreign key -> content
}

func dump(rd *fakeredis.Cluster, k string) string {
	if z := rd.Zset(k); len(z) > 0 {
		b, _ := json.Marshal(z)
		return "zset" + string(b)
	}
	v, ok := rd.Get(k)
	return fmt.Sprint("string", v, ok)
}

// plant puts keys of other users into the Redis.
func (w *keyWatch) plant(rd *fakeredis.Cluster) {
	p := w.prefixes[0]
	var l []string
	put := func(k string) {
		for _, own := range w.prefixes {
			if strings.HasPrefix(k, own+":") {
				return
			}
		}
		l = append(l, k)
		for i, m := range []string{"m0", "m1", "other"} {
			rd.PutZset(k, m, float64(i+1))
		}
	}
	for i, n := range neighbours(p) {
		for _, k := range []string{n + ":queue:{q0}", n + ":queue:{q0}:tmp", n + ":queue:{q0}:lock_ack", n + ":queue:{q1}:lock_nack", n + ":queue:{f" + fmt.Sprint(i) + "}"} {
			put(k)
		}
	}
	put("queue:{q0}")
	put("q0")
	for _, k := range l {
		w.foreign[k] = dump(rd, k)
	}
}

func watchKeys(rd *fakeredis.Cluster, prefixes ...string) *keyWatch {
	w := &keyWatch{prefixes: prefixes, foreign: map[string]string{}}
	w.plant(rd)
	rd.SetWatch(func(c *fakeredis.Command) {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.seen++
		if w.bad != "" {
			return
		}
		del := strings.EqualFold(c.Name, "del") // a flush deletes keys of many slots, one by one where the server insists
		if c.Bad != "" && !del {
			w.bad = fmt.Sprintf("command %s %.200q: %s", c.Name, c.Args, c.Bad)
			return
		}
		if len(c.Keys) > 1 {
			w.multi++
		}
		for _, k := range c.Keys {
			ok := false
			for _, p := range w.prefixes {
				ok = ok || strings.HasPrefix(k, p+":")
			}
			if !ok {
				w.bad = fmt.Sprintf("command %s touches key %q, which is not under the prefix %q", c.Name, k, w.prefixes)
				return
			}
			if !del && fakeredis.Slot(k) != fakeredis.Slot(c.Keys[0]) {
				w.bad = fmt.Sprintf("command %s touches keys %q and %q of different slots", c.Name, c.Keys[0], k)
				return
			}
		}
		switch strings.ToLower(c.Name) {
		case "flushdb", "flushall", "keys":
			w.bad = "command " + c.Name + " reaches beyond the prefix"
		}
	})
	return w
}

func (w *keyWatch) judge(rd *fakeredis.Cluster, prop string) *mismatch {
	w.mu.Lock()
	bad := w.bad
	w.mu.Unlock()
	if bad != "" {
		return mm("key-discipline", nil, []string{prop}, "%s", bad)
	}
	for k, v := range w.foreign {
		if got := dump(rd, k); got != v {
			return mm("foreign-key", nil, []string{prop}, "key %q of another prefix changed from %.200s to %.200s", k, v, got)
		}
	}
	return nil
}

var poolTypes = []struct {
	t pool.PoolType
	p int
}{{pool.PRIMARY_POOL, pAvail}, {pool.PROCESSING_POOL, pFlight}, {pool.LOCK_ACK_POOL, pLockA}, {pool.LOCK_NACK_POOL, pLockN}}

// listing compares the listed queues of every kind with the model.
func (e *engine) listing(prop string) *mismatch {
	for _, pt := range poolTypes {
		want := map[string]bool{}
		for _, x := range e.m.all() {
			if x.pool == pt.p {
				want[x.q] = true
			}
		}
		got, err := e.w.ca.ListQueues(pctx(), "*", pt.t)
		if err != nil {
			return mm("list-error", nil, []string{prop}, "listing queues failed: %v", err)
		}
		seen := map[string]bool{}
		for _, q := range got {
			if seen[q] {
				return mm("list-twice", nil, []string{prop}, "queue %q is listed twice among those with %s messages", q, poolName[pt.p])
			}
			seen[q] = true
			if !want[q] {
				return mm("list-extra", nil, []string{prop}, "queue %q is listed as having %s messages and has none", q, poolName[pt.p])
			}
		}
		for q := range want {
			if !seen[q] {
				return mm("list-missing", nil, []string{prop}, "queue %q has %s messages and is not listed", q, poolName[pt.p])
			}
		}
		e.obs("queue listings compared", 1)
		e.obs("queues listed", int64(len(got)))
	}
	return nil
}

// keyEnv opens worlds under a scripted prefix next to foreign keys: Aux = [prefix, scan page, flush].
func keyEnv(prop string) traceEnv {
	var kw *keyWatch
	return traceEnv{
		aux: func(r *rand.Rand) []int {
			return []int{r.IntN(len(keyPrefixes)), pick(r, 0, 0, 1, 3, 10), r.IntN(3)}
		},
		open: func(tc *traceCase) (*world, error) {
			kw = nil
			if len(tc.Aux) < 2 {
				tc.Aux = []int{0, 0, 0}
			}
			p := keyPrefixes[tc.Aux[0]%len(keyPrefixes)]
			w, err := newWorld(worldOpts{kind: tc.Kind, prefix: p})
			if err == nil && w.redis != nil {
				w.redis.ScanPage = tc.Aux[1]
				kw = watchKeys(w.redis, effPrefix(p))
			}
			return w, err
		},
		after: func(e *engine, op *Op) *mismatch {
			if kw == nil {
				return nil
			}
			if op.K == "wipe" {
				kw.plant(e.w.redis)
			}
			if m := kw.judge(e.w.redis, prop); m != nil {
				return m
			}
			if prop == "C27" && e.step%3 == 0 || op.K == "wipe" {
				return e.listing(prop)
			}
			return nil
		},
		post: func(c *vk.Ctx, e *engine, tc *traceCase) *mismatch {
			if kw == nil {
				return nil
			}
			c.Count("Redis commands watched", kw.seen)
			c.Count("commands with several keys", kw.multi)
			c.Distinct("prefix " + keyPrefixes[tc.Aux[0]%len(keyPrefixes)] + tc.Kind)
			return kw.judge(e.w.redis, prop)
		},
	}
}

// shared runs two instances with different prefixes on one Redis, each against its own model.
func sharedRedis(c *vk.Ctx, prop string, seed uint64, kind string) {
	r := rand.New(rand.NewPCG(seed, 27))
	pa := pick(r, keyPrefixes...)
	pb := pick(r, append(neighbours(effPrefix(pa)), keyPrefixes...)...)
	for strings.HasPrefix(effPrefix(pb)+":", effPrefix(pa)+":") || strings.HasPrefix(effPrefix(pa)+":", effPrefix(pb)+":") {
		pb = pick(r, neighbours(effPrefix(pa))...)
	}
	kase := map[string]any{"shared": true, "seed": seed, "kind": kind, "prefixes": []string{pa, pb}}
	run := func(alone bool) *mismatch {
		r := rand.New(rand.NewPCG(seed, 28))
		clockMs.Store(clockStart)
		wa, err := newWorld(worldOpts{kind: kind, prefix: pa})
		fatal(err)
		defer wa.close()
		wa.redis.ScanPage = pick(r, 0, 1, 5)
		o := worldOpts{kind: kind, prefix: pb, redis: wa.redis}
		if alone {
			o.redis = nil
		}
		wb, err := newWorld(o)
		fatal(err)
		defer wb.close()
		kw := watchKeys(wa.redis, effPrefix(pa), effPrefix(pb))
		p := &profile{w: with(baseWeights, map[string]int{"remove": 8, "timeout": 8, "unlock": 8}), names: "simple", locks: 40, rm: 10, bounds: 5, ttl: 0, update: 20, queues: 2, ids: 4}
		es := []*engine{newEngine(wa), newEngine(wb)}
		gs := []*gen{newGen(r, p, es[0], kind), newGen(r, p, es[1], kind)}
		for i := 0; i < 120; i++ {
			j := r.IntN(2)
			op := gs[j].op()
			m := es[j].do(&op)
			if m == nil && i%5 == 0 {
				m = es[j].listing(prop)
			}
			if m == nil {
				m = kw.judge(wa.redis, prop)
			}
			if m != nil {
				return m
			}
		}
		for j := range es {
			if m := es[j].drain(); m != nil {
				return m
			}
			if !alone {
				for k, v := range es[j].kinds {
					c.Count(k, v)
				}
			}
		}
		return nil
	}
	c.Guard("two instances on one Redis", kase, func() {
		if m := run(false); m != nil && (m.props[prop] || run(true) == nil) {
			c.Violation("shared-"+m.key, kase, "two instances with prefixes %q and %q on one Redis (%s): %s", pa, pb, kind, m.text)
		}
	})
	c.Eval(1)
	c.Count("rounds with two instances on one Redis", 1)
	c.Distinct(fmt.Sprint("shared", pa, pb, kind))
}

// flushCache flushes a Redis cache with much data of its own and of others.
func flushCache(c *vk.Ctx, seed uint64) {
	r := rand.New(rand.NewPCG(seed, 25))
	kind := pick(r, "rm", "rg", "cm", "cg")
	p := pick(r, keyPrefixes...)
	n := pick(r, 0, 1, 30, 300, 1100)
	kase := map[string]any{"flush": true, "seed": seed, "kind": kind, "prefix": p, "queues": n}
	c.Guard("flush", kase, func() {
		clockMs.Store(clockStart)
		w, err := newWorld(worldOpts{kind: kind, prefix: p})
		fatal(err)
		defer w.close()
		w.redis.ScanPage = pick(r, 0, 1, 7)
		if n > 200 {
			w.redis.ScanPage = pick(r, 0, 50)
		}
		kw := watchKeys(w.redis, effPrefix(p))
		for i := 0; i < n; i += 100 {
			req := &deckard.AddRequest{}
			for j := i; j < min(n, i+100); j++ {
				req.Messages = append(req.Messages, &deckard.AddMessage{Id: "m", Queue: fmt.Sprintf("q%d", j), Timeless: true})
			}
			_, err := w.api.Add(pctx(), req)
			fatal(err)
		}
		for i := 0; i < min(n, 20); i++ {
			q := fmt.Sprintf("q%d", i)
			_, _ = w.api.Pull(pctx(), &deckard.PullRequest{Queue: q, AckDeadlineMs: 1000})
			if i%2 == 0 {
				_, _ = w.api.Ack(pctx(), &deckard.AckRequest{Queue: q, Id: "m", LockMs: 1000, Score: 3})
			}
		}
		_ = w.ca.Set(pctx(), cache.RECOVERY_RUNNING, "true")
		resp, err := w.api.Flush(pctx(), &deckard.FlushRequest{})
		if err != nil || resp.Success {
			c.Violation("flush-answer", kase, "a flush request on %s back ends answered %v, %v", kind, resp, err)
			return
		}
		if n > 0 {
			if cr, err := w.api.Count(pctx(), &deckard.CountRequest{Queue: "q0"}); err != nil || cr.Count != 1 {
				c.Violation("flush-changed", kase, "a refused flush request changed the count of a queue: %v, %v", cr, err)
				return
			}
			if v, err := w.ca.Get(pctx(), cache.RECOVERY_RUNNING); err != nil || v != "true" {
				c.Violation("flush-changed", kase, "a refused flush request changed the cache")
				return
			}
		}
		before := len(w.redis.Keys())
		w.ca.Flush(pctx())
		own := 0
		for k := range w.redis.Keys() {
			if strings.HasPrefix(k, effPrefix(p)+":") {
				own++
			}
		}
		c.Eval(1)
		c.Count("keys flushed", int64(before-len(w.redis.Keys())))
		c.Count("foreign keys kept", int64(len(kw.foreign)))
		if own > 0 {
			c.Violation("flush-left", kase, "flushing the cache left %d keys of its own prefix %q (%s, %d queues)", own, p, kind, n)
			return
		}
		if m := kw.judge(w.redis, "C25"); m != nil {
			c.Violation(m.key, kase, "flushing the cache with prefix %q (%s): %s", p, kind, m.text)
			return
		}
		// and it goes on like an empty cache
		if n > 0 {
			if ids, err := w.pullIDs("q1", 5, 1000); err != nil || len(ids) != 0 {
				c.Violation("flush-stale", kase, "a flushed cache still delivered %v %v", ids, err)
			}
		}
		if ids, err := w.pullIDs("fresh", 1, 1000); err != nil || len(ids) != 0 {
			c.Violation("flush-stale", kase, "a flushed cache still delivered %v %v", ids, err)
		}
		fatal(w.addSimple("fresh", "x", 1, 0))
		if ids, err := w.pullIDs("fresh", 5, 1000); err != nil || len(ids) != 1 {
			c.Violation("flush-broken", kase, "after a flush an added message was not delivered: %v %v", ids, err)
		}
	})
	c.Distinct(fmt.Sprint("flush", kind, p, n))
}

// flushMemory: nothing set before the flush of a memory instance can be read after it.
func flushMemory(c *vk.Ctx) {
	c.Guard("flush", map[string]any{"memory": true}, func() {
		w, err := newWorld(worldOpts{kind: "mm"})
		fatal(err)
		defer w.close()
		keys := []string{cache.RECOVERY_RUNNING, cache.RECOVERY_BREAKPOINT_KEY, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, "other", ""}
		for _, k := range keys {
			fatal(w.ca.Set(pctx(), k, "7"))
		}
		if resp, err := w.api.Flush(pctx(), &deckard.FlushRequest{}); err != nil || !resp.Success {
			c.Violation("flush-answer", map[string]any{"memory": true}, "a flush of a memory instance answered %v, %v", resp, err)
		}
		for _, k := range keys {
			if v, err := w.ca.Get(pctx(), k); err != nil || v != "" {
				c.Violation("flush-left", map[string]any{"memory": true}, "a flush of a memory instance left the cache entry %q=%q (%v)", k, v, err)
			}
		}
		c.Eval(1)
	})
}

// afterFlush makes a contradiction C25's when it needs what a flush should have emptied.
func afterFlush(c *vk.Ctx, tc *traceCase, m *mismatch) {
	last := -1
	for i, o := range tc.Ops {
		if o.K == "flush" {
			last = i
		}
	}
	if tc.Kind != "mm" || last < 0 || m.props["C25"] {
		return
	}
	t := *tc
	t.Ops = nil
	for i, o := range tc.Ops {
		if i > last || o.K == "adv" {
			t.Ops = append(t.Ops, o)
		}
	}
	if _, m2, err := runOps(c, &t, nil, nil); err == nil && m2 == nil {
		m.props["C25"] = true
	}
}

func init() {
	p27 := &profile{name: "C27", w: with(baseWeights, map[string]int{"remove": 8, "unlock": 8, "timeout": 8, "wipe": 1, "recover": 2}), names: "hostile", locks: 45, rm: 10, bounds: 15, ttl: 10, update: 25, queues: 6, ids: 10, kinds: []string{"rg", "cg", "rm", "cm", "cg"}, steps: 90}
	p25 := &profile{name: "C25", w: with(baseWeights, map[string]int{"flush": 5, "edit": 4, "getq": 4, "recover": 2, "exceed": 2}), names: "mixed", locks: 40, rm: 5, bounds: 15, ttl: 20, update: 25, queues: 4, ids: 10, kinds: []string{"mm", "mm", "mm", "rm", "mg", "rg", "cg"}, steps: 90}
	replay := func(prop string) func(*vk.Ctx, json.RawMessage) {
		return func(c *vk.Ctx, raw json.RawMessage) {
			var k struct {
				Shared, Flush, Memory, Binary bool
				Seed                          uint64
				Kind                          string
			}
			if json.Unmarshal(raw, &k) == nil && k.Binary {
				flushBinary(c, k.Kind, k.Seed)
				return
			} else if k.Shared {
				sharedRedis(c, prop, k.Seed, k.Kind)
				return
			} else if k.Memory {
				flushMemory(c)
				return
			} else if k.Flush {
				flushCache(c, k.Seed)
				return
			}
			env = keyEnv(prop)
			if prop == "C25" {
				env.mine = afterFlush
			}
			replayTrace(prop)(c, raw)
		}
	}
	vk.Register(&vk.Check{Prop: "C27", Shards: 6, QuickS: 30, ThoroughS: 420,
		Rule:        traceRule + "; or a prefix on a kind of back end",
		Assumptions: backendAssumptions,
		Run: func(c *vk.Ctx) {
			r := c.Rand(uint64(2700 + c.Shard))
			for i := 0; i < c.N(60, 20000) && !c.Past(0.4) && !c.Violated(); i++ {
				sharedRedis(c, "C27", r.Uint64(), pick(r, "rm", "rg", "cm", "cg"))
			}
			env = keyEnv("C27")
			explore(c, "C27", p27, c.N(2500, 200000), 1)
		},
		Replay: replay("C27"),
	})
	vk.Register(&vk.Check{Prop: "C25", Shards: 6, QuickS: 25, ThoroughS: 300,
		Rule:        traceRule + "; or a flush of a (back ends, prefix, size) combination",
		Assumptions: backendAssumptions,
		Run: func(c *vk.Ctx) {
			r := c.Rand(uint64(2500 + c.Shard))
			flushMemory(c)
			flushBinary(c, []string{"mm", "rm", "mg", "rg", "cm", "cg"}[c.Shard%6], r.Uint64())
			for i := 0; i < c.N(80, 20000) && !c.Past(0.5) && !c.Violated(); i++ {
				flushCache(c, r.Uint64())
			}
			env = keyEnv("C25")
			env.mine = afterFlush
			explore(c, "C25", p25, c.N(3000, 200000), 1)
		},
		Replay: replay("C25"),
	})
}
