package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zverif/fakemongo"
	"github.com/takenet/deckard/internal/zverif/fakeredis"
	"github.com/takenet/deckard/internal/zverif/vk"
	"go.mongodb.org/mongo-driver/v2/bson"
)

// C32: the real binary performs its housekeeping by itself. What each task achieves is observed
// through the API, the metrics endpoint and the back ends.

type houseCase struct {
	Mode string // only, all, off, faulted, alone, nogrpc
	Kind string
	Task string `json:",omitempty"`
	Seed uint64
}

var houseTasks = []string{"TIMEOUT", "UNLOCK", "TTL", "MAX_ELEMENTS", "METRICS", "UPDATE"}

func delays(only string, d string) map[string]string {
	m := map[string]string{}
	for _, t := range houseTasks {
		v := "10h"
		if only == "" || t == only {
			v = d
		}
		m["DECKARD_HOUSEKEEPER_TASK_"+t+"_DELAY"] = v
	}
	return m
}

// house is a running binary with something to do for every task.
type house struct {
	s     *site
	p     *proc
	cl    deckard.DeckardClient
	mport int
	total int
	n     int
	// pulled for the recovery queue so far
	lost map[string]bool
	c    *vk.Ctx
	k    *houseCase
}

func houseFail(k, f string, a ...any) *mismatch { return mm(k, nil, []string{"C32"}, f, a...) }

const houseLimit = 60 * time.Second

// prepare makes work for a task; the work is new: only a run that follows can do it.
func (h *house) prepare(task string) {
	h.n++
	add := func(q string, n int, f func(*deckard.AddMessage)) {
		req := &deckard.AddRequest{}
		for i := 0; i < n; i++ {
			m := &deckard.AddMessage{Id: fmt.Sprintf("m%d-%d", h.n, i), Queue: q, Timeless: true, Score: 5}
			if f != nil {
				f(m)
			}
			req.Messages = append(req.Messages, m)
		}
		_, err := h.cl.Add(pctx(), req)
		fatal(err)
	}
	switch task {
	case "TIMEOUT", "UNLOCK":
		q := "qT"
		if task == "UNLOCK" {
			q = "qU"
		}
		add(q, 1, nil)
		dl := int64(1)
		if task == "UNLOCK" {
			dl = 36000_000
		}
		id := fmt.Sprintf("m%d-0", h.n)
		for i := 0; i < 200; i++ { // older ones may have come back meanwhile
			r, err := h.cl.Pull(pctx(), &deckard.PullRequest{Queue: q, Amount: 100, AckDeadlineMs: dl})
			fatal(err)
			for _, m := range r.Messages {
				if m.Id != id {
					_, err := h.cl.Remove(pctx(), &deckard.RemoveRequest{Queue: q, Ids: []string{m.Id}})
					fatal(err)
					continue
				}
				if task == "UNLOCK" {
					a, err := h.cl.Nack(pctx(), &deckard.AckRequest{Queue: q, Id: id, LockMs: 1})
					fatal(err)
					if !a.Success {
						fatal(fmt.Errorf("nack of a message in flight answered %v", a))
					}
				}
				return
			}
		}
		fatal(fmt.Errorf("the message just added to %s is not pulled", q))
	case "TTL":
		add("qX", 3, func(m *deckard.AddMessage) { m.Timeless, m.TtlMinutes = false, -5 })
	case "MAX_ELEMENTS":
		_, err := h.cl.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: "qM", Configuration: &deckard.QueueConfiguration{MaxElements: 2}})
		fatal(err)
		add("qM", 4, nil)
	case "METRICS":
		h.total++
		add("qG", 1, nil)
	case "UPDATE":
		if h.s.redis == nil {
			return
		}
		add("qR", 5, nil)
		h.s.redis.Wipe()
		h.lost = map[string]bool{}
	}
}

// done reports whether the prepared work of a task has been done.
func (h *house) done(task string) bool {
	switch task {
	case "TIMEOUT", "UNLOCK":
		r, err := h.cl.Pull(pctx(), &deckard.PullRequest{Queue: map[string]string{"TIMEOUT": "qT", "UNLOCK": "qU"}[task], Amount: 1, AckDeadlineMs: 36000_000})
		fatal(err)
		return len(r.Messages) > 0
	case "TTL":
		r, err := h.cl.Count(pctx(), &deckard.CountRequest{Queue: "qX"})
		fatal(err)
		return r.Count == 0
	case "MAX_ELEMENTS":
		r, err := h.cl.Count(pctx(), &deckard.CountRequest{Queue: "qM"})
		fatal(err)
		return r.Count <= 2
	case "METRICS":
		v, ok := h.gauge("qG")
		return ok && v == h.total
	case "UPDATE":
		r, err := h.cl.Pull(pctx(), &deckard.PullRequest{Queue: "qR", Amount: 100, AckDeadlineMs: 36000_000})
		fatal(err)
		for _, m := range r.Messages {
			h.lost[m.Id] = true
		}
		n := 0
		for i := 0; i < 5; i++ {
			if h.lost[fmt.Sprintf("m%d-%d", h.n, i)] {
				n++
			}
		}
		return n == 5
	}
	return false
}

// gauge reads the exported number of messages of a queue.
func (h *house) gauge(q string) (int, bool) {
	body, err := scrape(h.mport, "/metrics")
	if err != nil {
		return 0, false
	}
	for _, l := range strings.Split(body, "\n") {
		if strings.HasPrefix(l, "deckard_total_messages") && strings.Contains(l, `"`+q+`"`) {
			f := strings.Fields(l)
			v, err := strconv.ParseFloat(f[len(f)-1], 64)
			return int(v), err == nil
		}
	}
	return 0, false
}

func scrape(port int, path string) (string, error) {
	cl := http.Client{Timeout: 20 * time.Second}
	r, err := cl.Get(fmt.Sprintf("http://127.0.0.1:%d%s", port, path))
	if err != nil {
		return "", err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err == nil && r.StatusCode != 200 {
		err = fmt.Errorf("status %d", r.StatusCode)
	}
	return string(b), err
}

func (h *house) wait(task string) bool {
	again := time.Now().Add(8 * time.Second)
	for end := time.Now().Add(houseLimit); time.Now().Before(end) && !h.p.gone(); time.Sleep(4 * time.Millisecond) {
		if h.done(task) {
			h.c.Active("housekeeping "+task, h.k)
			return true
		}
		// a loss in the middle of a recovery run is outside the property: lose it again
		if task == "UPDATE" && time.Now().After(again) {
			h.s.redis.Wipe()
			again = time.Now().Add(8 * time.Second)
		}
	}
	return false
}

func (h *house) close() {
	if h.p != nil {
		h.p.kill()
	}
	h.s.close()
}

func (k *houseCase) tasks() (out []string) {
	for _, t := range houseTasks {
		if t != "UPDATE" || k.Kind[0] != 'm' {
			out = append(out, t)
		}
	}
	return
}

func openHouse(c *vk.Ctx, k *houseCase, env map[string]string) (*house, *mismatch) {
	s, err := openSite(c, k.Kind, false, env)
	fatal(err)
	h := &house{c: c, k: k, s: s, mport: shardPort(c.Shard)}
	s.env["DECKARD_METRICS_ENABLED"] = "true"
	s.env["DECKARD_METRICS_PORT"] = fmt.Sprint(h.mport)
	h.p, err = startProc(c.Shard, s.dir, s.env)
	if err != nil {
		s.close()
		return nil, houseFail("start", "%v", err)
	}
	conn, err := dialTo(h.p.port, nil)
	fatal(err)
	h.cl = deckard.NewDeckardClient(conn)
	return h, nil
}

// houseOnly: one task has a short delay, the others one of hours.
func houseOnly(c *vk.Ctx, k *houseCase) *mismatch {
	const d = 250 * time.Millisecond
	t0 := time.Now()
	h, m := openHouse(c, k, delays(k.Task, "250ms"))
	if m != nil {
		return m
	}
	defer h.close()
	var others []string
	for _, t := range k.tasks() {
		if t != k.Task && t != "UPDATE" {
			others = append(others, t)
		}
	}
	if k.Task != "UPDATE" {
		if h.s.redis != nil { // lost messages that nobody recovers
			h.prepare("UPDATE")
			others = append(others, "UPDATE")
		}
	} else {
		others = []string{"TTL", "MAX_ELEMENTS", "METRICS"} // a wipe frees the others' messages
	}
	for _, t := range others {
		if t != "UPDATE" {
			h.prepare(t)
		}
	}
	const times = 4
	for i := 1; i <= times; i++ {
		h.prepare(k.Task)
		if !h.wait(k.Task) {
			return houseFail("not-done", "the task %s with a delay of %v did not do its work (time %d) within %v; the process ended: %v; output: %s", k.Task, d, i, houseLimit, h.p.gone(), h.p.tail(400))
		}
		if el := time.Since(t0); el < time.Duration((i+1)/2)*d {
			return houseFail("too-often", "the task %s with a delay of %v had done new work %d times %v after the start of the process", k.Task, d, i, el)
		}
		c.Count("work observed done by "+k.Task, 1)
	}
	for _, t := range others {
		h.lost = map[string]bool{}
		if h.done(t) {
			return houseFail("other-task", "only %s has a short delay, %s has one of 10 hours, but its work was done", k.Task, t)
		}
	}
	c.Count("tasks observed not to run before their delay", int64(len(others)))
	return nil
}

// houseAll: every task does its work again and again.
func houseAll(c *vk.Ctx, k *houseCase) *mismatch {
	h, m := openHouse(c, k, delays("", "15ms"))
	if m != nil {
		return m
	}
	defer h.close()
	r := rand.New(rand.NewPCG(k.Seed, 32))
	ts := k.tasks()
	if m := h.pace(c, ts); m != nil {
		return m
	}
	for i := 0; i < 3; i++ {
		for _, x := range r.Perm(len(ts)) {
			h.prepare(ts[x])
			if !h.wait(ts[x]) {
				return houseFail("not-done", "with every task at 15ms, %s did not do its work within %v; the process ended: %v; output: %s", ts[x], houseLimit, h.p.gone(), h.p.tail(400))
			}
			c.Count("work observed done by "+ts[x], 1)
		}
	}
	return h.pace(c, ts)
}

// pace: 20 more runs of each task at 15ms, with room for a slow machine.
func (h *house) pace(c *vk.Ctx, ts []string) *mismatch {
	first := h.runs()
	for end := time.Now().Add(30 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		now, late := h.runs(), ""
		for _, t := range ts {
			if t != "UPDATE" && now[t]-first[t] < 20 { // a recovery run with nothing to do is not counted
				late = t
			}
		}
		if late == "" {
			c.Count("tasks seen to keep their pace", int64(len(ts)))
			return nil
		}
		if h.p.gone() {
			return houseFail("not-done", "the process ended with %s: %s", h.p.status(), h.p.tail(500))
		}
		if time.Now().After(end) {
			return houseFail("too-rare", "with a delay of 15ms the task %s ran %v times in 30s; runs at the start of that time %v, at its end %v", late, now[late]-first[late], first, now)
		}
	}
}

// runs is the number of runs of each task by the exported latencies.
func (h *house) runs() map[string]int {
	body, err := scrape(h.mport, "/metrics")
	fatal(err)
	out := map[string]int{}
	for _, l := range strings.Split(body, "\n") {
		if !strings.HasPrefix(l, "deckard_housekeeper_task_latency") || !strings.Contains(l, "_count") {
			continue
		}
		if _, s, ok := strings.Cut(l, `task="`); ok {
			task, _, _ := strings.Cut(s, `"`)
			f := strings.Fields(l)
			v, _ := strconv.ParseFloat(f[len(f)-1], 64)
			out[strings.ToUpper(task)] = int(v)
		}
	}
	return out
}

// houseOff: housekeeping disabled, no task runs.
func houseOff(c *vk.Ctx, k *houseCase) *mismatch {
	env := delays("", "3ms")
	env["DECKARD_HOUSEKEEPER_ENABLED"] = "false"
	h, m := openHouse(c, k, env)
	if m != nil {
		return m
	}
	defer h.close()
	ts := k.tasks()
	if ts[len(ts)-1] == "UPDATE" {
		h.prepare("UPDATE")
	}
	for _, t := range ts {
		if t != "UPDATE" {
			h.prepare(t)
		}
	}
	time.Sleep(400 * time.Millisecond)
	for _, t := range ts {
		h.lost = map[string]bool{}
		if h.done(t) {
			return houseFail("off-runs", "housekeeping is disabled but the work of %s was done", t)
		}
	}
	c.Count("tasks observed not to run when disabled", int64(len(ts)))
	return nil
}

// houseFaulted: every run of the task fails for a while.
func houseFaulted(c *vk.Ctx, k *houseCase) *mismatch {
	h, m := openHouse(c, k, delays(k.Task, "10ms"))
	if m != nil {
		return m
	}
	defer h.close()
	h.prepare(k.Task)
	var fails atomic.Int64
	every := 1 + rand.New(rand.NewPCG(k.Seed, 33)).Int64N(3) // all of the commands, or every second or third
	var n atomic.Int64
	hit := func() bool {
		if n.Add(1)%every == 0 {
			fails.Add(1)
			return true
		}
		return false
	}
	if h.s.redis != nil {
		h.s.redis.SetFault(func(*fakeredis.Command) fakeredis.Action {
			if hit() {
				return fakeredis.FailErr
			}
			return fakeredis.Pass
		})
	}
	if h.s.mongo != nil {
		h.s.mongo.SetFault(func(*fakemongo.Command) fakemongo.Action {
			if hit() {
				return fakemongo.FailErr
			}
			return fakemongo.Pass
		})
	}
	for i := 0; i < 500 && fails.Load() < 12; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if h.s.redis != nil {
		h.s.redis.SetFault(nil)
	}
	if h.s.mongo != nil {
		h.s.mongo.SetFault(nil)
	}
	c.Count("commands of housekeeping made to fail", fails.Load())
	if h.p.gone() {
		return houseFail("fault-exit", "the process ended with %s when %s failed: %s", h.p.status(), k.Task, h.p.tail(500))
	}
	if k.Task == "MAX_ELEMENTS" || k.Task == "TTL" || k.Task == "METRICS" {
		// nothing else
	} else if k.Task != "UPDATE" {
		h.prepare(k.Task)
	}
	if !h.wait(k.Task) {
		return houseFail("not-again", "after %d failed commands the task %s did not do its work within %v", fails.Load(), k.Task, houseLimit)
	}
	c.Count("work observed done after failures by "+k.Task, 1)
	return nil
}

// houseAlone: recovery, expiry and eviction never run at the same time.
func houseAlone(c *vk.Ctx, k *houseCase) *mismatch {
	env := delays("", "10h")
	for _, t := range []string{"TTL", "MAX_ELEMENTS", "UPDATE"} {
		env["DECKARD_HOUSEKEEPER_TASK_"+t+"_DELAY"] = "1ms"
	}
	h, m := openHouse(c, k, env)
	if m != nil {
		return m
	}
	defer h.close()
	h.prepare("MAX_ELEMENTS")
	h.prepare("TTL")
	if !h.wait("TTL") || !h.wait("MAX_ELEMENTS") {
		return houseFail("not-done", "expiry or eviction did not do its work within %v", houseLimit)
	}
	var mu sync.Mutex
	var busy, worst, n int
	var trail []string
	watch := func(what string) {
		mu.Lock()
		busy++
		n++
		if busy > worst {
			worst = busy
		}
		if len(trail) < 400 {
			trail = append(trail, what)
		}
		mu.Unlock()
		time.Sleep(time.Duration(rand.IntN(1500)) * time.Microsecond)
		mu.Lock()
		busy--
		mu.Unlock()
	}
	h.s.redis.SetLatency(func(x *fakeredis.Command) {
		switch strings.ToUpper(x.Name) {
		case "GET", "SET", "DEL", "EXISTS", "EVAL", "EVALSHA", "ZREM", "ZADD", "SCAN", "KEYS":
			watch("redis " + x.Name)
		}
	})
	h.s.mongo.SetLatency(func(x *fakemongo.Command) {
		switch x.Name {
		case "insert", "update", "delete", "find", "aggregate", "count", "distinct", "findAndModify", "getMore":
			watch("mongo " + x.Name + " " + x.Coll)
		}
	})
	time.Sleep(900 * time.Millisecond)
	h.s.redis.SetLatency(nil)
	h.s.mongo.SetLatency(nil)
	mu.Lock()
	defer mu.Unlock()
	c.Count("commands of mutually exclusive tasks watched", int64(n))
	c.Max("of them at the same time", int64(worst))
	if worst > 1 {
		return houseFail("overlap", "with only recovery, expiry and eviction running, %d commands were in progress at once (of %d; the last ones: %v)", worst, n, trail[max(0, len(trail)-8):])
	}
	return nil
}

// houseNoGrpc: housekeeping without a port.
func houseNoGrpc(c *vk.Ctx, k *houseCase) *mismatch {
	h, m := openHouse(c, k, delays("", "10h"))
	if m != nil {
		return m
	}
	h.prepare("UPDATE")
	h.p.kill()
	env := map[string]string{}
	for a, b := range h.s.env {
		env[a] = b
	}
	for a, b := range delays("UPDATE", "20ms") {
		env[a] = b
	}
	env["DECKARD_GRPC_ENABLED"] = "false"
	port := shardPort(c.Shard)
	p, err := launch(h.s.dir, port, env)
	fatal(err)
	h.p = p
	defer h.close()
	found := false
	for end := time.Now().Add(houseLimit); time.Now().Before(end) && !found && !p.gone(); time.Sleep(5 * time.Millisecond) {
		for key, typ := range h.s.redis.Keys() {
			if typ == "zset" && strings.Contains(key, "qR") && len(h.s.redis.Zset(key)) == 5 {
				found = true
			}
		}
	}
	if !found {
		return houseFail("nogrpc-idle", "with gRPC disabled recovery did not put the 5 messages back within %v; the process ended: %v; output: %s", houseLimit, p.gone(), p.tail(400))
	}
	if x, err := net.DialTimeout("tcp", fmt.Sprint("127.0.0.1:", port), time.Second); err == nil {
		x.Close()
		return houseFail("nogrpc-port", "gRPC is disabled but its port accepts connections")
	}
	c.Count("instances without gRPC", 1)
	return nil
}

func runHouse(c *vk.Ctx, k *houseCase) {
	var m *mismatch
	c.Active("housekeeping "+k.Mode+" "+k.Kind+" "+k.Task, k)
	defer c.Active("", nil)
	if !c.Guard("housekeeping "+k.Mode, k, func() {
		switch k.Mode {
		case "only":
			m = houseOnly(c, k)
		case "all":
			m = houseAll(c, k)
		case "off":
			m = houseOff(c, k)
		case "faulted":
			m = houseFaulted(c, k)
		case "alone":
			m = houseAlone(c, k)
		case "nogrpc":
			m = houseNoGrpc(c, k)
		}
	}) {
		return
	}
	c.Eval(1)
	c.Count("processes ("+k.Mode+")", 1)
	c.Distinct(fmt.Sprint(k.Mode, k.Kind, k.Task, k.Seed%3))
	if m != nil {
		c.Violation(m.key, k, "%s on %s back ends: %s", k.Mode, k.Kind, m.text)
	}
}

func init() {
	vk.Register(&vk.Check{Prop: "C32", Shards: 8, QuickS: 60, ThoroughS: 400,
		Rule:        "a distinct non-trivial case is a (mode, back ends, task) whose work was observed to be done, or not to be done, by the running binary",
		Assumptions: []string{"Redis and MongoDB are in-process protocol servers written for this task; the process under test is the real binary", "the exporter behind the metrics endpoint is an offline stand-in"},
		Run: func(c *vk.Ctx) {
			r := c.Rand(32)
			var all []*houseCase
			for _, kind := range []string{"rg", "mm", "cg", "rm", "mg"} {
				for _, t := range (&houseCase{Kind: kind}).tasks() {
					all = append(all, &houseCase{Mode: "only", Kind: kind, Task: t})
				}
				all = append(all, &houseCase{Mode: "all", Kind: kind}, &houseCase{Mode: "off", Kind: kind})
				if kind == "rg" || kind == "cg" {
					for _, t := range houseTasks {
						all = append(all, &houseCase{Mode: "faulted", Kind: kind, Task: t})
					}
					all = append(all, &houseCase{Mode: "nogrpc", Kind: kind})
				}
			}
			for i := 0; i < 4; i++ {
				all = append(all, &houseCase{Mode: "alone", Kind: "rg"})
			}
			r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			for round := 0; round < c.N(1, 1000); round++ {
				for i, k := range all {
					k.Seed = r.Uint64()
					if i%c.Shards == c.Shard && !c.Past(0.95) && !c.Violated() {
						runHouse(c, k)
					}
				}
			}
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			var k houseCase
			if json.Unmarshal(raw, &k) == nil {
				runHouse(c, &k)
			}
		},
	})
}

// expiryOnTime: the running service removes messages once they have expired, and not a moment earlier.
func expiryOnTime(c *vk.Ctx, kind string) {
	kase := map[string]any{"scenario": "expiry in the running service", "back ends": kind}
	c.Guard("expiry in the running service", kase, func() {
		h, m := openHouse(c, &houseCase{Kind: kind}, delays("TTL", "20ms"))
		if m != nil {
			fatal(fmt.Errorf("%s", m.text))
		}
		defer h.close()
		_, err := h.cl.Add(pctx(), &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "tmpl", Queue: "q", TtlMinutes: 600}}})
		fatal(err)
		const ns = "deckard.queue"
		docs := h.s.mongo.Docs(ns)
		if len(docs) != 1 {
			fatal(fmt.Errorf("one message added, the documents are %v", docs))
		}
		due := map[string]time.Time{}
		for i := 0; i < 12; i++ {
			d := append(bson.D{}, docs[0]...)
			id := fmt.Sprintf("m%d", i)
			due[id] = time.Now().Add(time.Duration(1500+300*i) * time.Millisecond).Truncate(time.Millisecond)
			for j := range d {
				switch d[j].Key {
				case "_id":
					d[j].Value = bson.NewObjectID()
				case "id":
					d[j].Value = id
				case "expiry_date":
					d[j].Value = bson.NewDateTimeFromTime(due[id])
				}
			}
			h.s.mongo.Put(ns, d)
		}
		for end := time.Now().Add(houseLimit); len(due) > 0; time.Sleep(5 * time.Millisecond) {
			c.Active("expiry in the running service", kase)
			there := map[string]bool{}
			for _, d := range h.s.mongo.Docs(ns) {
				for _, f := range d {
					if s, ok := f.Value.(string); ok && f.Key == "id" {
						there[s] = true
					}
				}
			}
			now := time.Now()
			if !there["tmpl"] {
				c.Violation("early", kase, "a message that lives ten hours was removed at once")
				return
			}
			for id, t := range due {
				if there[id] {
					continue
				}
				if now.Before(t) {
					c.Violation("early", kase, "the running service removed a message %v before its expiry", t.Sub(now))
					return
				}
				delete(due, id)
				c.Count("expiries in the running service", 1)
			}
			if now.After(end) {
				c.Violation("late", kase, "%d messages are still stored although they expired and the expiry task runs every 20 ms; %s", len(due), h.p.tail(300))
				return
			}
		}
		c.Eval(1)
	})
}
