package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/elliotchance/orderedmap/v2"
	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zverif/vk"
	"google.golang.org/protobuf/proto"
)

// C24: two instances on different back ends receive the same calls and housekeeping at the same times; every
// answer, and what is stored and listed afterwards, must be the same. The models only keep the histories inside
// the part where the choice is not free (equal priorities, equal expiry dates) and where no documented difference
// applies.

// recAPI records every answer.
type recAPI struct {
	api
	log []string
}

func (r *recAPI) rec(n string, resp proto.Message, err error) {
	if err != nil {
		r.log = append(r.log, n+": error")
		return
	}
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(resp)
	r.log = append(r.log, n+": "+string(b))
}

func (r *recAPI) Add(c context.Context, q *deckard.AddRequest) (*deckard.AddResponse, error) {
	a, err := r.api.Add(c, q)
	r.rec("add", a, err)
	return a, err
}

func (r *recAPI) Pull(c context.Context, q *deckard.PullRequest) (*deckard.PullResponse, error) {
	a, err := r.api.Pull(c, q)
	if err == nil && a != nil {
		s := proto.Clone(a).(*deckard.PullResponse)
		sort.SliceStable(s.Messages, func(i, j int) bool {
			x, y := s.Messages[i], s.Messages[j]
			return x.Score < y.Score || x.Score == y.Score && x.Id < y.Id
		})
		r.rec("pull", s, err)
	} else {
		r.rec("pull", a, err)
	}
	return a, err
}

func (r *recAPI) Ack(c context.Context, q *deckard.AckRequest) (*deckard.AckResponse, error) {
	a, err := r.api.Ack(c, q)
	r.rec("ack", a, err)
	return a, err
}

func (r *recAPI) Nack(c context.Context, q *deckard.AckRequest) (*deckard.AckResponse, error) {
	a, err := r.api.Nack(c, q)
	r.rec("nack", a, err)
	return a, err
}

func (r *recAPI) Count(c context.Context, q *deckard.CountRequest) (*deckard.CountResponse, error) {
	a, err := r.api.Count(c, q)
	r.rec("count", a, err)
	return a, err
}

func (r *recAPI) Remove(c context.Context, q *deckard.RemoveRequest) (*deckard.RemoveResponse, error) {
	a, err := r.api.Remove(c, q)
	r.rec("remove", a, err)
	return a, err
}

func (r *recAPI) GetById(c context.Context, q *deckard.GetByIdRequest) (*deckard.GetByIdResponse, error) {
	a, err := r.api.GetById(c, q)
	r.rec("lookup", a, err)
	return a, err
}

func (r *recAPI) EditQueue(c context.Context, q *deckard.EditQueueRequest) (*deckard.EditQueueResponse, error) {
	a, err := r.api.EditQueue(c, q)
	r.rec("edit", a, err)
	return a, err
}

func (r *recAPI) GetQueue(c context.Context, q *deckard.GetQueueRequest) (*deckard.GetQueueResponse, error) {
	a, err := r.api.GetQueue(c, q)
	r.rec("configuration", a, err)
	return a, err
}

func (r *recAPI) take() []string {
	l := r.log
	r.log = nil
	return l
}

// show makes a recorded answer readable.
func showAnswer(s string) string {
	n, b, ok := strings.Cut(s, ": ")
	if !ok || b == "error" {
		return s
	}
	var m proto.Message
	switch n {
	case "add":
		m = &deckard.AddResponse{}
	case "pull":
		m = &deckard.PullResponse{}
	case "ack", "nack":
		m = &deckard.AckResponse{}
	case "count":
		m = &deckard.CountResponse{}
	case "remove":
		m = &deckard.RemoveResponse{}
	case "lookup":
		m = &deckard.GetByIdResponse{}
	case "edit":
		m = &deckard.EditQueueResponse{}
	case "configuration":
		m = &deckard.GetQueueResponse{}
	default:
		return s
	}
	if proto.Unmarshal([]byte(b), m) != nil {
		return fmt.Sprintf("%s: %q", n, b)
	}
	return n + ": " + fmt.Sprint(m)
}

// around cuts two differing answers to the part where they differ.
func around(a, b string) (string, string) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	i = max(0, i-150)
	cut := func(s string) string {
		if i >= len(s) {
			return "..."
		}
		s = s[i:]
		if len(s) > 400 {
			s = s[:400]
		}
		return s
	}
	if i == 0 {
		return cut(a), cut(b)
	}
	return "..." + cut(a), "..." + cut(b)
}

type diffCase struct {
	A, B  string
	Wire  bool `json:",omitempty"`
	Start int64
	Ops   []Op
}

type side struct {
	e   *engine
	rec *recAPI
}

func newSide(kind string, wire bool) (*side, error) {
	w, err := newWorld(worldOpts{kind: kind, prefix: "deckard"})
	if err != nil {
		return nil, err
	}
	if wire {
		if err := w.listen(); err != nil {
			w.close()
			return nil, err
		}
	}
	r := &recAPI{api: w.api}
	w.api = r
	return &side{newEngine(w), r}, nil
}

// stored lists all fields of everything the storage holds.
func (s *side) stored() ([]string, error) {
	srt := orderedmap.NewOrderedMap[string, int]()
	l, err := s.e.w.st.Find(pctx(), &storage.FindOptions{Retry: true, InternalFilter: &storage.InternalFilter{}, Sort: srt})
	if err != nil {
		return nil, err
	}
	var out []string
	for i := range l {
		m := &l[i]
		var pk []string
		for k, v := range m.Payload {
			pk = append(pk, fmt.Sprintf("%q=%q/%x", k, v.GetTypeUrl(), v.GetValue()))
		}
		sort.Strings(pk)
		var mk []string
		for k, v := range m.Metadata {
			mk = append(mk, fmt.Sprintf("%q=%q", k, v))
		}
		sort.Strings(mk)
		lu := int64(0)
		if m.LastUsage != nil {
			lu = m.LastUsage.UnixMilli()
		}
		d := "none"
		if m.Diagnostics != nil {
			g := func(p *int64) string {
				if p == nil {
					return "0"
				}
				return fmt.Sprint(*p)
			}
			d = g(m.Diagnostics.Acks) + "/" + g(m.Diagnostics.Nacks) + "/" + g(m.Diagnostics.ConsecutiveAcks) + "/" + g(m.Diagnostics.ConsecutiveNacks)
		}
		exp := fmt.Sprint(m.ExpiryDate.UnixMilli())
		out = append(out, fmt.Sprintf("message %q/%q description=%q text=%q metadata=%v payload=%v expiry=%s score=%v lastUse=%d breakpoint=%q subtract=%v/%v uses=%d prefix=%q suffix=%q diagnostics=%s",
			m.Queue, m.ID, m.Description, m.StringPayload, mk, pk, exp, m.Score, lu, m.Breakpoint, m.LastScoreSubtract, m.TotalScoreSubtract, m.UsageCount, m.QueuePrefix, m.QueueSuffix, d))
	}
	sort.Strings(out)
	return out, nil
}

// state is what can be observed of an instance without changing it.
func (s *side) state() ([]string, error) {
	out, err := s.stored()
	if err != nil {
		return nil, fmt.Errorf("reading the storage: %w", err)
	}
	list := func(what string, l []string, err error) {
		if err != nil {
			out = append(out, what+" error")
			return
		}
		sort.Strings(l)
		out = append(out, fmt.Sprintf("%s %q", what, l))
	}
	l, err := s.e.w.st.ListQueueNames(pctx())
	list("queue names", l, err)
	l, err = s.e.w.st.ListQueuePrefixes(pctx())
	list("queue prefixes", l, err)
	cs, err := s.e.w.st.ListQueueConfigurations(pctx())
	var cl []string
	for _, c := range cs {
		cl = append(cl, fmt.Sprintf("%q=%d", c.Queue, c.MaxElements))
	}
	list("configurations", cl, err)
	for i, p := range []pool.PoolType{pool.PRIMARY_POOL, pool.PROCESSING_POOL, pool.LOCK_ACK_POOL, pool.LOCK_NACK_POOL} {
		l, err := s.e.w.ca.ListQueues(pctx(), "*", p)
		list("queues with messages "+poolName[i+1], l, err)
	}
	for i, x := range s.e.m.all() {
		if i == 60 {
			break
		}
		is, err := s.e.w.ca.IsProcessing(pctx(), x.q, x.id)
		if err != nil {
			out = append(out, "in-flight lookup error")
			continue
		}
		out = append(out, fmt.Sprintf("in flight %q/%q %v", x.q, x.id, is))
	}
	return out, nil
}

// dueExpired reports whether housekeeping has to remove expired messages before anything else is compared.
func (e *engine) dueExpired() bool {
	for _, x := range e.m.all() {
		if x.inStore && x.exp <= vnow() {
			return true
		}
	}
	return false
}

// settle makes an operation's outcome independent of free choices.
func (e *engine) settle(op *Op) bool {
	switch op.K {
	case "flush", "metrics":
		return false
	case "pull":
		op.Lag = 0
		cand := e.candidates(op)
		n := amountOf(op.N)
		for n < len(cand) && cand[n].prio == cand[n-1].prio {
			n++
		}
		if n > 1000 {
			return false
		}
		if n != amountOf(op.N) {
			op.N = int32(n)
		}
	case "exceed":
		qs := map[string][]*msg{}
		for _, x := range e.m.all() {
			if x.inStore {
				qs[x.q] = append(qs[x.q], x)
			}
		}
		for q, l := range qs {
			mx := e.m.cfg[q]
			if mx <= 0 || int64(len(l)) <= mx {
				continue
			}
			sort.Slice(l, func(i, j int) bool { return l[i].exp < l[j].exp })
			n := len(l) - int(mx)
			if n < len(l) && (l[n].exp == l[n-1].exp || l[n].Timeless && l[n-1].Timeless) {
				return false
			}
			for _, x := range l {
				if x.TTL > 1<<30 || x.TTL < -(1<<30) {
					return false // expiry dates that the stores saturate
				}
			}
		}
	}
	return true
}

type diffRun struct {
	a, b *side
	tc   *diffCase
	seen int64
	sts  int64
	docs int64
	both *mismatch // a contradiction of the model on both
}

// do runs one operation on both sides.
func (d *diffRun) do(op *Op, record bool) *mismatch {
	o := *op
	if !d.a.e.settle(&o) {
		return nil
	}
	if record {
		d.tc.Ops = append(d.tc.Ops, o)
	}
	oa, ob := o, o
	now := vnow()
	ma := d.a.e.do(&oa)
	after := vnow()
	clockMs.Store(now)
	mb := d.b.e.do(&ob)
	clockMs.Store(after)
	la, lb := d.a.rec.take(), d.b.rec.take()
	d.seen += int64(len(la))
	for i := 0; i < len(la) && i < len(lb); i++ {
		if la[i] != lb[i] {
			x, y := around(showAnswer(la[i]), showAnswer(lb[i]))
			return mm("answer:"+o.K, nil, []string{"C24"}, "%s at %d answered differently:\n  %s: %s\n  %s: %s", o.K, now, d.tc.A, x, d.tc.B, y)
		}
	}
	if len(la) != len(lb) || (ma == nil) != (mb == nil) && (o.K == "timeout" || o.K == "unlock" || o.K == "ttl" || o.K == "exceed" || o.K == "recover") {
		t := ""
		if ma != nil {
			t = d.tc.A + ": " + ma.text
		}
		if mb != nil {
			t += " " + d.tc.B + ": " + mb.text
		}
		return mm("outcome:"+o.K, nil, []string{"C24"}, "%s at %d went differently: %s", o.K, now, t)
	}
	if ma != nil {
		d.both = ma
	} else if mb != nil {
		d.both = mb
	}
	return nil
}

// cmp compares what the two sides hold.
func (d *diffRun) cmp() *mismatch {
	x, err := d.a.state()
	if err != nil {
		return mm("state-error", nil, []string{"C24"}, "%s: %v", d.tc.A, err)
	}
	y, err := d.b.state()
	if err != nil {
		return mm("state-error", nil, []string{"C24"}, "%s: %v", d.tc.B, err)
	}
	d.sts++
	d.docs += int64(len(x))
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "nothing more", "nothing more"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			w := strings.Fields(p)
			k := "state"
			if len(w) > 0 {
				k += ":" + w[0]
			}
			p, q = around(p, q)
			return mm(k, nil, []string{"C24"}, "after the same calls at %d:\n  %s holds %s\n  %s holds %s", vnow(), d.tc.A, p, d.tc.B, q)
		}
	}
	return nil
}

func (d *diffRun) housekeep(record bool) *mismatch {
	if d.a.e.dueExpired() {
		return d.do(&Op{K: "ttl"}, record)
	}
	return nil
}

func (d *diffRun) drain() *mismatch {
	var far int64
	qs := map[string]bool{}
	for _, x := range d.a.e.m.all() {
		qs[x.q] = true
		if x.pool >= pFlight && x.due > far && x.due < vnow()+10*365*86400000 {
			far = x.due
		}
	}
	ops := []Op{}
	if n := far - vnow(); n > 0 {
		ops = append(ops, Op{K: "adv", Adv: n + 1})
	}
	for _, k := range []string{"ttl", "timeout", "unlock"} {
		ops = append(ops, Op{K: k})
	}
	for _, q := range sortedKeys(qs) {
		ops = append(ops, Op{K: "count", Q: q}, Op{K: "pull", Q: q, N: 1000, DL: 3600000})
	}
	for i := range ops {
		if r := d.do(&ops[i], false); r != nil || d.both != nil {
			return r
		}
	}
	return d.cmp()
}

func openPair(a, b string, wire bool) (*side, *side, func(), error) {
	x, err := newSide(a, wire)
	if err != nil {
		return nil, nil, nil, err
	}
	y, err := newSide(b, wire)
	if err != nil {
		x.e.w.close()
		return nil, nil, nil, err
	}
	return x, y, func() { x.e.w.close(); y.e.w.close() }, nil
}

// runDiff executes a history (given, or drawn from next) on both sides.
func runDiff(c *vk.Ctx, tc *diffCase, next func(e *engine) (Op, bool)) (*diffRun, *mismatch, error) {
	clockMs.Store(tc.Start)
	a, b, closeAll, err := openPair(tc.A, tc.B, tc.Wire)
	if err != nil {
		return nil, nil, err
	}
	defer closeAll()
	d := &diffRun{a: a, b: b, tc: tc}
	ops := tc.Ops
	record := next != nil
	if record {
		tc.Ops = nil
	}
	var m *mismatch
	for i := 0; m == nil && d.both == nil; i++ {
		var op Op
		if record {
			var ok bool
			if op, ok = next(a.e); !ok {
				break
			}
		} else {
			if i == len(ops) {
				break
			}
			op = ops[i]
		}
		c.Active("history on "+tc.A+" and "+tc.B, nil)
		if m = d.do(&op, record); m != nil || d.both != nil {
			break
		}
		if m = d.housekeep(record); m == nil && d.both == nil && i%9 == 8 && (len(a.e.m.ms) < 300 || i%180 == 8) {
			m = d.cmp()
		}
	}
	if m == nil && d.both == nil {
		m = d.cmp()
	}
	if m == nil && d.both == nil {
		m = d.drain()
	}
	c.Active("", nil)
	return d, m, nil
}

func shrinkDiff(c *vk.Ctx, tc *diffCase, m *mismatch, budget time.Duration) (*diffCase, *mismatch) {
	end := time.Now().Add(budget)
	best, bm := *tc, m
	for n := max(len(best.Ops)/2, 1); ; {
		changed := false
		for at := 0; at < len(best.Ops); {
			if time.Now().After(end) {
				return &best, bm
			}
			t := best
			t.Ops = append(append([]Op(nil), best.Ops[:at]...), best.Ops[min(at+n, len(best.Ops)):]...)
			var g *mismatch
			func() {
				defer func() { _ = recover() }()
				_, mm, err := runDiff(c, &t, nil)
				if err == nil && mm != nil && mm.key == m.key {
					g = mm
				}
			}()
			if g != nil {
				best, bm, changed = t, g, true
			} else {
				at += n
			}
		}
		if n > 1 {
			n /= 2
		} else if !changed {
			return &best, bm
		}
	}
}

var diffPairs = [][2]string{{"mm", "rg"}, {"mm", "rm"}, {"mm", "mg"}, {"mm", "rg"}, {"mm", "cg"}, {"rm", "mg"}, {"mm", "rg"}, {"mm", "cm"}, {"rg", "mm"}}

var diffProfiles = []*profile{
	{name: "general", w: with(baseWeights, map[string]int{"pull": 30, "edit": 4, "getq": 3, "exceed": 4, "ttl": 4, "unlock": 8, "timeout": 8}), names: "mixed", scores: []string{"small", "unique", "mixed", "extreme"}, locks: 35, rm: 8, bounds: 25, ttl: 25, update: 35, queues: 4, ids: 12, steps: 120},
	{name: "contents", w: with(baseWeights, map[string]int{"add": 35, "get": 12, "pull": 30, "ack": 18, "nack": 16}), names: "simple", scores: []string{"small", "unique", "mixed", "extreme"}, locks: 20, rm: 3, bounds: 10, ttl: 10, update: 50, rich: 70, queues: 2, ids: 6, steps: 90},
	{name: "limits", w: with(baseWeights, map[string]int{"edit": 14, "getq": 10, "exceed": 16, "add": 40, "ttl": 5, "recover": 3, "wipe": 2}), names: "mixed", scores: []string{"small", "unique", "mixed"}, locks: 25, rm: 5, bounds: 10, ttl: 60, update: 25, queues: 4, ids: 14, steps: 110},
	{name: "names", w: with(baseWeights, map[string]int{"remove": 10, "get": 8, "count": 8, "edit": 4, "getq": 4}), names: "hostile", scores: []string{"small", "unique", "mixed"}, locks: 30, rm: 5, bounds: 10, ttl: 10, update: 25, queues: 6, ids: 8, steps: 110},
}

func diffHistories(c *vk.Ctx, n int, frac float64) {
	cut := int64(0)
	for i := c.Shard; i < n && !c.Past(frac); i += max(c.Shards, 1) {
		r := c.Rand(vk.Hash("C24")%1000003 + uint64(i)*1000003)
		j := i / max(c.Shards, 1)
		p := diffProfiles[r.IntN(len(diffProfiles))]
		pr := diffPairs[j%len(diffPairs)]
		tc := &diffCase{A: pr[0], B: pr[1], Start: clockStart + r.Int64N(1000000), Wire: r.IntN(12) == 0}
		steps := p.steps/2 + r.IntN(p.steps)
		var g *gen
		k := 0
		var d *diffRun
		var m *mismatch
		var err error
		ok := c.Guard("history on "+tc.A+" and "+tc.B, tc, func() {
			d, m, err = runDiff(c, tc, func(e *engine) (Op, bool) {
				if g == nil {
					g = newGen(r, p, e, "mm")
					g.nonEmpty = true
				}
				if k++; k > steps {
					return Op{}, false
				}
				if k%7 == 0 {
					c.Distinct(tc.A + tc.B + e.signature())
				}
				return g.op(), true
			})
		})
		if !ok {
			return
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "world:", err)
			os.Exit(2)
		}
		c.Eval(1)
		c.Count("histories on "+tc.A+" and "+tc.B, 1)
		c.Count("histories of profile "+p.name, 1)
		c.Count("operations", int64(len(tc.Ops)))
		c.Count("answers compared pairwise", d.seen)
		c.Count("states compared", d.sts)
		c.Count("facts of states compared", d.docs)
		for k, v := range d.a.e.kinds {
			c.Count(k, v)
		}
		if i < 3 {
			c.Sample(map[string]any{"back ends": tc.A + " and " + tc.B, "first operations": brief(tc.Ops, 6)})
		}
		if m == nil {
			if d.both != nil {
				cut++
				c.Note("a history was cut short because both sides contradict the model in the same way: %.300s", d.both.text)
			}
			continue
		}
		small, sm := shrinkDiff(c, tc, m, 12*time.Second)
		c.Violation(sm.key, small, "%s", sm.text)
		if c.Violated() {
			return
		}
	}
	c.Count("histories cut short by a contradiction common to both", cut)
}

func init() {
	vk.Register(&vk.Check{Prop: "C24", Rule: "a distinct non-trivial case is a distinct abstract state (pool, storage presence and priority of every message, per pair of back ends) reached by both sides", Shards: 6, Assumptions: backendAssumptions,
		Run: func(c *vk.Ctx) {
			diffBulk(c)
			diffHistories(c, c.N(1800, 150000), 1)
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			var tc diffCase
			if err := json.Unmarshal(raw, &tc); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			c.Guard("history on "+tc.A+" and "+tc.B, &tc, func() {
				_, m, err := runDiff(c, &tc, nil)
				c.Eval(1)
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(2)
				}
				if m != nil {
					c.Violation(m.key, &tc, "%s", m.text)
				}
			})
		}})
}

// diffBulk: more messages than one command, pull or housekeeping run handles, in both stores.
func diffBulk(c *vk.Ctx) {
	ids := func(from, to int) (l []string) {
		for i := from; i < to; i++ {
			l = append(l, fmt.Sprintf("b%d", i))
		}
		return
	}
	spread := func(i int) float64 { return float64((i*7919)%2503 + 1) }
	each := func(k string, from, to int, f func(i int) Op) (ops []Op) {
		for i := from; i < to; i++ {
			o := f(i)
			o.K, o.Q, o.IDs = k, "q", []string{fmt.Sprintf("b%d", i)}
			ops = append(ops, o)
		}
		return
	}
	exp := addN("q", 2200, spread)
	for i := range exp.Msgs {
		exp.Msgs[i].Timeless, exp.Msgs[i].TTL = false, int64(5+(i*31)%2203)
	}
	cases := []struct {
		note string
		ops  []Op
	}{
		{"timeouts beyond one run", []Op{addN("q", 2500, spread), {K: "pull", Q: "q", N: 1000, DL: 1000}, {K: "pull", Q: "q", N: 1000, DL: 1200}, {K: "pull", Q: "q", N: 900, DL: 900}, {K: "adv", Adv: 1100}, {K: "timeout"}, {K: "pull", Q: "q", N: 7}, {K: "count", Q: "q"}, {K: "adv", Adv: 1100}, {K: "timeout"}}},
		{"unlocks beyond one run", cat([]Op{addN("q", 1300, spread), {K: "pull", Q: "q", N: 1000}, {K: "pull", Q: "q", N: 300}},
			each("ack", 0, 1100, func(i int) Op { return Op{Lock: int64(1000 + i%7), Score: F(1 + i%3*1000 + i)} }),
			each("nack", 1100, 1300, func(i int) Op { return Op{Lock: int64(900 + i)} }),
			[]Op{{K: "adv", Adv: 1005}, {K: "unlock"}, {K: "pull", Q: "q", N: 3}, {K: "adv", Adv: 3000}, {K: "unlock"}})},
		{"removal of many ids", []Op{addN("q", 2500, spread), addN("r", 1200, spread), {K: "remove", Q: "q", IDs: ids(0, 1500)}, {K: "remove", Q: "q", IDs: ids(1000, 2600)}, {K: "count", Q: "q"}, {K: "remove", Q: "r", IDs: ids(5, 1205)}}},
		{"eviction of many", []Op{exp, {K: "edit", Q: "q", V: 1700}, {K: "exceed"}, {K: "pull", Q: "q", N: 1000}, {K: "edit", Q: "q", V: 20}, {K: "exceed"}, {K: "count", Q: "q"}}},
		{"expiry of many", []Op{exp, {K: "pull", Q: "q", N: 500}, {K: "adv", Adv: 1500 * 60000}, {K: "ttl"}, {K: "count", Q: "q"}, {K: "adv", Adv: 900 * 60000}, {K: "ttl"}}},
		{"recovery of many", []Op{addN("q", 2500, spread), addN("r", 2100, spread), {K: "wipe"}, {K: "count", Q: "q"}, {K: "recover"}, {K: "pull", Q: "q", N: 1000}, {K: "pull", Q: "r", N: 1000}}},
	}
	for i, k := range cases {
		for j, p := range [][2]string{{"mm", "rg"}, {"mm", "cg"}, {"rm", "mg"}} {
			if c.Shards > 1 && (i*3+j)%c.Shards != c.Shard {
				continue
			}
			tc := &diffCase{A: p[0], B: p[1], Start: clockStart, Ops: k.ops}
			c.Guard(k.note, tc, func() {
				d, m, err := runDiff(c, tc, nil)
				fatal(err)
				c.Eval(1)
				c.Count("large fixed histories", 1)
				c.Count("answers compared pairwise", d.seen)
				c.Count("states compared", d.sts)
				if m != nil {
					c.Violation(m.key, tc, "%s: %s", k.note, m.text)
				} else if d.both != nil {
					c.Note("%s: both sides contradict the model in the same way: %.300s", k.note, d.both.text)
				}
			})
		}
	}
}
