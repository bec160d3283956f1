package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// ---- injected delays ----

type jitter struct{ on atomic.Bool }

func (j *jitter) pause() {
	if !j.on.Load() {
		return
	}
	switch rand.IntN(8) {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
	case 4:
		time.Sleep(time.Duration(rand.IntN(60)) * time.Microsecond)
	}
}

type jitStorage struct {
	storage.Storage
	j *jitter
}

func (s *jitStorage) Insert(c context.Context, m ...*message.Message) (int64, int64, error) {
	s.j.pause()
	defer s.j.pause()
	return s.Storage.Insert(c, m...)
}
func (s *jitStorage) Find(c context.Context, o *storage.FindOptions) ([]message.Message, error) {
	s.j.pause()
	defer s.j.pause()
	return s.Storage.Find(c, o)
}
func (s *jitStorage) Remove(c context.Context, q string, ids ...string) (int64, error) {
	s.j.pause()
	defer s.j.pause()
	return s.Storage.Remove(c, q, ids...)
}
func (s *jitStorage) Ack(c context.Context, m *message.Message) (int64, error) {
	s.j.pause()
	defer s.j.pause()
	return s.Storage.Ack(c, m)
}
func (s *jitStorage) Nack(c context.Context, m *message.Message) (int64, error) {
	s.j.pause()
	defer s.j.pause()
	return s.Storage.Nack(c, m)
}

// recCache injects delays and reports what the housekeeping calls returned.
type recCache struct {
	cache.Cache
	j      *jitter
	onMove func(kind int, q string, ids []string, call, tcall int64)
	stamp  func() int64
}

func (s *recCache) TimeoutMessages(c context.Context, q string) ([]string, error) {
	s.j.pause()
	a, t := s.stamp(), vnow()
	ids, err := s.Cache.TimeoutMessages(c, q)
	s.onMove(eTimeout, q, ids, a, t)
	return ids, err
}
func (s *recCache) UnlockMessages(c context.Context, q string, lt cache.LockType) ([]string, error) {
	s.j.pause()
	a, t := s.stamp(), vnow()
	ids, err := s.Cache.UnlockMessages(c, q, lt)
	k := eUnlockA
	if lt == cache.LOCK_NACK {
		k = eUnlockN
	}
	s.onMove(k, q, ids, a, t)
	return ids, err
}
func (s *recCache) PullMessages(c context.Context, q string, n int64, lo, hi *float64, dl int64) ([]string, error) {
	s.j.pause()
	defer s.j.pause()
	return s.Cache.PullMessages(c, q, n, lo, hi, dl)
}
func (s *recCache) MakeAvailable(c context.Context, m *message.Message) (bool, error) {
	s.j.pause()
	return s.Cache.MakeAvailable(c, m)
}
func (s *recCache) Insert(c context.Context, q string, m ...*message.Message) ([]string, error) {
	s.j.pause()
	return s.Cache.Insert(c, q, m...)
}

// ---- a stress round ----

type roundCase struct {
	Kind    string
	Seed    uint64
	Clients int
	Ops     int
	Queues  int
	Hot     int
	Locks   int
	Readd   int
	Jitter  bool
	Inst    int `json:",omitempty"` // instances sharing the back ends
}

type callKey struct{}

type callRec struct {
	mu sync.Mutex
	es []audit.Entry
}

// ctxAuditor gives entries to the call that caused them.
type ctxAuditor struct{}

func (ctxAuditor) Store(c context.Context, e audit.Entry) {
	if r, ok := c.Value(callKey{}).(*callRec); ok {
		r.mu.Lock()
		r.es = append(r.es, e)
		r.mu.Unlock()
	}
}

type liveID struct {
	q, id   string
	mu      sync.Mutex
	gone    bool // claimed for removal: never added again
	adding  int
	added   bool
	acks    int64
	nacks   int64
	evs     []lev
	removed atomic.Bool
}

type round struct {
	rc    roundCase
	w     *world
	ws    []*world
	seq   atomic.Int64
	mu    sync.Mutex
	live  []*liveID
	byKey sync.Map // key -> *liveID
	next  atomic.Int64
	fail  atomic.Pointer[mismatch]
	stats map[string]int64
	// answers
	dups int
}

func (r *round) stamp() int64 { return r.seq.Add(1) }

func (r *round) failf(keyName string, props []string, f string, a ...any) {
	r.fail.CompareAndSwap(nil, mm(keyName, nil, props, f, a...))
}

func (r *round) look(q, id string) *liveID {
	if v, ok := r.byKey.Load(key{q, id}); ok {
		return v.(*liveID)
	}
	return nil
}

func (l *liveID) put(e lev) {
	l.mu.Lock()
	l.evs = append(l.evs, e)
	l.mu.Unlock()
}

func (r *round) pickLive(g *rand.Rand, n int) *liveID {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.live) == 0 {
		return nil
	}
	return r.live[max(0, len(r.live)-n)+g.IntN(min(n, len(r.live)))]
}

func (r *round) qname(i int) string { return fmt.Sprintf("w%d::x", i) }

func (r *round) addNew(c context.Context, g *rand.Rand, who string, n int) {
	req := &deckard.AddRequest{}
	var ls []*liveID
	for i := 0; i < n; i++ {
		l := &liveID{q: r.qname(g.IntN(r.rc.Queues)), id: fmt.Sprintf("n%d", r.next.Add(1))}
		r.byKey.Store(key{l.q, l.id}, l)
		ls = append(ls, l)
		req.Messages = append(req.Messages, msgFor(l, g))
	}
	a, t := r.stamp(), vnow()
	resp, err := r.w.api.Add(c, req)
	b, t2 := r.stamp(), vnow()
	if err != nil {
		r.failf("stress-add-error", []string{"C04"}, "add failed: %v", err)
		return
	}
	if resp.CreatedCount != int64(n) || resp.UpdatedCount != 0 {
		r.failf("stress-add-count", []string{"C08", "C04"}, "add of %d new messages answered %v", n, resp)
	}
	for _, l := range ls {
		l.added = true
		l.put(lev{call: a, ret: b, tcall: t, tret: t2, kind: eAdd, who: who})
	}
	r.mu.Lock()
	r.live = append(r.live, ls...)
	r.mu.Unlock()
}

func msgFor(l *liveID, g *rand.Rand) *deckard.AddMessage {
	return &deckard.AddMessage{Id: l.id, Queue: l.q, Score: float64(1 + g.IntN(20)), Timeless: true, StringPayload: "p-" + l.q + "-" + l.id, Metadata: map[string]string{"id": l.id}}
}

func (r *round) client(ci int, g *rand.Rand) {
	who := fmt.Sprintf("c%d", ci)
	type held struct{ l *liveID }
	var mine []held
	for op := 0; op < r.rc.Ops && r.fail.Load() == nil; op++ {
		rec := &callRec{}
		api := r.ws[0].api
		if len(r.ws) > 1 {
			api = r.ws[g.IntN(len(r.ws))].api
		}
		c := context.WithValue(context.Background(), callKey{}, rec)
		switch x := g.IntN(100); {
		case x < 36:
			q := r.qname(g.IntN(r.rc.Queues))
			n := int32(1 + g.IntN(4))
			dl := int64(1 + g.IntN(30))
			if g.IntN(4) == 0 {
				dl = 100000
			}
			req := &deckard.PullRequest{Queue: q, Amount: n, AckDeadlineMs: dl}
			if g.IntN(5) == 0 {
				req.MaxScore = float64(1 + g.IntN(20))
			}
			a, t := r.stamp(), vnow()
			resp, err := api.Pull(c, req)
			b, t2 := r.stamp(), vnow()
			if err != nil {
				r.failf("stress-pull-error", []string{"C04", "C01"}, "pull failed: %v", err)
				return
			}
			if len(resp.Messages) > int(n) {
				r.failf("stress-too-many", []string{"C01", "C03"}, "pull of %d returned %d messages", n, len(resp.Messages))
			}
			once := map[string]bool{}
			for _, m := range resp.Messages {
				if once[m.Id] {
					r.failf("twice", []string{"C03", "C04"}, "one pull returned %q twice", m.Id)
				}
				once[m.Id] = true
				l := r.look(m.Queue, m.Id)
				if l == nil || m.Queue != q {
					r.failf("stress-unknown", []string{"C11", "C04"}, "pull from %q returned unknown message %q of %q", q, m.Id, m.Queue)
					return
				}
				if m.StringPayload != "p-"+m.Queue+"-"+m.Id || m.Metadata["id"] != m.Id {
					r.failf("stress-content", []string{"C09"}, "pull returned %q with payload %q", m.Id, m.StringPayload)
				}
				l.put(lev{call: a, ret: b, tcall: t, tret: t2, kind: eDeliver, dl: dl, who: who})
				mine = append(mine, held{l})
			}
			for _, e := range rec.es {
				if e.Signal == audit.MISSING_STORAGE {
					if l := r.look(e.Queue, e.ID); l != nil {
						if !l.gone {
							r.failf("stress-missing", []string{"C04"}, "%q of %q was dropped as missing in storage although nobody removed it", e.ID, e.Queue)
						}
						l.put(lev{call: a, ret: b, tcall: t, tret: t2, kind: eDeliver, dl: dl, who: who + "(lost)"})
						l.put(lev{call: a, ret: b, tcall: t, tret: t2, kind: eForget, who: who})
					}
				}
			}
			if len(mine) > 12 {
				mine = mine[len(mine)-12:] // the others time out
			}
		case x < 76:
			var l *liveID
			if len(mine) > 0 && g.IntN(8) > 0 {
				i := g.IntN(len(mine))
				l = mine[i].l
				mine = append(mine[:i], mine[i+1:]...)
			} else {
				l = r.pickLive(g, 30)
			}
			if l == nil {
				continue
			}
			req := &deckard.AckRequest{Id: l.id, Queue: l.q}
			if g.IntN(2) == 0 {
				req.Score = float64(1 + g.IntN(20))
			}
			if g.IntN(100) < r.rc.Locks {
				req.LockMs = int64(1 + g.IntN(20))
			}
			nack := g.IntN(2) == 0
			a, t := r.stamp(), vnow()
			var resp *deckard.AckResponse
			var err error
			if nack {
				resp, err = api.Nack(c, req)
			} else {
				resp, err = api.Ack(c, req)
			}
			b, t2 := r.stamp(), vnow()
			if err != nil {
				r.failf("stress-ack-error", []string{"C07", "C04"}, "ack failed: %v", err)
				return
			}
			l.mu.Lock()
			if nack {
				l.nacks++
			} else {
				l.acks++
			}
			l.mu.Unlock()
			k := eAckFail
			if resp.Success {
				k = eAckOK
				if req.LockMs > 0 {
					k = eLockA
					if nack {
						k = eLockN
					}
				}
			}
			l.put(lev{call: a, ret: b, tcall: t, tret: t2, kind: k, dl: req.LockMs, who: who})
		case x < 84:
			r.addNew(c, g, who, 1+g.IntN(3))
		case x < 84+r.rc.Readd:
			l := r.pickLive(g, r.rc.Hot)
			if l == nil {
				continue
			}
			l.mu.Lock()
			if l.gone {
				l.mu.Unlock()
				continue
			}
			l.adding++
			l.mu.Unlock()
			a, t := r.stamp(), vnow()
			resp, err := api.Add(c, &deckard.AddRequest{Messages: []*deckard.AddMessage{msgFor(l, g)}})
			b, t2 := r.stamp(), vnow()
			l.put(lev{call: a, ret: b, tcall: t, tret: t2, kind: eAdd, who: who})
			l.mu.Lock()
			l.adding--
			l.mu.Unlock()
			if err != nil || resp.CreatedCount != 0 || resp.UpdatedCount != 1 {
				r.failf("stress-readd", []string{"C08", "C04"}, "adding %q of %q again answered %v %v", l.id, l.q, resp, err)
				return
			}
		case x < 97:
			if l := r.pickLive(g, 40); l != nil {
				l.mu.Lock()
				gone := l.gone
				l.mu.Unlock()
				resp, err := api.GetById(c, &deckard.GetByIdRequest{Queue: l.q, Id: l.id})
				if err != nil || !gone && !resp.Found && !l.isGone() {
					r.failf("stress-get", []string{"C04", "C09"}, "lookup of live %q of %q: %v %v", l.id, l.q, resp, err)
				}
			}
		default:
			l := r.pickLive(g, 60)
			if l == nil {
				continue
			}
			l.mu.Lock()
			if l.gone || l.adding > 0 {
				l.mu.Unlock()
				continue
			}
			l.gone = true
			l.mu.Unlock()
			a, t := r.stamp(), vnow()
			resp, err := api.Remove(c, &deckard.RemoveRequest{Queue: l.q, Ids: []string{l.id}})
			b, t2 := r.stamp(), vnow()
			if err != nil || resp.StorageRemoved != 1 {
				r.failf("stress-remove", []string{"C12", "C04"}, "removal of live %q of %q answered %v %v", l.id, l.q, resp, err)
				return
			}
			l.removed.Store(true)
			l.put(lev{call: a, ret: b, tcall: t, tret: t2, kind: eRemove, flag: resp.CacheRemoved == 1, who: who})
		}
	}
}

func (l *liveID) isGone() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.gone
}

func runRound(rc roundCase) (r *round, m *mismatch, err error) {
	clockMs.Store(clockStart)
	r = &round{rc: rc, stats: map[string]int64{}}
	j := &jitter{}
	opts := worldOpts{kind: rc.Kind, prefix: "deckard", aud: ctxAuditor{},
		wrapS: func(s storage.Storage) storage.Storage { return &jitStorage{s, j} },
		wrapC: func(ca cache.Cache) cache.Cache {
			return &recCache{Cache: ca, j: j, stamp: r.stamp, onMove: func(kind int, q string, ids []string, call, tcall int64) {
				b, t2 := r.stamp(), vnow()
				for _, id := range ids {
					if l := r.look(q, id); l != nil {
						l.put(lev{call: call, ret: b, tcall: tcall, tret: t2, kind: kind, who: "housekeeper"})
					} else {
						r.failf("stress-housekeeper-unknown", []string{"C11", "C05", "C06"}, "housekeeping of %q reported unknown message %q", q, id)
					}
				}
			}}
		}}
	w, err := newWorld(opts)
	if err != nil {
		return r, nil, err
	}
	defer w.close()
	r.w, r.ws = w, []*world{w}
	for len(r.ws) < rc.Inst {
		o := opts
		o.redis, o.mongo, o.lag = w.redis, w.mongo, w.lag
		x, err := newWorld(o)
		if err != nil {
			return r, nil, err
		}
		defer x.close()
		r.ws = append(r.ws, x)
	}
	g := rand.New(rand.NewPCG(rc.Seed, 99))
	for i := 0; i < rc.Hot; i++ {
		r.addNew(context.Background(), g, "setup", 1)
	}
	j.on.Store(rc.Jitter)
	var wg, hk sync.WaitGroup
	stop := make(chan struct{})
	for h := 0; h < max(2, len(r.ws)); h++ {
		w := r.ws[h%len(r.ws)]
		hk.Add(1)
		go func() {
			defer hk.Done()
			g := rand.New(rand.NewPCG(rc.Seed, uint64(1000+h)))
			for {
				select {
				case <-stop:
					return
				default:
				}
				if h != 1 || g.IntN(2) == 0 {
					_ = queue.ProcessTimeoutMessages(context.Background(), w.q)
				}
				if h == 1 || g.IntN(2) == 0 {
					queue.ProcessLockPool(context.Background(), w.q)
				}
				if h == 0 {
					clockMs.Add(int64(g.IntN(4)))
				}
				time.Sleep(time.Duration(g.IntN(100)) * time.Microsecond)
			}
		}()
	}
	for ci := 0; ci < rc.Clients; ci++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.client(ci, rand.New(rand.NewPCG(rc.Seed, uint64(ci))))
		}()
	}
	wg.Wait()
	close(stop)
	hk.Wait()
	j.on.Store(false)
	if f := r.fail.Load(); f != nil {
		return r, f, nil
	}
	return r, r.judge(), nil
}

func (r *round) all() (ls []*liveID) {
	r.byKey.Range(func(_, v any) bool {
		ls = append(ls, v.(*liveID))
		return true
	})
	sort.Slice(ls, func(i, j int) bool { return ls[i].q+ls[i].id < ls[j].q+ls[j].id })
	return
}

func (r *round) judge() *mismatch {
	ls := r.all()
	// exclusivity: the events of every message fit the life of one message
	for _, l := range ls {
		ok, dec, states := linearizable(l.evs, false, 2_000_000)
		r.stats["events"] += int64(len(l.evs))
		r.stats["search states"] += int64(states)
		if !dec {
			r.stats["undecided messages"]++
			continue
		}
		r.stats["messages decided"]++
		for _, e := range l.evs {
			r.stats[evName[e.kind]]++
		}
		if !ok {
			return mm("not-linearizable", nil, []string{"C03", "C04"}, "the deliveries and releases of %q of %q fit no order in which it is in one place at a time:\n%s", l.id, l.q, history(l.evs))
		}
		if ok, dec, _ := linearizable(l.evs, true, 2_000_000); dec && !ok {
			return mm("too-early", nil, []string{"C05", "C06"}, "%q of %q was released by housekeeping before its deadline or lock had ended:\n%s", l.id, l.q, history(l.evs))
		}
	}
	// conservation: count, then a drain that obtains every live message once
	clockMs.Add(3600_000)
	if err := queue.ProcessTimeoutMessages(pctx(), r.w.q); err != nil {
		return mm("stress-timeout", nil, []string{"C04"}, "timeout housekeeping failed: %v", err)
	}
	queue.ProcessLockPool(pctx(), r.w.q)
	want := map[string]int64{}
	for _, l := range ls {
		if !l.gone && l.added {
			want[l.q]++
		}
	}
	seen := map[key]bool{}
	for qi := 0; qi < r.rc.Queues; qi++ {
		q := r.qname(qi)
		resp, err := r.w.api.Count(pctx(), &deckard.CountRequest{Queue: q})
		if err != nil || resp.Count != want[q] {
			return mm("stress-count", nil, []string{"C04"}, "count of %q is %v (%v), want %d", q, resp, err, want[q])
		}
		for i := 0; i < 50; i++ {
			resp, err := r.w.api.Pull(pctx(), &deckard.PullRequest{Queue: q, Amount: 1000, AckDeadlineMs: 1 << 40})
			if err != nil {
				return mm("stress-drain", nil, []string{"C04"}, "pull failed: %v", err)
			}
			if len(resp.Messages) == 0 {
				break
			}
			for _, m := range resp.Messages {
				k := key{m.Queue, m.Id}
				l := r.look(m.Queue, m.Id)
				switch {
				case l == nil || m.Queue != q:
					return mm("stress-drain-unknown", nil, []string{"C04", "C11"}, "drain of %q returned unknown %q", q, m.Id)
				case seen[k]:
					return mm("stress-duplicate", nil, []string{"C04", "C03"}, "drain of %q returned %q twice:\n%s", q, m.Id, history(l.evs))
				case l.gone:
					return mm("stress-revived", nil, []string{"C04", "C12"}, "drain of %q returned removed message %q:\n%s", q, m.Id, history(l.evs))
				}
				seen[k] = true
				d := m.GetDiagnostics()
				if d.GetAcks() != l.acks || d.GetNacks() != l.nacks {
					return mm("stress-diagnostics", nil, []string{"C10", "C18"}, "%q of %q has acks=%d nacks=%d after %d and %d calls:\n%s", m.Id, q, d.GetAcks(), d.GetNacks(), l.acks, l.nacks, history(l.evs))
				}
			}
		}
	}
	for _, l := range ls {
		if l.added && !l.gone && !seen[key{l.q, l.id}] {
			return mm("stress-lost", nil, []string{"C04"}, "%q of %q was never removed but is not obtained by the drain:\n%s", l.id, l.q, history(l.evs))
		}
		if l.removed.Load() && r.w.found(l.q, l.id) {
			return mm("stress-found", nil, []string{"C12", "C04"}, "removed %q of %q is still found", l.id, l.q)
		}
	}
	r.stats["messages drained"] += int64(len(seen))
	return nil
}

func history(evs []lev) (s string) {
	sort.Slice(evs, func(i, j int) bool { return evs[i].call < evs[j].call })
	from := max(0, len(evs)-25)
	if from > 0 {
		s = fmt.Sprintf("  ... %d earlier events\n", from)
	}
	for _, e := range evs[from:] {
		s += "  " + e.String() + "\n"
	}
	return
}

// interleaving is a signature of how the calls of all messages overlapped.
func (r *round) interleaving() string {
	var all []lev
	for _, l := range r.all() {
		all = append(all, l.evs...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].ret < all[j].ret })
	b := make([]byte, 0, 3*len(all))
	for _, e := range all {
		b = append(b, byte(e.kind), e.who[len(e.who)-1])
	}
	return r.rc.Kind + string(b)
}

func stress(c *vk.Ctx, prop string, rounds int, frac float64) {
	other := int64(0)
	for i := c.Shard; i < rounds && !c.Past(frac); i += c.Shards {
		g := c.Rand(uint64(50_000_000 + i))
		rc := roundCase{Kind: []string{"mm", "mm", "rm", "mm", "rg", "mm", "cg"}[i/c.Shards%7], Seed: g.Uint64(), Clients: 3 + g.IntN(6), Ops: 40 + g.IntN(120), Queues: 1 + g.IntN(3), Hot: 2 + g.IntN(12), Locks: g.IntN(50), Readd: g.IntN(10), Jitter: g.IntN(4) > 0}
		if prop == "C31" {
			rc.Kind, rc.Inst = []string{"rg", "cg"}[g.IntN(2)], 2+g.IntN(2)
		}
		if rc.Kind != "mm" {
			rc.Ops /= 2
		}
		var r *round
		var m *mismatch
		var err error
		c.Active("stress round on "+rc.Kind, rc)
		if !c.Guard("stress round on "+rc.Kind, rc, func() { r, m, err = runRound(rc) }) {
			return
		}
		c.Active("", nil)
		fatal(err)
		c.Eval(1)
		c.Count("stress rounds on "+rc.Kind, 1)
		for k, v := range r.stats {
			c.Count("stress: "+k, v)
		}
		c.Distinct(r.interleaving())
		if m == nil {
			continue
		}
		if !m.props[prop] && prop != "C31" {
			other++
			c.Note("a round ended with an observation that contradicts another property (%v): %.300s", sortedKeys(m.props), m.text)
			continue
		}
		c.Violation(m.key, rc, "on %s back ends, %d clients: %s", rc.Kind, rc.Clients, m.text)
		return
	}
	c.Count("stress rounds cut short by another property", other)
}

// replayStress repeats a round until the contradiction shows again.
func replayStress(c *vk.Ctx, prop string, raw json.RawMessage) bool {
	var rc roundCase
	if json.Unmarshal(raw, &rc) != nil || rc.Clients == 0 {
		return false
	}
	for i := 0; i < 500 && time.Since(c.Start) < 120*time.Second; i++ {
		_, m, err := runRound(rc)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.Eval(1)
		if m != nil && (m.props[prop] || prop == "C31") {
			c.Violation(m.key, rc, "%s", m.text)
			break
		}
	}
	return true
}
