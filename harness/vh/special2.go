package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zverif/fakeredis"
	"github.com/takenet/deckard/internal/zverif/vk"
)

func mustWorld(kind string) *world {
	clockMs.Store(clockStart)
	w, err := newWorld(worldOpts{kind: kind, prefix: "deckard"})
	fatal(err)
	return w
}

func (w *world) addSimple(q, id string, score float64, ttl int64) error {
	_, err := w.api.Add(pctx(), &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: id, Queue: q, Score: score, TtlMinutes: ttl, Timeless: ttl == 0}}})
	return err
}

func (w *world) pullIDs(q string, n int32, dl int64) (ids []string, err error) {
	r, err := w.api.Pull(pctx(), &deckard.PullRequest{Queue: q, Amount: n, AckDeadlineMs: dl})
	if err != nil {
		return nil, err
	}
	for _, m := range r.Messages {
		ids = append(ids, m.Id)
	}
	return
}

func (w *world) found(q, id string) bool {
	r, err := w.api.GetById(pctx(), &deckard.GetByIdRequest{Queue: q, Id: id})
	return err == nil && r.Found
}

// bulkTimeout: more messages than one run handles are all returned by later runs.
func bulkTimeout(c *vk.Ctx, kind string) {
	w := mustWorld(kind)
	defer w.close()
	kase := map[string]any{"scenario": "2300 overdue messages", "back ends": kind}
	c.Guard("bulk timeouts", kase, func() {
		for b := 0; b < 23; b++ {
			req := &deckard.AddRequest{}
			for i := 0; i < 100; i++ {
				req.Messages = append(req.Messages, &deckard.AddMessage{Id: fmt.Sprintf("m%d", b*100+i), Queue: "q", Score: float64(i + 1), Timeless: true})
			}
			if _, err := w.api.Add(pctx(), req); err != nil {
				c.Violation("bulk-add", kase, "add failed: %v", err)
				return
			}
		}
		for i := 0; i < 3; i++ {
			if _, err := w.pullIDs("q", 1000, 10); err != nil {
				c.Violation("bulk-pull", kase, "pull failed: %v", err)
				return
			}
		}
		clockMs.Add(10)
		seen := map[string]int{}
		for run := 1; run <= 3; run++ {
			_ = queue.ProcessTimeoutMessages(pctx(), w.q)
			for {
				ids, err := w.pullIDs("q", 1000, 1<<40)
				if err != nil {
					c.Violation("bulk-pull", kase, "pull failed: %v", err)
					return
				}
				if len(ids) == 0 {
					break
				}
				for _, id := range ids {
					seen[id]++
					if seen[id] > 1 {
						c.Violation("bulk-timeout-twice", kase, "%q came back twice", id)
						return
					}
				}
			}
			if want := min(run*1000, 2300); len(seen) < want {
				c.Violation("bulk-timeout", kase, "after %d housekeeping runs %d of 2300 overdue messages were available again, want at least %d", run, len(seen), want)
				return
			}
		}
		c.Eval(1)
		c.Count("timeouts", int64(len(seen)))
	})
}

// bulkUnlock: more locked messages than one run handles.
func bulkUnlock(c *vk.Ctx, kind string) {
	w := mustWorld(kind)
	defer w.close()
	kase := map[string]any{"scenario": "1500 due locks of each kind", "back ends": kind}
	c.Guard("bulk unlocks", kase, func() {
		for b := 0; b < 3; b++ {
			req := &deckard.AddRequest{}
			for i := 0; i < 1000; i++ {
				req.Messages = append(req.Messages, &deckard.AddMessage{Id: fmt.Sprintf("m%d", b*1000+i), Queue: "q", Score: float64(i + 1), Timeless: true})
			}
			_, err := w.api.Add(pctx(), req)
			fatal(err)
			ids, err := w.pullIDs("q", 1000, 1<<40)
			fatal(err)
			for i, id := range ids {
				call := w.api.Ack
				if i%2 == 0 {
					call = w.api.Nack
				}
				r, err := call(pctx(), &deckard.AckRequest{Queue: "q", Id: id, LockMs: 50})
				fatal(err)
				if !r.Success {
					c.Violation("bulk-lock", kase, "locking %q in flight is answered failure", id)
					return
				}
			}
		}
		clockMs.Add(50)
		seen := map[string]int{}
		for run := 1; run <= 2; run++ {
			queue.ProcessLockPool(pctx(), w.q)
			for {
				ids, err := w.pullIDs("q", 1000, 1<<40)
				fatal(err)
				if len(ids) == 0 {
					break
				}
				for _, id := range ids {
					if seen[id]++; seen[id] > 1 {
						c.Violation("bulk-unlock-twice", kase, "%q came back twice", id)
						return
					}
				}
			}
			if want := min(run*2000, 3000); len(seen) < want {
				c.Violation("bulk-unlock", kase, "after %d housekeeping runs %d of 3000 due locked messages were available again, want at least %d", run, len(seen), want)
				return
			}
		}
		c.Eval(1)
		c.Count("unlocks", int64(len(seen)))
	})
}

// bulkExpiry: more expired messages than one run removes.
func bulkExpiry(c *vk.Ctx, kind string) {
	w := mustWorld(kind)
	defer w.close()
	kase := map[string]any{"scenario": "10300 expired messages", "back ends": kind}
	c.Guard("bulk expiries", kase, func() {
		const early, late = 9900, 400
		for from := 0; from < early+late; from += 1000 {
			req := &deckard.AddRequest{}
			for i := from; i < min(from+1000, early+late); i++ {
				m := &deckard.AddMessage{Id: fmt.Sprintf("m%d", i), Queue: "q", Score: float64(early + late - i), TtlMinutes: 1}
				if i%25 == 7 && i < late*25 {
					m.TtlMinutes = 2
				}
				req.Messages = append(req.Messages, m)
			}
			_, err := w.api.Add(pctx(), req)
			fatal(err)
		}
		clockMs.Add(120000)
		for run, want := range []int64{300, 0} {
			now := dtime.Now()
			_, err := queue.RemoveTTLMessages(pctx(), w.q, &now)
			fatal(err)
			r, err := w.api.Count(pctx(), &deckard.CountRequest{Queue: "q"})
			fatal(err)
			if r.Count != want {
				c.Violation("bulk-expiry", kase, "after %d expiry runs %d of %d expired messages are left, want %d", run+1, r.Count, early+late, want)
				return
			}
			if run > 0 {
				break
			}
			now = now.Add(-60000 * 1e6)
			ms, err := w.st.Find(pctx(), &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q", ExpiryDate: &now}})
			fatal(err)
			if len(ms) > 0 {
				c.Violation("bulk-expiry-order", kase, "%d messages that expired first are left while %d later ones were removed", len(ms), late-300+len(ms))
				return
			}
		}
		c.Eval(1)
		c.Count("expiries", early+late)
	})
}

// bulkEvict: one eviction run removes the whole excess, however large.
func bulkEvict(c *vk.Ctx, kind string) {
	w := mustWorld(kind)
	defer w.close()
	const total, keep = 10900, 250
	kase := map[string]any{"scenario": fmt.Sprintf("eviction of all but %d of %d messages", keep, total), "back ends": kind}
	c.Guard("bulk eviction", kase, func() {
		ttl := func(i int) int64 { return 10 + int64(i)*7919%total }
		for from := 0; from < total; from += 1000 {
			req := &deckard.AddRequest{}
			for i := from; i < min(from+1000, total); i++ {
				req.Messages = append(req.Messages, &deckard.AddMessage{Id: fmt.Sprintf("m%d", i), Queue: "q::x", Score: float64(total - i), TtlMinutes: ttl(i)})
			}
			req.Messages = append(req.Messages, &deckard.AddMessage{Id: fmt.Sprintf("m%d", from), Queue: "q::y", Score: 1, TtlMinutes: 9})
			_, err := w.api.Add(pctx(), req)
			fatal(err)
		}
		ids, err := w.pullIDs("q::x", 300, 3600000)
		fatal(err)
		for _, id := range ids[:100] {
			_, err = w.api.Ack(pctx(), &deckard.AckRequest{Id: id, Queue: "q::x", LockMs: 1000})
			fatal(err)
		}
		_, err = w.api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: "q::x", Configuration: &deckard.QueueConfiguration{MaxElements: keep}})
		fatal(err)
		_, err = queue.RemoveExceedingMessages(pctx(), w.q)
		fatal(err)
		for q, want := range map[string]int64{"q::x": keep, "q::y": (total + 999) / 1000} {
			r, err := w.api.Count(pctx(), &deckard.CountRequest{Queue: q})
			fatal(err)
			if r.Count != want {
				c.Violation("bulk-eviction", kase, "after one eviction run %q holds %d messages, want %d", q, r.Count, want)
				return
			}
		}
		ms, err := w.st.Find(pctx(), &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q::x"}})
		fatal(err)
		for i := range ms {
			n := 0
			_, _ = fmt.Sscanf(ms[i].ID, "m%d", &n)
			if ttl(n) < 10+total-keep {
				c.Violation("bulk-eviction-order", kase, "%q, which expires after %d minutes, was kept while messages that expire later were evicted", ms[i].ID, ttl(n))
				return
			}
		}
		// and the cache holds exactly the kept ones
		clockMs.Add(3600001)
		fatal(queue.ProcessTimeoutMessages(pctx(), w.q))
		queue.ProcessLockPool(pctx(), w.q)
		ids, err = w.pullIDs("q::x", 1000, 1000)
		fatal(err)
		if kind[1] == 'g' && len(ids) != keep {
			c.Violation("bulk-eviction", kase, "after one eviction run %d messages of %d can be pulled", len(ids), keep)
			return
		}
		c.Eval(1)
		c.Count("evictions", total-keep)
	})
}

// evictExpired demonstrates the listed finding: with the in-memory storage, eviction overlooks
// expired messages that are still counted and removes live ones instead.
func evictExpired(c *vk.Ctx) {
	w := mustWorld("mm")
	defer w.close()
	kase := map[string]any{"scenario": "in-memory storage, maximum 2; one expired and two live messages"}
	c.Guard("evict expired", kase, func() {
		fatal(w.addSimple("q", "old", 1, 1))
		fatal(w.addSimple("q", "live1", 2, 100))
		fatal(w.addSimple("q", "live2", 3, 200))
		_, err := w.api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: 2}})
		fatal(err)
		clockMs.Add(60000)
		_, _ = queue.RemoveExceedingMessages(pctx(), w.q)
		c.Eval(1)
		if !w.found("q", "live1") || !w.found("q", "live2") {
			c.Violation("expired-not-evicted-first", kase, "a live message was evicted although an expired one made up the excess")
		}
	})
}

// evictDuringRecovery: neither eviction nor expiry removal may happen while a recovery is running.
func evictDuringRecovery(c *vk.Ctx) {
	for _, kind := range []string{"mg", "rg", "mm", "rm"} {
		kase := map[string]any{"scenario": "housekeeping while a recovery is running", "back ends": kind}
		c.Guard("evict during recovery", kase, func() {
			w := mustWorld(kind)
			defer w.close()
			for i := 0; i < 6; i++ {
				fatal(w.addSimple("q", fmt.Sprintf("m%d", i), float64(i+1), int64(1+i)))
			}
			_, err := w.api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: 2}})
			fatal(err)
			fatal(w.ca.Set(pctx(), cache.RECOVERY_RUNNING, "true"))
			clockMs.Add(60000)
			if w.redis != nil { // nor when whether one is running can not be found out
				now := dtime.Now()
				for _, act := range []fakeredis.Action{fakeredis.FailErr, fakeredis.DropReq} {
					w.redis.SetFault(func(x *fakeredis.Command) fakeredis.Action {
						if strings.EqualFold(x.Name, "get") {
							return act
						}
						return fakeredis.Pass
					})
					_, _ = queue.RemoveExceedingMessages(pctx(), w.q)
					_, _ = queue.RemoveTTLMessages(pctx(), w.q, &now)
					w.redis.SetFault(nil)
					r, err := w.api.Count(pctx(), &deckard.CountRequest{Queue: "q"})
					if err != nil || r.Count != 6 {
						c.Violation("evicted-during-recovery", kase, "6 messages before housekeeping during a recovery whose state could not be read, %v after (%v)", r, err)
						return
					}
				}
			}
			now := dtime.Now()
			_, _ = queue.RemoveExceedingMessages(pctx(), w.q)
			_, _ = queue.RemoveTTLMessages(pctx(), w.q, &now)
			c.Eval(1)
			r, err := w.api.Count(pctx(), &deckard.CountRequest{Queue: "q"})
			if err != nil || r.Count != 6 {
				c.Violation("evicted-during-recovery", kase, "6 messages before housekeeping during a recovery, %v after (%v)", r, err)
				return
			}
			fatal(w.ca.Set(pctx(), cache.RECOVERY_RUNNING, "false"))
			_, _ = queue.RemoveTTLMessages(pctx(), w.q, &now)
			_, _ = queue.RemoveExceedingMessages(pctx(), w.q)
			r, err = w.api.Count(pctx(), &deckard.CountRequest{Queue: "q"})
			if err != nil || r.Count != 2 {
				c.Violation("not-evicted-after-recovery", kase, "want 2 messages after housekeeping, %v (%v)", r, err)
			}
		})
	}
}

// addTwiceAtOnce: two clients add the same new message at the same time. Without a unique index MongoDB lets both
// upserts find nothing and insert.
func addTwiceAtOnce(c *vk.Ctx) {
	for _, kind := range []string{"mg", "rg"} {
		kase := map[string]any{"scenario": "two adds of one new message at the same time", "back ends": kind}
		c.Guard("two adds at once", kase, func() {
			w := mustWorld(kind)
			defer w.close()
			var in atomic.Int32
			both := make(chan struct{})
			w.mongo.SetUpsertGap(func() {
				if in.Add(1) == 2 {
					close(both)
				}
				select {
				case <-both:
				case <-time.After(time.Second): // the other one is kept from getting here
				}
			})
			var created atomic.Int64
			var wg sync.WaitGroup
			for i := 0; i < 2; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r, err := w.api.Add(pctx(), &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "m", Queue: "q", Timeless: true, Score: 5}}})
					if err == nil {
						created.Add(r.CreatedCount)
					}
				}()
			}
			wg.Wait()
			w.mongo.SetUpsertGap(nil)
			c.Eval(1)
			c.Count("pairs of adds of one message at the same time", 1)
			r, err := w.api.Count(pctx(), &deckard.CountRequest{Queue: "q"})
			fatal(err)
			if created.Load() != 1 || r.Count != 1 {
				c.Violation("created-twice-at-once", kase, "two concurrent adds of one new message report %d created, and the queue counts %d messages", created.Load(), r.Count)
			}
		})
	}
}

// oneBroken: a queue whose Redis keys only give errors holds up the housekeeping of no other queue.
func oneBroken(c *vk.Ctx, prop, kind string) {
	const n = 7
	for bad := 0; bad < n; bad++ {
		broken := fmt.Sprintf("{q%d}", bad)
		kase := map[string]any{"scenario": "one of seven queues fails", "back ends": kind, "failing": broken}
		ok := c.Guard("one broken queue", kase, func() {
			w := mustWorld(kind)
			defer w.close()
			left := 2
			for i := 0; i < n; i++ {
				q := fmt.Sprintf("q%d", i)
				fatal(w.addSimple(q, "a", 1, 10))
				fatal(w.addSimple(q, "b", 2, 20))
				switch prop {
				case "C14":
					left = 1
					_, err := w.api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: 1}})
					fatal(err)
					continue
				}
				ids, err := w.pullIDs(q, 10, 50)
				fatal(err)
				if len(ids) != 2 {
					fatal(fmt.Errorf("pulled %v of %s", ids, q))
				}
				if prop == "C06" {
					_, err = w.api.Ack(pctx(), &deckard.AckRequest{Queue: q, Id: "a", LockMs: 50})
					fatal(err)
					_, err = w.api.Nack(pctx(), &deckard.AckRequest{Queue: q, Id: "b", LockMs: 50})
					fatal(err)
				}
			}
			clockMs.Add(60)
			keep := func() {
				switch prop {
				case "C05":
					_ = queue.ProcessTimeoutMessages(pctx(), w.q)
				case "C06":
					queue.ProcessLockPool(pctx(), w.q)
				case "C14":
					_, _ = queue.RemoveExceedingMessages(pctx(), w.q)
				}
			}
			w.redis.SetFault(func(x *fakeredis.Command) fakeredis.Action {
				for _, k := range x.Args {
					if strings.Contains(k, broken) {
						return fakeredis.FailErr
					}
				}
				return fakeredis.Pass
			})
			keep()
			w.redis.SetFault(nil)
			check := func(i int, when string) bool {
				q := fmt.Sprintf("q%d", i)
				ids, err := w.pullIDs(q, 10, 600000)
				if err != nil || len(ids) != left {
					c.Violation("held-up", kase, "one queue of seven (%s) failed during a housekeeping run; %s queue %s offers %v, %v instead of %d messages", broken, when, q, ids, err, left)
					return false
				}
				return true
			}
			c.Eval(1)
			c.Count("runs with a failing queue", 1)
			for i := 0; i < n; i++ {
				if i != bad && !check(i, "after it") {
					return
				}
			}
			keep()
			check(bad, "after one more run")
		})
		if !ok || c.Violated() {
			return
		}
	}
}
