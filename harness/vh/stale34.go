package main

import (
	"fmt"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// Housekeeping and configuration reads on a replica set whose secondary replicates nothing for a while.

func staleWorld(c *vk.Ctx, name, kind string, f func(w *world, kase any)) {
	kase := map[string]any{"scenario": name, "back ends": kind}
	c.Guard(name, kase, func() {
		clockMs.Store(clockStart)
		w, err := newWorld(worldOpts{kind: kind, prefix: "deckard", repl: true})
		fatal(err)
		defer w.close()
		f(w, kase)
		c.Eval(1)
		c.Count("reads served by a secondary that stopped replicating", w.mongo.SecondaryReads())
		c.Distinct(name + kind)
	})
}

// staleConfig: edits are read back and applied although the secondary does not know them.
func staleConfig(c *vk.Ctx) {
	for _, kind := range []string{"mg", "rg"} {
		staleWorld(c, "edits which the secondary has not seen", kind, func(w *world, kase any) {
			edit := func(q string, v int64) {
				_, err := w.api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: v}})
				fatal(err)
			}
			read := func(q string, want int64) {
				r, err := w.api.GetQueue(pctx(), &deckard.GetQueueRequest{Queue: q})
				fatal(err)
				if got := r.GetConfiguration().GetMaxElements(); got != want {
					c.Violation("edit-not-read-back", kase, "a successful edit of the maximum of %s to %d is read back as %d", q, want, got)
				}
			}
			add := func(q string, n int) {
				for i := 0; i < n; i++ {
					fatal(w.addSimple(q, fmt.Sprint("m", i), float64(i+1), int64(i+10)))
				}
			}
			count := func(q string, want int64) {
				r, err := w.api.Count(pctx(), &deckard.CountRequest{Queue: q})
				fatal(err)
				if r.Count != want {
					c.Violation("edit-not-applied", kase, "after the eviction %s has %d messages, want %d", q, r.Count, want)
				}
			}
			edit("a", 5)
			read("a", 5)
			edit("raised", 2)
			edit("lifted", 2)
			for _, q := range []string{"raised", "lifted", "new"} {
				add(q, 6)
			}
			w.mongo.Freeze(true)
			edit("a", 9)
			read("a", 9)
			read("a", 9)
			edit("b", 3)
			read("b", 3)
			read("c", 0)
			edit("c", 4)
			read("c", 4)
			edit("c", 7)
			read("c", 7)
			edit("new", 4)
			edit("raised", 5)
			edit("lifted", -1)
			_, err := queue.RemoveExceedingMessages(pctx(), w.q)
			fatal(err)
			w.mongo.Freeze(false)
			count("new", 4)
			count("raised", 5)
			count("lifted", 6)
		})
	}
}

func staleExpiry(c *vk.Ctx) {
	for _, kind := range []string{"mg", "rg"} {
		staleWorld(c, "a renewal which the secondary has not seen", kind, func(w *world, kase any) {
			fatal(w.addSimple("q", "m", 1, 1))
			fatal(w.addSimple("q", "n", 2, 1))
			w.mongo.Freeze(true)
			fatal(w.addSimple("q", "m", 1, 100))
			clockMs.Add(60_000)
			now := dtime.Now()
			_, err := queue.RemoveTTLMessages(pctx(), w.q, &now)
			fatal(err)
			w.mongo.Freeze(false)
			if w.found("q", "n") {
				c.Violation("expired-kept", kase, "an expired message the secondary knows is not removed")
			}
			if !w.found("q", "m") {
				c.Violation("renewal-not-replicated", kase, "a message whose renewal has not reached the secondary yet is removed although it has not expired")
			}
		})
	}
}

func staleEviction(c *vk.Ctx) {
	for _, kind := range []string{"mg", "rg"} {
		staleWorld(c, "removals which the secondary has not seen", kind, func(w *world, kase any) {
			for i := 0; i < 10; i++ {
				fatal(w.addSimple("q", fmt.Sprint("m", i), float64(i+1), int64(i+10)))
			}
			_, err := w.api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: 5}})
			fatal(err)
			w.mongo.Freeze(true)
			_, err = w.api.Remove(pctx(), &deckard.RemoveRequest{Queue: "q", Ids: []string{"m5", "m6", "m7", "m8", "m9"}})
			fatal(err)
			_, err = queue.RemoveExceedingMessages(pctx(), w.q)
			fatal(err)
			w.mongo.Freeze(false)
			left := 0
			for i := 0; i < 5; i++ {
				if w.found("q", fmt.Sprint("m", i)) {
					left++
				}
			}
			if left < 5 {
				c.Violation("removal-not-replicated", kase, "a queue of 5 messages with a maximum of 5 loses %d of them: the secondary still counts messages removed before", 5-left)
			}
		})
	}
}

func staleRecovery(c *vk.Ctx) {
	for _, kind := range []string{"rg", "cg"} {
		staleWorld(c, "adds which the secondary has not seen", kind, func(w *world, kase any) {
			fatal(w.addSimple("q", "m0", 1, 0))
			fatal(w.addSimple("q", "m1", 2, 0))
			w.mongo.Freeze(true)
			fatal(w.addSimple("q", "m2", 3, 0))
			w.redis.Wipe()
			for i := 0; i < 5 && queue.RecoveryMessagesPool(pctx(), w.q); i++ {
			}
			w.mongo.Freeze(false)
			for i := 0; i < 5 && queue.RecoveryMessagesPool(pctx(), w.q); i++ {
			}
			ids, err := w.pullIDs("q", 10, 1<<40)
			fatal(err)
			got := map[string]bool{}
			for _, id := range ids {
				got[id] = true
			}
			if !got["m0"] || !got["m1"] {
				c.Violation("stale-recovery", kase, "after a recovery from a secondary that knows m0 and m1 a pull returned %v", ids)
			}
			if !got["m2"] {
				c.Violation("add-not-replicated", kase, "a message added before the cache was lost, but not replicated when the recovery read it, is never delivered after the recovery")
			}
		})
	}
}
