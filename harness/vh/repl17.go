package main

import (
	"context"
	"fmt"
	"sort"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// primaryLost: while the primary of a MongoDB replica set cannot be reached and its secondary has not
// seen all messages yet, pulls may fail, but no message may be dropped as if it did not exist.
func primaryLost(c *vk.Ctx, prop string) {
	for _, kind := range []string{"mg", "rg", "cg"} {
		for n := int32(1); n <= 5; n += 2 {
			if c.Violated() {
				return
			}
			kase := map[string]any{"scenario": "pull while the primary is unreachable and the secondary lags", "back ends": kind, "amount": n}
			c.Guard("primary lost", kase, func() {
				clockMs.Store(clockStart)
				w, err := newWorld(worldOpts{kind: kind, prefix: "deckard", repl: true})
				fatal(err)
				defer w.close()
				want := []string{}
				for i := 0; i < 5; i++ {
					id := fmt.Sprint("m", i)
					want = append(want, id)
					fatal(w.addSimple("q", id, float64(i+1), 0))
				}
				w.mongo.SetLag(func(id string) bool { return id == "m0" || id == "m3" })
				w.mongo.LosePrimary(true)
				ctx, cancel := context.WithTimeout(pctx(), 1500*time.Millisecond)
				r, err := w.api.Pull(ctx, &deckard.PullRequest{Queue: "q", Amount: n, AckDeadlineMs: 1000})
				cancel()
				if err != nil {
					c.Count("pulls that failed without a primary", 1)
				} else {
					c.Count("pulls answered without a primary", 1)
					if len(r.Messages) > int(n) {
						c.Violation("primary-lost", kase, "a pull of %d answered with %d messages", n, len(r.Messages))
					}
				}
				w.mongo.LosePrimary(false)
				up := false
				for end := time.Now().Add(90 * time.Second); time.Now().Before(end) && !up; {
					ctx, cancel := context.WithTimeout(pctx(), 20*time.Second)
					_, err := w.api.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "x", Queue: "other", Timeless: true}}})
					cancel()
					up = err == nil
				}
				if !up {
					c.Violation("primary-back", kase, "adds still fail 90 s after the primary came back")
					return
				}
				clockMs.Add(2000)
				_ = queue.ProcessTimeoutMessages(pctx(), w.q)
				got := []string{}
				for {
					ids, err := w.pullIDs("q", 10, 1<<40)
					fatal(err)
					if len(ids) == 0 {
						break
					}
					got = append(got, ids...)
				}
				sort.Strings(got)
				c.Eval(1)
				c.Distinct(fmt.Sprint("primary lost ", kind, n))
				if fmt.Sprint(got) != fmt.Sprint(want) {
					c.Violation("primary-lost", kase, "after a pull of %d while the primary was unreachable and the secondary had not seen m0 and m3 yet, the messages still delivered are %v, want %v", n, got, want)
				}
			})
		}
	}
}
