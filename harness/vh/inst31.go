package main

import (
	"encoding/json"
	"math/rand/v2"
	"strings"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// C31: several instances on one Redis and one MongoDB, judged by the model of a single one.

func openInstances(n int) func(tc *traceCase) (*world, error) {
	return func(tc *traceCase) (*world, error) {
		w, err := newWorld(worldOpts{kind: tc.Kind, prefix: "deckard", repl: tc.Repl})
		if err != nil {
			return w, err
		}
		w.group = []*world{w}
		for i := 1; i < n; i++ {
			if err := w.join(i); err != nil {
				w.close()
				return nil, err
			}
		}
		w.closers = append(w.closers, func() {
			for _, x := range w.group[1:] {
				x.close()
			}
		})
		return w, nil
	}
}

// join puts a new instance in place i of the group.
func (w *world) join(i int) error {
	x, err := newWorld(worldOpts{kind: w.kind, prefix: w.prefix, aud: w.aud, redis: w.redis, mongo: w.mongo, lag: w.lag})
	if err != nil {
		return err
	}
	x.rec = w.rec
	if i < len(w.group) {
		w.group[i].close()
		w.group[i] = x
	} else {
		w.group = append(w.group, x)
	}
	return nil
}

func instEnv() traceEnv {
	return traceEnv{
		open: openInstances(3),
		route: func(r *rand.Rand, op *Op) int {
			switch op.K {
			case "edit", "getq": // a configuration may be read stale elsewhere
				return 0
			}
			on := r.IntN(3)
			if on > 0 && r.IntN(40) == 0 {
				on += 8
			}
			return on
		},
		at: func(e *engine, op *Op) error {
			g := e.w.home()
			i := op.On % 8 % len(g.group)
			if op.On >= 8 && i > 0 {
				if err := g.join(i); err != nil {
					return err
				}
				e.obs("instances replaced", 1)
			}
			e.w = g.group[i]
			e.w.first = g
			if op.K != "adv" {
				e.obs("operations on another instance than the first", int64(min(i, 1)))
			}
			return nil
		},
	}
}

// home is the world that holds the group.
func (w *world) home() *world {
	if w.first != nil {
		return w.first
	}
	return w
}

// staleEdit: one instance has cached a maximum, another changes it, and the
// first sets its own again: that edit must be stored.
func staleEdit(c *vk.Ctx) {
	kase := map[string]any{"staleEdit": true}
	c.Guard("edits of one maximum on two instances", kase, func() {
		clockMs.Store(clockStart)
		w, err := openInstances(2)(&traceCase{Kind: "rg"})
		fatal(err)
		defer w.close()
		edit := func(on int, max int64) {
			a, err := w.group[on].api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: max}})
			if err != nil || !a.Success {
				c.Violation("edit-refused", kase, "an edit on instance %d is answered %v, %v", on, a, err)
			}
		}
		read := func(on int) int64 {
			a, err := w.group[on].api.GetQueue(pctx(), &deckard.GetQueueRequest{Queue: "q"})
			if err != nil || a.Configuration == nil {
				c.Violation("edit-unreadable", kase, "reading the maximum on instance %d: %v, %v", on, a, err)
				return -1
			}
			return a.Configuration.MaxElements
		}
		edit(0, 5)
		first := read(0)
		edit(1, 10)
		second := read(1)
		edit(0, 5)
		fatal(w.join(2))
		c.Eval(1)
		c.Count("edits of one maximum on two instances", 3)
		if third := read(2); first != 5 || second != 10 {
			c.Violation("edit-lost", kase, "edits to 5 and 10 on two instances are read back as %d and %d there", first, second)
		} else if third != 5 {
			c.Violation("edit-skipped-by-stale-cache", kase, "maximum set to 5 on instance A (and read there), to 10 on B, then to 5 on A, each answered with success: a new instance reads %d", third)
		}
	})
}

func init() {
	p := &profile{name: "C31", w: with(baseWeights, map[string]int{"timeout": 8, "unlock": 8, "ttl": 5, "exceed": 3, "edit": 3, "getq": 2, "wipe": 1, "recover": 3}), names: "mixed",
		scores: []string{"small", "unique", "mixed", "extreme"}, locks: 40, rm: 8, bounds: 15, ttl: 20, update: 25, queues: 4, ids: 12, kinds: []string{"rg", "cg"}, steps: 110}
	run := func(c *vk.Ctx) {
		env = instEnv()
		env.mine = func(_ *vk.Ctx, _ *traceCase, m *mismatch) { m.props["C31"] = true }
	}
	vk.Register(&vk.Check{Prop: "C31", Rule: traceRule + ", or a distinct interleaving of a concurrent round", Shards: 6, QuickS: 40, ThoroughS: 400, Assumptions: backendAssumptions,
		Run: func(c *vk.Ctx) {
			if c.Shard == 0 {
				staleEdit(c)
			}
			bubbles(c, "config", c.N(20, 100000), 0.15)
			stress(c, "C31", c.N(500, 60000), 0.5)
			run(c)
			explore(c, "C31", p, c.N(3000, 200000), 1)
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			if strings.Contains(string(raw), "staleEdit") {
				staleEdit(c)
			} else if !replayBubble(c, raw) && !replayStress(c, "C31", raw) {
				run(c)
				replayTrace("C31")(c, raw)
			}
		}})
}
