package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/zverif/vk"
)

const clockStart = int64(1_700_000_000_000)

// traceCase is one recorded history.
type traceCase struct {
	Kind  string
	Wire  bool `json:",omitempty"`
	Repl  bool `json:",omitempty"` // MongoDB is a replica set
	Start int64
	Note  string `json:",omitempty"`
	// Aux scripts what a property's own environment does (answers of the audit server, faults).
	Aux []int `json:",omitempty"`
	Ops []Op
}

// traceEnv replaces parts of how a history is executed.
type traceEnv struct {
	aux   func(r *rand.Rand) []int
	open  func(tc *traceCase) (*world, error)
	route func(r *rand.Rand, op *Op) int    // draws the instance for an operation
	at    func(e *engine, op *Op) error     // before every operation
	after func(e *engine, op *Op) *mismatch // after every operation
	post  func(c *vk.Ctx, e *engine, tc *traceCase) *mismatch
	// mine may add the property to a contradiction after looking closer.
	mine func(c *vk.Ctx, tc *traceCase, m *mismatch)
}

var env traceEnv

// runTrace executes ops (or draws them from next) and reports the first contradiction.
func runTrace(c *vk.Ctx, tc *traceCase, next func(e *engine) (Op, bool), hooks func(e *engine)) (*engine, *mismatch, error) {
	e, m, err := runOps(c, tc, next, hooks)
	if m != nil && env.mine != nil {
		env.mine(c, tc, m)
	}
	return e, m, err
}

func runOps(c *vk.Ctx, tc *traceCase, next func(e *engine) (Op, bool), hooks func(e *engine)) (*engine, *mismatch, error) {
	clockMs.Store(tc.Start)
	open := env.open
	if open == nil {
		open = func(tc *traceCase) (*world, error) {
			return newWorld(worldOpts{kind: tc.Kind, prefix: "deckard", repl: tc.Repl})
		}
	}
	w, err := open(tc)
	if err != nil {
		return nil, nil, err
	}
	defer w.close()
	if tc.Wire {
		if err := w.listen(); err != nil {
			return nil, nil, err
		}
	}
	e := newEngine(w)
	if hooks != nil {
		hooks(e)
	}
	for i := 0; ; i++ {
		var op Op
		if next != nil {
			var ok bool
			op, ok = next(e)
			if !ok {
				break
			}
			tc.Ops = append(tc.Ops, op)
			tc.Ops[len(tc.Ops)-1].Faults = append([][]Fault(nil), op.Faults...)
		} else {
			if i == len(tc.Ops) {
				break
			}
			op = tc.Ops[i]
		}
		c.Active("history on "+tc.Kind, nil)
		if env.at != nil {
			if err := env.at(e, &op); err != nil {
				return nil, nil, err
			}
		}
		if m := e.do(&op); m != nil {
			return e, m, nil
		}
		if env.after != nil {
			if m := env.after(e, &op); m != nil {
				return e, m, nil
			}
		}
	}
	var m *mismatch
	if e.fx != nil && e.fx.ghosts {
		m = e.setDrain("C17")
	} else {
		m = e.drain()
	}
	if m == nil && env.post != nil {
		m = env.post(c, e, tc)
	}
	c.Active("", nil)
	return e, m, nil
}

func hitKey(m *mismatch) string { return m.key }

// shrink removes operations while the same kind of contradiction remains.
func shrink(c *vk.Ctx, tc *traceCase, prop string, m *mismatch, budget time.Duration) (*traceCase, *mismatch) {
	end := time.Now().Add(budget)
	best, bm := *tc, m
	fails := func(ops []Op) *mismatch {
		t := traceCase{Kind: tc.Kind, Wire: tc.Wire, Repl: tc.Repl, Start: tc.Start, Aux: tc.Aux, Ops: ops}
		var got *mismatch
		func() {
			defer func() {
				if r := recover(); r != nil {
					got = nil
				}
			}()
			_, mm, err := runTrace(c, &t, nil, nil)
			if err == nil && mm != nil && mm.key == m.key && mm.props[prop] {
				got = mm
			}
		}()
		return got
	}
	for n := max(len(best.Ops)/2, 1); n >= 1; {
		changed := false
		for at := 0; at < len(best.Ops); {
			if time.Now().After(end) {
				return &best, bm
			}
			hi := min(at+n, len(best.Ops))
			ops := append(append([]Op(nil), best.Ops[:at]...), best.Ops[hi:]...)
			if g := fails(ops); g != nil {
				best.Ops, bm = ops, g
				changed = true
			} else {
				at += n
			}
		}
		if n == 1 && !changed {
			break
		}
		if n > 1 {
			n /= 2
		}
	}
	return &best, bm
}

// explore generates histories for a profile and decides prop on each.
func explore(c *vk.Ctx, prop string, p *profile, n int, frac float64) {
	incon := int64(0)
	for i := c.Shard; i < n && !c.Past(frac); i += max(c.Shards, 1) {
		r := c.Rand(vk.Hash(p.name)%1000003 + uint64(i)*1000003)
		kind := p.kinds[i/max(c.Shards, 1)%len(p.kinds)]
		tc := &traceCase{Kind: kind, Start: clockStart + r.Int64N(1000000), Wire: g100(r.IntN(100), p.wire)}
		tc.Repl = kind[1] == 'g' && r.IntN(3) == 0
		if env.aux != nil {
			tc.Aux = env.aux(r)
		}
		steps := p.steps/2 + r.IntN(p.steps)
		bulk := i/max(c.Shards, 1)%25 == 4+c.Shard%3
		if bulk {
			steps = min(steps, 80)
		}
		var g *gen
		k := 0
		var e *engine
		var m *mismatch
		var err error
		ok := c.Guard("history on "+kind, tc, func() {
			e, m, err = runTrace(c, tc, func(e *engine) (Op, bool) {
				if g == nil {
					g = newGen(r, p, e, kind)
					if bulk {
						g.enlarge()
					}
				}
				if len(g.todo) == 0 {
					k++
				}
				if k > steps {
					return Op{}, false
				}
				if k%7 == 0 {
					c.Distinct(kind + e.signature())
				}
				op := g.op()
				if env.route != nil {
					op.On = env.route(r, &op)
				}
				return op, true
			}, nil)
		})
		if !ok {
			return
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "world:", err)
			os.Exit(2)
		}
		c.Eval(1)
		c.Count("histories on "+kind, 1)
		c.Count("operations", int64(len(tc.Ops)))
		if bulk {
			c.Count("bulk histories", 1)
		}
		if tc.Repl {
			c.Count("histories on a MongoDB replica set", 1)
			c.Count("reads served by its secondary", e.w.mongo.SecondaryReads())
		}
		for k, v := range e.kinds {
			c.Count(k, v)
		}
		c.Max("operations in a history", int64(len(tc.Ops)))
		if i < 3 {
			c.Sample(map[string]any{"back ends": kind, "first operations": brief(tc.Ops, 6)})
		}
		if m == nil {
			continue
		}
		if !m.props[prop] {
			incon++
			c.Note("a history was cut short at an observation that contradicts another property (%s): %.300s", strings.Join(sortedKeys(m.props), " "), m.text)
			continue
		}
		small, sm := shrink(c, tc, prop, m, 12*time.Second)
		c.Violation(sm.key, small, "on %s back ends: %s", kind, sm.text)
		if c.Violated() {
			return
		}
	}
	c.Count("histories cut short by another property", incon)
}

func g100(v, pct int) bool { return v < pct }

func brief(ops []Op, n int) (out []string) {
	for i := range ops {
		if i == n {
			break
		}
		b, _ := json.Marshal(ops[i])
		s := string(b)
		if len(s) > 200 {
			s = s[:200]
		}
		out = append(out, s)
	}
	return
}

func replayTrace(prop string) func(*vk.Ctx, json.RawMessage) {
	return func(c *vk.Ctx, raw json.RawMessage) {
		var tc traceCase
		if err := json.Unmarshal(raw, &tc); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.Guard("history on "+tc.Kind, &tc, func() {
			_, m, err := runTrace(c, &tc, nil, func(e *engine) { e.keep = true })
			c.Eval(1)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			if m != nil && m.props[prop] {
				c.Violation(m.key, &tc, "on %s back ends: %s", tc.Kind, m.text)
			}
		})
	}
}
