package main

import (
	"fmt"

	"github.com/takenet/deckard/internal/zverif/vk"
)

// scenario runs a fixed list of operations against the model; contradictions of prop are violations.
func scenario(c *vk.Ctx, prop, kind, note string, ops []Op) {
	tc := &traceCase{Kind: kind, Start: clockStart, Note: note, Ops: ops}
	c.Guard(note, tc, func() {
		_, m, err := runTrace(c, tc, nil, nil)
		fatal(err)
		c.Eval(1)
		c.Count("fixed scenarios", 1)
		if m != nil && m.props[prop] {
			c.Violation(m.key, tc, "%s on %s back ends: %s", note, kind, m.text)
		}
	})
}

func fatal(err error) {
	if err != nil {
		panic(fmt.Sprint("unexpected failure: ", err))
	}
}

func add1(q, id string, score float64, ttl int64, timeless bool) Op {
	return Op{K: "add", Msgs: []Spec{{ID: id, Q: q, Score: F(score), TTL: ttl, Timeless: timeless, SP: "x", Desc: "d", Meta: map[string]string{"k": "v"}, Pay: map[string]Payload{"p": {Type: "t"}}}}}
}

func addN(q string, n int, score func(i int) float64) Op {
	op := Op{K: "add"}
	for i := 0; i < n; i++ {
		op.Msgs = append(op.Msgs, Spec{ID: fmt.Sprintf("b%d", i), Q: q, Score: F(score(i)), Timeless: true, SP: "x", Desc: "d", Meta: map[string]string{"k": "v"}, Pay: map[string]Payload{"p": {Type: "t"}}})
	}
	return op
}

func inc(i int) float64  { return float64(i + 1) }
func same(i int) float64 { return 7 }

func rep(n int, op Op) (ops []Op) {
	for i := 0; i < n; i++ {
		ops = append(ops, op)
	}
	return
}

func cat(l ...[]Op) (ops []Op) {
	for _, x := range l {
		ops = append(ops, x...)
	}
	return
}

var allKinds = []string{"mm", "rm", "mg", "rg", "cg"}

func init() {
	// more messages than one command may carry, and than one housekeeping run handles
	special["C01"] = func(c *vk.Ctx) {
		manyQueues(c, "C01", allKinds)
		for _, k := range allKinds {
			scenario(c, "C01", k, "1500 messages, pulls larger than 1000", []Op{addN("q", 1500, func(i int) float64 { return float64((i*7919)%1500 + 1) }),
				{K: "pull", Q: "q", N: 1500}, {K: "pull", Q: "q", N: 499}, {K: "pull", Q: "q", N: 2}, {K: "pull", Q: "q", N: 2}})
			scenario(c, "C01", k, "equal scores", []Op{addN("q", 300, same), {K: "pull", Q: "q", N: 100}, {K: "pull", Q: "q", N: 0}, {K: "pull", Q: "q", N: 198}, {K: "pull", Q: "q", N: 2}, {K: "pull", Q: "q", N: -4}})
		}
	}
	special["C02"] = func(c *vk.Ctx) {
		for _, k := range allKinds {
			ops := []Op{addN("q", 1300, inc)}
			for _, b := range [][2]F{{1290, 0}, {0, 3}, {600, 605}, {5, 4}, {1200, 2000}, {4, 4}} {
				ops = append(ops, Op{K: "pull", Q: "q", N: 3, Min: b[0], Max: b[1], DL: 5}, Op{K: "pull", Q: "q", N: 1000, Min: b[0], Max: b[1], DL: 5})
			}
			scenario(c, "C02", k, "bounds deep inside a large queue", ops)
			scenario(c, "C02", k, "bounds deep inside a larger queue", []Op{addN("q", 6000, inc), {K: "pull", Q: "q", N: 40, Min: 5990, DL: 5}, {K: "pull", Q: "q", N: 1000, Min: 4500, Max: 4600.5, DL: 5},
				{K: "pull", Q: "q", N: 3, DL: 5}, {K: "pull", Q: "q", N: 5, Max: 4, DL: 5}, {K: "pull", Q: "q", N: 1000, DL: 5}, {K: "pull", Q: "q", N: 1000, Min: 5985, DL: 5}})
		}
	}
	special["C05"] = func(c *vk.Ctx) {
		manyQueues(c, "C05", allKinds)
		for _, k := range []string{"rm", "cm", "rg", "cg"} {
			oneBroken(c, "C05", k)
		}
		for _, k := range allKinds {
			scenario(c, "C05", k, "1000 deadlines at once and several queues", cat([]Op{addN("q", 1000, inc), addN("r", 30, inc), {K: "pull", Q: "q", N: 1000, DL: 50}, {K: "pull", Q: "r", N: 20, DL: 51},
				{K: "adv", Adv: 49}, {K: "timeout"}, {K: "pull", Q: "q", N: 5}, {K: "adv", Adv: 1}, {K: "timeout"}, {K: "pull", Q: "q", N: 1000, Max: 0.5}, {K: "pull", Q: "r", N: 12}, {K: "adv", Adv: 1}, {K: "timeout"}, {K: "pull", Q: "r", N: 100}}))
			bulkTimeout(c, k)
		}
	}
	special["C06"] = func(c *vk.Ctx) {
		manyQueues(c, "C06", allKinds)
		for _, k := range []string{"rm", "cm", "rg", "cg"} {
			oneBroken(c, "C06", k)
		}
		for _, k := range allKinds {
			ops := []Op{addN("q", 700, inc), {K: "pull", Q: "q", N: 700, DL: 1000000}}
			for i := 0; i < 700; i++ {
				op := Op{K: "ack", Q: "q", IDs: []string{fmt.Sprintf("b%d", i)}, Lock: int64(100 + i%3)}
				if i%2 == 0 {
					op.K = "nack"
				}
				if i%5 == 0 {
					op.Score = F(i + 1)
				}
				ops = append(ops, op)
			}
			ops = append(ops, Op{K: "adv", Adv: 99}, Op{K: "unlock"}, Op{K: "pull", Q: "q", N: 1000}, Op{K: "adv", Adv: 1}, Op{K: "unlock"}, Op{K: "pull", Q: "q", N: 1000},
				Op{K: "adv", Adv: 1}, Op{K: "unlock"}, Op{K: "pull", Q: "q", N: 1000, Max: 5000}, Op{K: "adv", Adv: 1}, Op{K: "unlock"}, Op{K: "pull", Q: "q", N: 1000, Min: 0.5}, Op{K: "pull", Q: "q", N: 1000})
			scenario(c, "C06", k, "hundreds of locks of both kinds", ops)
			bulkUnlock(c, k)
		}
	}
	special["C08"] = func(c *vk.Ctx) {
		for _, k := range allKinds {
			scenario(c, "C08", k, "a batch of 5000, added twice", []Op{addN("q", 5000, inc), {K: "count", Q: "q"}, {K: "pull", Q: "q", N: 1000}, addN("q", 5010, same), {K: "count", Q: "q"}, {K: "pull", Q: "q", N: 1000}})
		}
		addTwiceAtOnce(c)
	}
	special["C12"] = func(c *vk.Ctx) {
		manyQueues(c, "C12", allKinds)
		for _, k := range allKinds {
			rm := Op{K: "remove", Q: "q"}
			for i := 0; i < 4500; i++ {
				rm.IDs = append(rm.IDs, fmt.Sprintf("b%d", i))
			}
			for _, lk := range []string{"ack", "nack"} {
				for _, other := range []string{"ack", "nack"} {
					scenario(c, "C12", k, "a lock score outlives the removal", []Op{addN("q", 3, inc), {K: "pull", Q: "q", N: 1, DL: 1000}, {K: lk, Q: "q", IDs: []string{"b0"}, Lock: 50, Score: 77}, {K: "remove", Q: "q", IDs: []string{"b0"}},
						addN("q", 1, inc), {K: "pull", Q: "q", N: 1, DL: 1000}, {K: other, Q: "q", IDs: []string{"b0"}, Lock: 60}, {K: "adv", Adv: 60}, {K: "unlock"}, {K: "pull", Q: "q", N: 1, Min: 76.5, Max: 77.5, DL: 1000}, {K: "pull", Q: "q", N: 3}})
				}
			}
			if k == "mm" || k == "rg" {
				huge := Op{K: "remove", Q: "q"}
				for i := 10600; i >= 0; i-- {
					huge.IDs = append(huge.IDs, fmt.Sprintf("b%d", i))
				}
				scenario(c, "C12", k, "removing 10600 ids at once", []Op{addN("q", 60, inc), huge, {K: "count", Q: "q"}, addN("q", 10, same)})
			}
			scenario(c, "C12", k, "removing 4500 of 4600 messages at once", []Op{addN("q", 4600, inc), addN("r", 20, inc), {K: "pull", Q: "q", N: 1000}, rm, {K: "count", Q: "q"}, {K: "count", Q: "r"}, {K: "pull", Q: "q", N: 1000}, rm, addN("q", 10, same)})
		}
	}
	special["C13"] = func(c *vk.Ctx) {
		manyQueues(c, "C13", allKinds)
		expiryOnTime(c, "mg")
		expiryOnTime(c, "rg")
		for _, k := range allKinds {
			op := addN("q", 2600, inc)
			for i := range op.Msgs {
				op.Msgs[i].Timeless, op.Msgs[i].TTL = false, int64(1+i%3)
			}
			scenario(c, "C13", k, "thousands of expiries", []Op{op, {K: "pull", Q: "q", N: 500, DL: 1 << 40}, {K: "adv", Adv: 59999}, {K: "ttl"}, {K: "count", Q: "q"}, {K: "adv", Adv: 1}, {K: "ttl"}, {K: "count", Q: "q"}, {K: "pull", Q: "q", N: 400}, {K: "adv", Adv: 60000}, {K: "ttl"}, {K: "count", Q: "q"}, {K: "adv", Adv: 60001}, {K: "ttl"}, {K: "count", Q: "q"}})
		}
		for _, k := range allKinds { // the same ids in a queue, its prefix and a neighbour
			at := func(q string, ttl ...int64) (op Op) {
				op = addN(q, len(ttl), inc)
				for i := range op.Msgs {
					op.Msgs[i].Timeless, op.Msgs[i].TTL = ttl[i] == 0, ttl[i]
				}
				return
			}
			ops := []Op{at("p", 1, 2, 0, 1, 3, 0), at("p::x", 2, 1, 1, 0, 1, 3), at("p::y", 0, 1, 3, 1, 2, 1)}
			for i := 0; i < 3; i++ {
				ops = append(ops, Op{K: "adv", Adv: 60000}, Op{K: "ttl"}, Op{K: "count", Q: "p"}, Op{K: "count", Q: "p::x"}, Op{K: "count", Q: "p::y"})
			}
			scenario(c, "C13", k, "a queue and its prefix", ops)
		}
		bulkExpiry(c, "mm")
		bulkExpiry(c, "rg")
		staleExpiry(c)
	}
	special["C14"] = func(c *vk.Ctx) {
		manyQueues(c, "C14", allKinds)
		for _, k := range []string{"rm", "cm", "rg", "cg"} {
			oneBroken(c, "C14", k)
		}
		for _, k := range allKinds {
			op := addN("q", 1200, inc)
			for i := range op.Msgs {
				op.Msgs[i].Timeless, op.Msgs[i].TTL = false, int64(10+(i*7)%1201)
			}
			scenario(c, "C14", k, "evicting hundreds", []Op{op, addN("r", 20, inc), {K: "pull", Q: "q", N: 600}, {K: "edit", Q: "q", V: 700}, {K: "edit", Q: "r", V: 20}, {K: "exceed"}, {K: "count", Q: "q"}, {K: "count", Q: "r"}, {K: "exceed"}, {K: "count", Q: "q"}})
		}
		bulkEvict(c, "mm")
		bulkEvict(c, "rg")
		evictExpired(c)
		evictDuringRecovery(c)
		staleEviction(c)
	}
}
