package main

import (
	"fmt"

	"github.com/takenet/deckard/internal/zverif/vk"
)

// manyQueues walks a broker of dozens of queues, most of them with one or two messages, through its whole life: what
// housekeeping owes to a queue does not depend on how many others there are, nor on how little there is to do in it.
func manyQueues(c *vk.Ctx, prop string, kinds []string) {
	for _, kind := range kinds {
		for _, n := range []int{9, 37} {
			scenario(c, prop, kind, fmt.Sprintf("%d queues with few messages each", n), manyOps(n, kind))
		}
	}
}

func manyName(i int) string {
	switch i % 5 {
	case 1:
		return fmt.Sprintf("p::s%d", i)
	case 2:
		return fmt.Sprintf("p%d::x", i)
	case 3:
		return fmt.Sprintf("p%d", i-1)
	}
	return fmt.Sprintf("q%d", i)
}

func manyOps(n int, kind string) (ops []Op) {
	all := Op{K: "add"}
	for i := 0; i < n; i++ {
		q := manyName(i)
		for j := 0; j <= i%3; j++ {
			s := add1(q, fmt.Sprintf("m%d", j), float64(10+j), 0, true).Msgs[0]
			if (i+j)%2 == 0 {
				s.Timeless, s.TTL = false, int64(2+(i+j)%4)
			}
			all.Msgs = append(all.Msgs, s)
		}
	}
	each := func(k string, o Op) {
		for i := 0; i < n; i++ {
			x := o
			x.K, x.Q = k, manyName(i)
			ops = append(ops, x)
		}
	}
	adv := func(ms int64) { ops = append(ops, Op{K: "adv", Adv: ms}) }
	house := func(k string) { ops = append(ops, Op{K: k}) }
	ops = append(ops, all)
	each("count", Op{})
	each("pull", Op{N: 1, DL: 1000}) // m0 of every queue is in flight
	house("metrics")
	for i := 0; i < n; i++ { // and of every third one locked
		o := Op{K: "ack", Q: manyName(i), IDs: []string{"m0"}, Lock: int64(500 + i%2)}
		if i%2 == 0 {
			o.K, o.Score = "nack", 3
		}
		if i%3 == 1 {
			ops = append(ops, o)
		}
	}
	house("metrics")
	adv(500)
	house("unlock")
	each("pull", Op{N: 1, Max: 9, DL: 5000})
	adv(1)
	house("unlock")
	adv(499)
	house("timeout")
	each("pull", Op{N: 3, DL: 2000})
	adv(2000)
	house("timeout")
	adv(3000)
	house("timeout")
	for i := 0; i < n; i += 4 {
		ops = append(ops, Op{K: "edit", Q: manyName(i), V: 1})
	}
	house("exceed")
	each("count", Op{})
	if kind[1] == 'g' {
		ops = append(ops, Op{K: "wipe"}, Op{K: "recover"}, Op{K: "recover"})
	}
	for k := 0; k < 4; k++ {
		adv(60000)
		house("ttl")
		each("count", Op{})
	}
	each("pull", Op{N: 5, DL: 100})
	house("metrics")
	each("remove", Op{IDs: []string{"m0", "m1", "zz"}})
	house("metrics")
	each("count", Op{})
	return append(ops, Op{K: "count"})
}
