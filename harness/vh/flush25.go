package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// flushBinary flushes the real binary on a combination of back ends: only on memory and memory may anything happen.
func flushBinary(c *vk.Ctx, kind string, seed uint64) {
	k := map[string]any{"binary": true, "kind": kind, "seed": seed}
	c.Guard("flush", k, func() {
		r := rand.New(rand.NewPCG(seed, 25))
		s, err := openSite(c, kind, false, map[string]string{"DECKARD_HOUSEKEEPER_ENABLED": "false"})
		fatal(err)
		defer s.close()
		p, err := startProc(c.Shard, s.dir, s.env)
		if err != nil {
			c.Violation("start", k, "%v", err)
			return
		}
		defer p.kill()
		conn, err := dialTo(p.port, nil)
		fatal(err)
		defer conn.Close()
		cl := deckard.NewDeckardClient(conn)
		fill := func() {
			for q := 0; q < 3; q++ {
				req := &deckard.AddRequest{}
				name := fmt.Sprintf("q%d::x", q)
				for i := 0; i < 4+r.IntN(4); i++ {
					req.Messages = append(req.Messages, &deckard.AddMessage{Id: fmt.Sprint("m", i), Queue: name, Timeless: true, Score: float64(i + 1)})
				}
				_, err := cl.Add(pctx(), req)
				fatal(err)
				_, err = cl.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: name, Configuration: &deckard.QueueConfiguration{MaxElements: int64(100 + q)}})
				fatal(err)
				pr, err := cl.Pull(pctx(), &deckard.PullRequest{Queue: name, Amount: 3, AckDeadlineMs: 3600000})
				fatal(err)
				if len(pr.Messages) != 3 {
					continue
				}
				_, err = cl.Ack(pctx(), &deckard.AckRequest{Queue: name, Id: pr.Messages[0].Id, LockMs: 3600000})
				fatal(err)
				_, err = cl.Nack(pctx(), &deckard.AckRequest{Queue: name, Id: pr.Messages[1].Id, LockMs: 3600000})
				fatal(err)
			}
		}
		fill()
		look := func() (out []string) {
			if s.redis != nil {
				for k, v := range s.redis.Keys() {
					out = append(out, "redis "+k+" "+v)
					if v == "zset" {
						for m, sc := range s.redis.Zset(k) {
							out = append(out, fmt.Sprint("redis ", k, " ", m, " ", sc))
						}
					}
				}
			}
			if s.mongo != nil {
				for _, ns := range []string{"deckard.queue", "deckard.queue_configuration"} {
					for _, d := range s.mongo.Docs(ns) {
						out = append(out, fmt.Sprint(ns, d))
					}
				}
			}
			for q := 0; q < 3; q++ {
				name := fmt.Sprintf("q%d::x", q)
				n, err := cl.Count(pctx(), &deckard.CountRequest{Queue: name})
				fatal(err)
				g, err := cl.GetQueue(pctx(), &deckard.GetQueueRequest{Queue: name})
				fatal(err)
				out = append(out, fmt.Sprint(name, " ", n.Count, " ", g.Configuration.GetMaxElements()))
			}
			sort.Strings(out)
			return
		}
		before := look()
		resp, err := cl.Flush(pctx(), &deckard.FlushRequest{})
		after := look()
		c.Eval(1)
		c.Count("flushes_of_the_binary_"+kind, 1)
		c.Distinct("binary " + kind)
		c.Count("entries_compared_around_binary_flushes", int64(len(before)))
		if kind == "mm" {
			empty := []string{"q0::x 0 0", "q1::x 0 0", "q2::x 0 0"}
			if err != nil || !resp.Success || !reflect.DeepEqual(after, empty) {
				c.Violation("flush-memory", k, "a flush of an instance in memory answered %v, %v and left %v", resp, err, after)
				return
			}
			fill()
			if again := look(); len(again) != 3 {
				c.Violation("flush-memory", k, "after a flush of an instance in memory the queues are %v", again)
			}
			return
		}
		if err == nil && resp.Success {
			c.Violation("flush-shared", k, "a flush of an instance on %s back ends answered success", kind)
		}
		if !reflect.DeepEqual(before, after) {
			c.Violation("flush-shared", k, "a flush of an instance on %s back ends changed %d entries of its back ends into %d", kind, len(before), len(after))
		}
	})
}
