package main

import (
	"encoding/json"

	"github.com/takenet/deckard/internal/zverif/vk"
)

var kindMix = []string{"mm", "mm", "rm", "mm", "rg", "mg", "mm", "cg"}

var profiles = map[string]*profile{
	"C01": {w: with(baseWeights, map[string]int{"pull": 40}), scores: []string{"small", "unique", "mixed", "extreme"}, locks: 20, rm: 4, bounds: 5, ttl: 5, update: 20, queues: 2, ids: 14},
	"C02": {w: with(baseWeights, map[string]int{"pull": 45, "add": 28, "timeout": 3, "unlock": 3}), scores: []string{"small", "unique", "mixed", "extreme"}, locks: 10, rm: 4, bounds: 85, ttl: 3, update: 10, queues: 2, ids: 14},
	"C05": {w: with(baseWeights, map[string]int{"timeout": 18, "adv": 25, "ack": 6, "nack": 6, "unlock": 2}), locks: 10, rm: 4, bounds: 5, ttl: 3, update: 10, queues: 4, ids: 10},
	"C06": {w: with(baseWeights, map[string]int{"unlock": 20, "adv": 25, "pull": 30}), scores: []string{"small", "unique", "mixed", "extreme"}, locks: 80, rm: 3, bounds: 5, ttl: 3, update: 10, queues: 4, ids: 10},
	"C07": {w: with(baseWeights, map[string]int{"ack": 25, "nack": 25, "pull": 35}), scores: []string{"small", "unique", "mixed", "extreme"}, locks: 10, rm: 3, bounds: 40, ttl: 3, update: 5, queues: 2, ids: 8},
	"C08": {w: with(baseWeights, map[string]int{"add": 40, "get": 8, "count": 8}), scores: []string{"small", "unique", "mixed", "extreme"}, locks: 30, rm: 5, bounds: 10, ttl: 30, update: 60, queues: 3, ids: 8},
	"C09": {w: with(baseWeights, map[string]int{"get": 25, "add": 30}), locks: 20, rm: 3, bounds: 5, ttl: 3, update: 30, rich: 90, wire: 60, queues: 3, ids: 8},
	"C10": {w: with(baseWeights, map[string]int{"ack": 30, "nack": 30, "pull": 40}), locks: 25, rm: 2, bounds: 5, ttl: 3, update: 30, queues: 2, ids: 6},
	"C11": {w: with(baseWeights, map[string]int{"remove": 10, "get": 8, "count": 8}), names: "hostile", locks: 30, rm: 5, bounds: 5, ttl: 5, update: 25, queues: 6, ids: 8},
	"C12": {w: with(baseWeights, map[string]int{"remove": 25, "count": 8, "get": 8}), locks: 30, rm: 30, bounds: 5, ttl: 10, update: 20, queues: 3, ids: 8},
	"C13": {w: with(baseWeights, map[string]int{"ttl": 20, "adv": 25, "get": 8, "count": 5}), locks: 25, rm: 3, bounds: 5, ttl: 80, update: 30, queues: 3, ids: 10},
	"C14": {w: with(baseWeights, map[string]int{"exceed": 15, "edit": 12, "add": 40, "count": 5, "ttl": 3, "getq": 2}), locks: 25, rm: 3, bounds: 5, ttl: 50, update: 20, queues: 3, ids: 10},
	"C15": {w: with(baseWeights, map[string]int{"edit": 30, "getq": 40, "exceed": 6, "adv": 20, "flush": 1}), names: "mixed", locks: 10, rm: 3, bounds: 5, ttl: 3, update: 20, queues: 6, ids: 6},
	"C04": {w: with(baseWeights, map[string]int{"count": 10, "nack": 16, "timeout": 8, "unlock": 8}), names: "mixed", locks: 40, rm: 5, bounds: 15, ttl: 20, update: 20, queues: 4, ids: 14},
	"C03": {w: with(baseWeights, map[string]int{"pull": 45, "timeout": 8, "add": 25}), locks: 20, rm: 3, bounds: 10, ttl: 3, update: 40, queues: 3, ids: 8},
}

var traceRule = "a distinct non-trivial case is a distinct abstract state (pool, storage presence and priority of every message, per back end) at which the monitors compared answers"

func init() {
	for id, p := range profiles {
		p.name = id
		if p.kinds == nil {
			p.kinds = kindMix
		}
		if p.steps == 0 {
			p.steps = 120
		}
		vk.Register(&vk.Check{Prop: id, Rule: traceRule, Shards: 6, Assumptions: backendAssumptions,
			Run: func(c *vk.Ctx) {
				if s := special[id]; s != nil && c.Shard == 0 {
					s(c)
				}
				switch id {
				case "C03", "C04":
					stress(c, id, c.N(700, 100000), 0.7)
				case "C05", "C06", "C10":
					stress(c, id, c.N(120, 20000), 0.3)
				}
				explore(c, id, p, c.N(3000, 200000), 1)
			},
			Replay: func(c *vk.Ctx, raw json.RawMessage) {
				if !replayStress(c, id, raw) {
					replayTrace(id)(c, raw)
				}
			}})
	}
}

// special holds further scenarios of a property, run before the exploration.
var special = map[string]func(c *vk.Ctx){}

var backendAssumptions = []string{
	"Redis and MongoDB are in-process protocol servers written for this task; they execute Deckard's own commands and Lua scripts",
	"time is virtual: dtime.Now is the only clock the checked code reads",
}
