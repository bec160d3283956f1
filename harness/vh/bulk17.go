package main

import (
	"fmt"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// bulkFault strikes every backend command of a call so large that the service splits it into several commands: an
// answer of success covers all of them, and the repetition of a failed call completes all of them.
type bulkFault struct {
	I    int // share of the shard
	Kind string
	Op   string // "add" or "remove"
	Bulk int    // messages
	Do   int
}

func bulkFaults(kind string, i int) (l []*bulkFault) {
	for j, do := range []int{fltFail, fltDone, fltDown} {
		l = append(l, &bulkFault{I: i*2 + j, Kind: kind, Op: "add", Bulk: 2100, Do: do}, &bulkFault{I: i*2 + j + 1, Kind: kind, Op: "remove", Bulk: 4100, Do: do})
	}
	return
}

// run strikes the first and the last commands, and in the thorough tier all of them.
func (b *bulkFault) run(c *vk.Ctx) {
	c.Active("bulk call with failures", b)
	n := 0
	c.Guard("bulk call with failures", b, func() { n, _ = b.once(c, -1) })
	for at := 0; at < n && !c.Violated(); at++ {
		if c.Quick() && at > 0 && at < n-4 {
			continue
		}
		c.Active("bulk call with failures", b)
		struck := false
		c.Guard("bulk call with failures", b, func() { _, struck = b.once(c, at) })
		c.Eval(1)
		if struck {
			c.Distinct(fmt.Sprint("bulk ", b.Kind, b.Op, b.Do, at))
			c.Count("fault points of calls split into several commands", 1)
		}
	}
	c.Active("", nil)
}

func (b *bulkFault) once(c *vk.Ctx, at int) (commands int, struck bool) {
	w := mustWorld(b.Kind)
	defer w.close()
	var f faults
	f.install(w)
	add := &deckard.AddRequest{}
	rm := &deckard.RemoveRequest{Queue: "q"}
	for i := 0; i < b.Bulk; i++ {
		id := fmt.Sprintf("m%d", i)
		add.Messages = append(add.Messages, &deckard.AddMessage{Id: id, Queue: "q", Score: float64(i + 1), Timeless: true})
		rm.Ids = append(rm.Ids, id)
	}
	addAll := func() error { _, err := w.api.Add(pctx(), add); return err }
	rmAll := func() error { _, err := w.api.Remove(pctx(), rm); return err }
	call := addAll
	if b.Op == "remove" {
		fatal(addAll())
		call = rmAll
	}
	bad := func(f string, a ...any) (int, bool) {
		c.Violation("bulk-"+b.Op, b, "%s of %d messages on %s back ends, command %d %s: %s", b.Op, b.Bulk, b.Kind, at, fltName[b.Do], fmt.Sprintf(f, a...))
		return commands, struck
	}
	f.arm([]Fault{{At: at, Do: b.Do}})
	err := call()
	struck = len(f.disarm()) > 0
	commands = f.n
	state := "answered success"
	if err != nil {
		if !struck {
			return bad("it failed although no command did: %v", err)
		}
		state = "failed and was repeated"
		if err = call(); err != nil {
			return bad("its repetition failed although the back ends work again: %v", err)
		}
	}
	want := b.Bulk
	if b.Op == "remove" {
		want = 0
	}
	n, err := w.api.Count(pctx(), &deckard.CountRequest{Queue: "q"})
	if err != nil || n.Count != int64(want) {
		return bad("it %s, and %d messages are counted (%v), want %d", state, n.GetCount(), err, want)
	}
	seen := map[string]bool{}
	for {
		ids, err := w.pullIDs("q", 1000, 1<<40)
		if err != nil {
			return bad("it %s, and a pull failed: %v", state, err)
		}
		for _, id := range ids {
			if seen[id] {
				return bad("it %s, and %q was delivered twice", state, id)
			}
			seen[id] = true
		}
		if len(ids) == 0 {
			break
		}
	}
	if len(seen) != want {
		return bad("it %s, and %d messages are delivered, want %d", state, len(seen), want)
	}
	return
}
