package main

import (
	"context"
	"sync"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// gateCache and gateStorage run something right before a chosen backend call.
type gateCache struct {
	cache.Cache
	beforeRemove func()
}

func (g *gateCache) Remove(c context.Context, q string, ids ...string) (int64, error) {
	if f := g.beforeRemove; f != nil {
		g.beforeRemove = nil
		f()
	}
	return g.Cache.Remove(c, q, ids...)
}

type gateStorage struct {
	storage.Storage
	beforeRemove func()
	afterGetConf func()
}

func (g *gateStorage) GetQueueConfiguration(c context.Context, q string) (*configuration.QueueConfiguration, error) {
	r, err := g.Storage.GetQueueConfiguration(c, q)
	if f := g.afterGetConf; f != nil {
		f()
	}
	return r, err
}

func (g *gateStorage) Remove(c context.Context, q string, ids ...string) (int64, error) {
	if f := g.beforeRemove; f != nil {
		g.beforeRemove = nil
		f()
	}
	return g.Storage.Remove(c, q, ids...)
}

// knownRaces executes the three listed interleavings in which a message is lost.
func knownRaces(c *vk.Ctx) {
	setup := func(kind string) (*world, *gateCache, *gateStorage) {
		clockMs.Store(clockStart)
		gc, gs := &gateCache{}, &gateStorage{}
		w, err := newWorld(worldOpts{kind: kind, prefix: "deckard",
			wrapC: func(x cache.Cache) cache.Cache { gc.Cache = x; return gc },
			wrapS: func(x storage.Storage) storage.Storage { gs.Storage = x; return gs }})
		fatal(err)
		return w, gc, gs
	}
	lost := func(w *world) bool {
		clockMs.Add(3600_000)
		_ = queue.ProcessTimeoutMessages(pctx(), w.q)
		ids, err := w.pullIDs("q", 10, 0)
		return err == nil && len(ids) == 0 && w.found("q", "m")
	}
	for _, kind := range []string{"mm", "rg"} {
		c.Guard("known races", kind, func() {
			w, gc, _ := setup(kind)
			defer w.close()
			fatal(w.addSimple("q", "m", 1, 0))
			gc.beforeRemove = func() { fatal(w.addSimple("q", "m", 1, 0)) }
			_, err := w.api.Remove(pctx(), &deckard.RemoveRequest{Queue: "q", Ids: []string{"m"}})
			fatal(err)
			c.Eval(1)
			if lost(w) {
				c.Violation("remove-overtaken-by-add", map[string]any{"back ends": kind}, "a message added between the two steps of its removal stays in storage but is never delivered")
			}
		})
		c.Guard("known races", kind, func() {
			w, gc, _ := setup(kind)
			defer w.close()
			fatal(w.addSimple("q", "m", 1, 0))
			_, err := w.st.Remove(pctx(), "q", "m") // another client's removal, not yet at the cache
			fatal(err)
			gc.beforeRemove = func() { fatal(w.addSimple("q", "m", 1, 0)) }
			_, err = w.pullIDs("q", 1, 0)
			fatal(err)
			c.Eval(1)
			if lost(w) {
				c.Violation("missing-cleanup-overtaken-by-add", map[string]any{"back ends": kind}, "a message added while a pull drops its missing predecessor stays in storage but is never delivered")
			}
		})
		c.Guard("known races", kind, func() {
			w, _, gs := setup(kind)
			defer w.close()
			fatal(w.addSimple("q", "m", 1, 1))
			clockMs.Add(60_000)
			gs.beforeRemove = func() { fatal(w.addSimple("q", "m", 1, 100)) }
			now := dtime.Now()
			_, err := queue.RemoveTTLMessages(pctx(), w.q, &now)
			fatal(err)
			c.Eval(1)
			if !w.found("q", "m") {
				c.Violation("expiry-overtaken-by-renewal", map[string]any{"back ends": kind}, "a message renewed between the search and the removal of the expiry housekeeping is removed although it has not expired")
			}
		})
	}
}

func init() {
	special["C04"] = func(c *vk.Ctx) {
		knownRaces(c)
		for _, k := range []string{"mm", "rm", "cg", "rg"} {
			bulkTimeout(c, k)
			bulkUnlock(c, k)
		}
	}
	special["C15"] = func(c *vk.Ctx) {
		editDuringRead(c)
		staleConfig(c)
	}
}

// editDuringRead: a read that fetched the old configuration before an edit and finishes after it
// must not hide the edit from later reads.
func editDuringRead(c *vk.Ctx) {
	for i, kind := range []string{"mm", "mg", "mm", "rg", "mm", "mm"} {
		kase := map[string]any{"scenario": "an edit while a read of the same queue is between storage and local cache", "back ends": kind, "variant": i}
		c.Guard("edit during read", kase, func() {
			clockMs.Store(clockStart)
			gs := &gateStorage{}
			w, err := newWorld(worldOpts{kind: kind, prefix: "deckard", wrapS: func(x storage.Storage) storage.Storage { gs.Storage = x; return gs }})
			fatal(err)
			defer w.close()
			old := int64(0)
			edit := func(v int64) {
				_, err := w.api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: v}})
				fatal(err)
			}
			if i >= 2 {
				old = 5
				edit(old)
			}
			at, edited := make(chan struct{}), make(chan struct{})
			var once sync.Once
			gs.afterGetConf = func() {
				once.Do(func() {
					close(at)
					select {
					case <-edited:
					case <-time.After(300 * time.Millisecond): // the edit waits for the read: no overlap
					}
				})
			}
			done := make(chan struct{})
			go func() {
				defer close(done)
				_, _ = w.api.GetQueue(pctx(), &deckard.GetQueueRequest{Queue: "q"})
			}()
			<-at
			edit(9)
			close(edited)
			<-done
			c.Eval(1)
			c.Count("edits overlapping a read", 1)
			r, err := w.api.GetQueue(pctx(), &deckard.GetQueueRequest{Queue: "q"})
			fatal(err)
			if got := r.GetConfiguration().GetMaxElements(); got != 9 {
				c.Violation("edit-hidden-by-read", kase, "after an edit from %d to 9 that overlapped a read, the configuration reads %d", old, got)
			}
			if i == 5 { // the value read before also matters when the edit repeats it
				edit(old)
				r, err = w.api.GetQueue(pctx(), &deckard.GetQueueRequest{Queue: "q"})
				fatal(err)
				if got := r.GetConfiguration().GetMaxElements(); got != old {
					c.Violation("edit-dropped", kase, "after an edit back to %d the configuration reads %d", old, got)
				}
			}
		})
	}
}
