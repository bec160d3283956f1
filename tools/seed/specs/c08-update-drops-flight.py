id='c08-update-drops-flight'; prop='C08'; fakes=False
needs='in-memory cache: a message locked by a nack is added again while locked'
breaks='the locked message becomes available at once (and exists in two pools)'
edits=[('internal/queue/cache/memory_cache.go',"isLockedNack := cache.isPresentOnPool(ctx, &cache.lockNackQueues, queue, id)","isLockedNack := cache.isPresentOnPool(ctx, &cache.lockAckQueues, queue, id)")]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	w := start(t, "mm")
	w.add("q", m("a", 5, 0))
	w.pull("q", 1, 100000)
	w.nack(&deckard.AckRequest{Queue: "q", Id: "a", LockMs: 1000})
	w.add("q", m("a", 5, 0))
	if got := w.pull("q", 1, 100000); len(got) != 0 {
		t.Fatalf("pulled %v while it is locked", got)
	}
}
'''
