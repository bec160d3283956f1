id='c25-locked-left'; prop='C25'; fakes=False
needs='a message locked by a nack when the memory service is flushed, and its id added again or its lock ending afterwards'
breaks='flushing keeps the messages locked by a nack: the id stays hidden from new adds and comes back when the old lock ends'
edits=[('internal/queue/cache/memory_cache.go','''	cache.lockAckQueues = make(map[string]*list.List)
	cache.lockNackQueues = make(map[string]*list.List)
	cache.keys = make(map[string]string)
	cache.lock.Unlock()''','''	cache.lockAckQueues = make(map[string]*list.List)
	cache.keys = make(map[string]string)
	cache.lock.Unlock()''')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	w := start(t, "mm")
	w.add("q", m("a", 1, 0))
	w.pull("q", 1, 10000)
	w.nack(&deckard.AckRequest{Queue: "q", Id: "a", LockMs: 1000000})
	_, err := w.svc.Flush(ctx, &deckard.FlushRequest{})
	w.must(err)
	w.add("q", m("a", 1, 0))
	if ids := w.pull("q", 1, 10000); !eq(ids, "a") {
		t.Fatalf("%v delivered after the flush and a new add of a", ids)
	}
}
'''
