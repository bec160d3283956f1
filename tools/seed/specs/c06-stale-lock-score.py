id='c06-stale-lock-score'; prop='C06'; fakes=True
needs='Redis cache: a message locked with an explicit score, unlocked, pulled again and locked again without a score'
breaks='the score of the first lock is kept and applied at the end of the second lock instead of the time of unlocking'
edits=[('internal/queue/cache/redis_cache_scripts.go',"redis.call('ZREM', KEYS[1], unpack(elements))\nredis.call('ZREM', KEYS[3], unpack(elements))\n\nreturn elements\n`\n\n// Moves n","redis.call('ZREM', KEYS[1], unpack(elements))\n\nreturn elements\n`\n\n// Moves n")]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	w := start(t, "rm")
	w.add("q", m("a", 5, 0), m("b", 7, 0))
	w.pull("q", 1, 100000)
	w.ack(&deckard.AckRequest{Queue: "q", Id: "a", LockMs: 10, Score: 1})
	clock.Add(10)
	w.unlock()
	w.pull("q", 1, 100000)
	w.ack(&deckard.AckRequest{Queue: "q", Id: "a", LockMs: 10})
	clock.Add(10)
	w.unlock()
	if got := w.pull("q", 1, 100000); !eq(got, "b") {
		t.Fatalf("pulled %v, want b: a was unlocked without a score and is the most recent", got)
	}
}
'''
