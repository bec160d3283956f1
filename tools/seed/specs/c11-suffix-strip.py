id='c11-suffix-strip'; prop='C11'; fakes=True
needs='Redis cache: a queue whose name begins with the internal key prefix of another pool kind, or contains the text of the processing suffix, when timeout housekeeping runs'
breaks='the processing suffix is cut at its first occurrence, so the timeouts of such a queue are looked for under another name and its messages stay in flight for ever'
edits=[('internal/queue/cache/redis_cache.go','var PROCESSING_POOL_REGEX = regexp.MustCompile("(.+)" + PROCESSING_POOL_SUFFIX + "$")','var PROCESSING_POOL_REGEX = regexp.MustCompile("(.+?)" + PROCESSING_POOL_SUFFIX + ".*$")')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard/internal/queue/cache"
)

func TestDemo(t *testing.T) {
	w := start(t, "rm")
	q := "jobs" + cache.PROCESSING_POOL_SUFFIX + ":x"
	w.add(q, m("a", 5, 0))
	w.pull(q, 1, 10)
	clock.Add(20)
	w.timeout()
	if got := w.pull(q, 1, 10); !eq(got, "a") {
		t.Fatalf("pulled %v from %s after the timeout", got, q)
	}
}
'''
