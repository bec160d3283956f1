id='c27-empty-page'; prop='C27'; fakes=True
needs='a Redis keyspace in which a page of the scan holds no matching key but a later one does'
breaks='listing stops at the first page without a matching key, so queues are missing from the list (and from housekeeping)'
edits=[('internal/queue/cache/redis_cache.go','		if cursor == 0 {\n			break','		if cursor == 0 || len(batch) == 0 {\n			break')]
demo='''
package zdemo

import (
	"fmt"
	"testing"

	"github.com/takenet/deckard/internal/queue/pool"
)

func TestDemo(t *testing.T) {
	w := start(t, "rm")
	// fewer keys than this a page, so that some pages hold none of the wanted kind
	w.redis.ScanPage = 3
	for i := 0; i < 60; i++ {
		w.add(fmt.Sprint("q", i), m("a", 1, 0))
	}
	w.pull("q7", 1, 100000)
	w.pull("q8", 1, 100000)
	got, err := w.ca.ListQueues(ctx, "*", pool.PROCESSING_POOL)
	w.must(err)
	if len(got) != 2 {
		t.Fatal("queues with messages in flight: ", got)
	}
}
'''
