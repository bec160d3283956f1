id='c15-off-ignored'; prop='C15'; fakes=False
needs='a limit that was read (and so cached) before it is turned off with a negative value'
breaks='turning the limit off is skipped once the configuration is cached: the old limit stays in force'
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	w := start(t, "mm")
	w.edit("q", 7)
	get := func() int64 {
		r, err := w.svc.GetQueue(ctx, &deckard.GetQueueRequest{Queue: "q"})
		w.must(err)
		return r.Configuration.MaxElements
	}
	if n := get(); n != 7 {
		t.Fatal(n)
	}
	w.edit("q", -1)
	if n := get(); n != 0 {
		t.Fatalf("limit read back %d after it was turned off, want 0", n)
	}
}
'''
edits=[('internal/queue/queue_configuration_service.go','''	if cacheConfiguration.MaxElements != cfg.MaxElements {''','''	if cacheConfiguration.MaxElements != cfg.MaxElements && cfg.MaxElements > 0 {''')]
