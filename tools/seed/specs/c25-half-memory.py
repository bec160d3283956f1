id='c25-half-memory'; prop='C25'; fakes=True; bin=True
needs='a flush request to a service of which only the cache is in memory'
breaks='a service with a memory cache and a MongoDB storage counts as a memory instance, so a flush deletes the persistent messages'
edits=[('internal/cmd/deckard/main.go','config.CacheType.Get() == string(cache.MEMORY) && config','config.CacheType.Get() == string(cache.MEMORY) || config')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zdemo/fakemongo"
)

func TestDemo(t *testing.T) {
	g, err := fakemongo.Start()
	if err != nil {
		t.Fatal(err)
	}
	defer g.Close()
	p := boot(t, "DECKARD_CACHE_TYPE=MEMORY", "DECKARD_STORAGE_TYPE=MONGODB", "DECKARD_STORAGE_URI="+g.URI())
	a := m("a", 1, 0)
	a.Queue = "q"
	if _, err := p.cl.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{a}}); err != nil {
		t.Fatal(err)
	}
	_, _ = p.cl.Flush(ctx, &deckard.FlushRequest{})
	r, err := p.cl.GetById(ctx, &deckard.GetByIdRequest{Queue: "q", Id: "a"})
	if err != nil || !r.Found {
		t.Fatalf("the persistent message is gone after a flush: %v %v", r, err)
	}
}
'''
