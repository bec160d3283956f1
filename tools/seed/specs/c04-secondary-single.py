id='c04-secondary-single'; prop='C04'; fakes=True
needs='a MongoDB replica set whose secondary has not replicated a message yet when a pull of that one message looks it up'
breaks='the second look-up of a single missing message goes to the lagging secondary again, so the message is dropped from the cache as inconsistent and never delivered'
edits=[('internal/queue/storage/mongo_storage.go','	if opt.Retry {\n','	if opt.Retry && opt.Limit > 1 {\n')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zdemo/fakemongo"
)

func TestDemo(t *testing.T) {
	g, err := fakemongo.StartReplicaSet()
	if err != nil {
		t.Fatal(err)
	}
	defer g.Close()
	config.StorageUri.Set(g.URI())
	st, err := storage.CreateStorage(ctx, storage.MONGODB)
	if err != nil {
		t.Fatal(err)
	}
	w := start(t, "rm", opts{wrapS: func(storage.Storage) storage.Storage { return st }})
	w.add("q", m("a", 1, 0))
	g.SetLag(func(string) bool { return true })
	w.pull("q", 1, 1000)
	g.SetLag(func(string) bool { return false })
	clock.Add(2000)
	w.timeout()
	if ids := w.pull("q", 1, 1000); !eq(ids, "a") {
		t.Fatalf("the message is lost: %v", ids)
	}
}
'''
