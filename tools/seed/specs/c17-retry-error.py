id='c17-retry-error'; prop='C17'; fakes=True
needs='a pull whose message a lagging secondary does not have yet, and a failure of the second look-up on the primary'
breaks='the failed second look-up counts as proof that the message does not exist: it is dropped from the cache and the pull answers without error'
edits=[('internal/queue/queue.go','''	retryMessages, retryNotFound, err := pool.getFromStorage(ctx, notFound, queue, orderedSort, true)
	if err != nil {
		return nil, err
	}
''','''	retryMessages, retryNotFound, err := pool.getFromStorage(ctx, notFound, queue, orderedSort, true)
	if err != nil {
		retryNotFound = notFound
	}
''')]
demo='''
package zdemo

import (
	"context"
	"errors"
	"testing"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
)

type lagging struct {
	storage.Storage
	on bool
}

func (s *lagging) Find(c context.Context, o *storage.FindOptions) ([]message.Message, error) {
	if s.on && o.Retry {
		return nil, errors.New("no primary")
	}
	if s.on {
		return nil, nil
	}
	return s.Storage.Find(c, o)
}

func TestDemo(t *testing.T) {
	l := &lagging{}
	w := start(t, "rm", opts{wrapS: func(s storage.Storage) storage.Storage { l.Storage = s; return l }})
	w.add("q", m("a", 1, 0))
	l.on = true
	if r, err := w.svc.Pull(ctx, &deckard.PullRequest{Queue: "q", AckDeadlineMs: 1000}); err == nil {
		t.Fatal("the pull succeeded with ", r)
	}
	l.on = false
	clock.Add(2000)
	w.timeout()
	if ids := w.pull("q", 1, 1000); !eq(ids, "a") {
		t.Fatal(ids)
	}
}
'''
