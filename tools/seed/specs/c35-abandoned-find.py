id='c35-abandoned-find'; prop='C35'
needs='clients that end a pull or a lookup before its messages are read'
breaks='the goroutine that reads the messages of an abandoned call waits forever to hand them over'
edits=[('internal/queue/queue.go','''	messages, err := pool.storage.Find(ctx, &storage.FindOptions{
		Sort: sort,
		InternalFilter: &storage.InternalFilter{
			Ids:   &ids,
			Queue: queue,
		},
		Limit: int64(len(ids)),
		Retry: retry,
	})

	if err != nil {
		logger.S(ctx).Error("Error getting data''','''	type result struct {
		messages []message.Message
		err      error
	}

	results := make(chan result)
	go func() {
		found, err := pool.storage.Find(ctx, &storage.FindOptions{
			Sort: sort,
			InternalFilter: &storage.InternalFilter{
				Ids:   &ids,
				Queue: queue,
			},
			Limit: int64(len(ids)),
			Retry: retry,
		})

		results <- result{found, err}
	}()

	var messages []message.Message
	var err error

	select {
	case r := <-results:
		messages, err = r.messages, r.err
	case <-ctx.Done():
		err = ctx.Err()
	}

	if err != nil {
		logger.S(ctx).Error("Error getting data''')]
demo='''
package zdemo

import (
	"context"
	"fmt"
	"runtime"
	"testing"
	"time"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	w := start(t, "mm")
	for i := 0; i < 300; i++ {
		a := m(fmt.Sprint(i), 1, 0)
		a.Queue = "q"
		_, err := w.svc.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{a}})
		w.must(err)
	}
	n := runtime.NumGoroutine()
	for i := 0; i < 300; i++ {
		gone, cancel := context.WithCancel(ctx)
		cancel()
		_, _ = w.svc.Pull(gone, &deckard.PullRequest{Queue: "q", Amount: 1})
	}
	for i := 0; i < 40 && runtime.NumGoroutine() > n+10; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if k := runtime.NumGoroutine(); k > n+10 {
		t.Fatalf("%d goroutines after 300 abandoned calls, %d before", k, n)
	}
}
'''
