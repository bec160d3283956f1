id='c07-ack-truncates'; prop='C07'; fakes=True
needs='an ack or nack without lock with a score that is not an integer, on the Redis cache'
breaks='the fraction of the given score is dropped, so the message becomes available with another priority'
edits=[('internal/queue/cache/redis_cache.go','''		[]string{cache.activePool(message.Queue), cache.processingPool(message.Queue)},
		message.Score,
		message.ID,
	)

	if cmd.Err() != nil {
		return false, fmt.Errorf("error making element available on cache: %w", cmd.Err())''','''		[]string{cache.activePool(message.Queue), cache.processingPool(message.Queue)},
		int64(message.Score),
		message.ID,
	)

	if cmd.Err() != nil {
		return false, fmt.Errorf("error making element available on cache: %w", cmd.Err())''')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	w := start(t, "rg")
	w.add("q", m("a", 5, 0))
	w.pull("q", 1, 100000)
	w.nack(&deckard.AckRequest{Queue: "q", Id: "a", Score: 2.75})
	w.add("q", m("b", 2.5, 0))
	r, err := w.svc.Pull(ctx, &deckard.PullRequest{Queue: "q"})
	w.must(err)
	if len(r.Messages) != 1 || r.Messages[0].Id != "b" {
		t.Fatalf("%v, want b: its 2.5 is lower than a's 2.75", r.Messages)
	}
}
'''
