id='c14-same-second'; prop='C14'; fakes=False
needs='a queue above its limit with messages whose expiry dates differ by less than a second, memory storage'
breaks='expiry dates are compared by the second, so a message that expires later may be evicted before one that expires sooner'
edits=[('internal/queue/storage/memory_storage.go','''						return messages[i].ExpiryDate.Before(messages[j].ExpiryDate)''','''						return messages[i].ExpiryDate.Unix() < messages[j].ExpiryDate.Unix()''')]
demo='''
package zdemo

import (
	"fmt"
	"testing"

	"github.com/takenet/deckard/internal/queue"
)

func TestDemo(t *testing.T) {
	w := start(t, "mm")
	for i := 19; i >= 0; i-- {
		clock.Store(1_700_000_000_000 + int64(i))
		w.add("q", m(fmt.Sprint("m", i), float64(i+1), 50))
	}
	w.edit("q", 10)
	_, err := queue.RemoveExceedingMessages(ctx, w.q)
	w.must(err)
	for i := 10; i < 20; i++ {
		if !w.found("q", fmt.Sprint("m", i)) {
			t.Fatalf("m%d was evicted although ten other messages expire sooner", i)
		}
	}
}
'''
