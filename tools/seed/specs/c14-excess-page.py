id='c14-excess-page'; prop='C14'
needs='a queue that holds over 1000 messages more than its maximum'
breaks='one eviction run removes at most 1000 messages, so the queue still exceeds its maximum'
edits=[('internal/queue/queue_housekeeper.go','		Limit: diff,','		Limit: min(diff, 1000),')]
demo='''
package zdemo

import (
	"fmt"
	"testing"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
)

func TestDemo(t *testing.T) {
	w := start(t, "mm")
	var l []*deckard.AddMessage
	for i := 0; i < 1500; i++ {
		l = append(l, m(fmt.Sprint("m", i), 1, 60))
	}
	w.add("q", l...)
	w.edit("q", 100)
	_, err := queue.RemoveExceedingMessages(ctx, w.q)
	w.must(err)
	if n := w.count("q"); n != 100 {
		t.Fatalf("%d messages left", n)
	}
}
'''
