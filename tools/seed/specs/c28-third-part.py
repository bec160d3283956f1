id='c28-third-part'; prop='C28'
needs='a queue name with two double colons'
breaks='the suffix of the name stops at its second double colon, so prefix and suffix no longer reassemble to the name'
edits=[('internal/queue/message/message.go','strings.SplitN(queue, pool.QUEUE_SEPARATOR, 2)','strings.SplitN(queue, pool.QUEUE_SEPARATOR, 3)')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard/internal/queue/message"
)

func TestDemo(t *testing.T) {
	p, s := message.GetQueueParts("a::b::c")
	if p != "a" || s != "b::c" {
		t.Fatal(p, s)
	}
}
'''
