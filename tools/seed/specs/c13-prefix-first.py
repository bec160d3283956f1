id='c13-prefix-first'; prop='C13'; fakes=False
needs='one expiry run in which messages of a queue named by a bare prefix ("p") expire earlier than messages of a suffixed queue of that prefix ("p::x")'
breaks='the expired messages of the suffixed queue are removed from the queue of the bare prefix: they stay, and messages of that queue with the same ids go instead'
edits=[('internal/queue/queue_housekeeper.go','''		if messageMap[messages[i].Queue] == nil {
			messageMap[messages[i].Queue] = make([]string, 0)
		}

		messageMap[messages[i].Queue] = append(messageMap[messages[i].Queue], messages[i].ID)
	}
''','''		// Group the removals of the queues of a prefix
		group := message.GetQueuePrefix(messages[i].Queue)

		if messageMap[group] == nil {
			group = messages[i].Queue
		}

		messageMap[group] = append(messageMap[group], messages[i].ID)
	}
''')]
demo='''
package zdemo

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	w := start(t, "mm")
	w.add("p", m("a", 1, 1), m("b", 2, 0))
	w.add("p::x", m("b", 3, 2), m("c", 4, 0))
	clock.Add(int64(3 * time.Minute / time.Millisecond))
	w.ttl()
	if w.found("p", "a") {
		t.Error("an expired message is still there")
	}
	if !w.found("p", "b") {
		t.Error("a message that never expires is gone")
	}
	if n := w.count("p"); n != 1 {
		t.Errorf("%d messages in p, want 1", n)
	}
	if n := w.count("p::x"); n != 1 {
		t.Errorf("%d messages in p::x, want 1", n)
	}
}
'''
