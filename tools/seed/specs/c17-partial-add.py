id='c17-partial-add'; prop='C17'; fakes=True
needs='one add request with messages of two queues, and the cache refusing the write of one of them'
breaks='the failure of one queue is hidden as long as another queue accepted something: the add reports success although messages cannot be delivered'
edits=[('internal/queue/queue.go','''			logger.S(ctx).Error("Error inserting cache data: ", err)

			return 0, fmt.Errorf("error inserting cache data: %w", err)
		}
''','''			logger.S(ctx).Error("Error inserting cache data: ", err)

			failed = fmt.Errorf("error inserting cache data: %w", err)

			continue
		}
'''),('internal/queue/queue.go','''	count := int64(0)
	for queueName := range membersByQueue {''','''	var failed error
	count := int64(0)
	for queueName := range membersByQueue {'''),('internal/queue/queue.go','''		count += int64(len(insertions))
	}

	return count, nil''','''		count += int64(len(insertions))
	}

	if count == 0 && failed != nil {
		return 0, failed
	}

	return count, nil''')]
demo='''
package zdemo

import (
	"context"
	"errors"
	"testing"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
)

type bad struct{ cache.Cache }

func (b bad) Insert(c context.Context, queue string, ms ...*message.Message) ([]string, error) {
	if queue == "q2" {
		return nil, errors.New("refused")
	}
	return b.Cache.Insert(c, queue, ms...)
}

func TestDemo(t *testing.T) {
	w := start(t, "mm", opts{wrapC: func(c cache.Cache) cache.Cache { return bad{c} }})
	a, b := m("a", 1, 0), m("b", 1, 0)
	a.Queue, b.Queue = "q1", "q2"
	_, err := w.svc.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{a, b}})
	if err == nil {
		t.Fatal("add reports success although the cache refused queue q2")
	}
}
'''
