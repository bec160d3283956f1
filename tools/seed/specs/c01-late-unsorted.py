id='c01-late-unsorted'; prop='C01'; fakes=False
needs='a pull some of whose messages are missing from the first (secondary) storage read and found by the second (primary) read, with lower scores than those found at first, differing by less than one'
breaks='scores are compared as integers when messages found late are merged, so the response is not ordered by score'
edits=[('internal/queue/queue.go','''			return messages[i].Score < messages[j].Score
		})
''','''			return int64(messages[i].Score) < int64(messages[j].Score)
		})
''')]
demo='''
package zdemo

import (
	"context"
	"testing"

	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
)

type lagging struct{ storage.Storage }

func (l lagging) Find(ctx context.Context, o *storage.FindOptions) ([]message.Message, error) {
	ms, err := l.Storage.Find(ctx, o)
	if err != nil || o == nil || o.Retry {
		return ms, err
	}
	out := ms[:0]
	for _, m := range ms {
		if m.ID != "a" {
			out = append(out, m)
		}
	}
	return out, nil
}

func TestDemo(t *testing.T) {
	w := start(t, "mm", opts{wrapS: func(s storage.Storage) storage.Storage { return lagging{s} }})
	w.add("q", m("a", 1.1, 0), m("b", 1.2, 0), m("c", 3, 0))
	if got := w.pull("q", 3, 100000); !eq(got, "a", "b", "c") {
		t.Fatalf("pulled %v", got)
	}
}
'''
