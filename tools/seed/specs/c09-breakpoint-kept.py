id='c09-breakpoint-kept'; prop='C09'; fakes=True
needs='MongoDB storage: an ack with a breakpoint followed by an ack without one'
breaks='an ack with an empty breakpoint leaves the old one in place'
edits=[('internal/queue/storage/mongo_storage.go','''			"breakpoint":                    message.Breakpoint,
			"score":                         message.Score,
			"lock_ms":                       message.LockMs,
			"diagnostics.consecutive_nacks": 0,
		},
''','''			"score":                         message.Score,
			"lock_ms":                       message.LockMs,
			"diagnostics.consecutive_nacks": 0,
		},
'''),('internal/queue/storage/mongo_storage.go','''			"diagnostics.consecutive_acks": 1,
		},
	}

	logger.S(ctx).Debugw("Storage operation: update one operation.", "filter", filter, "update", update)

	res, err := storage.messagesCollection.UpdateOne(ctx, filter, update)

	if err != nil {
		return 0, fmt.Errorf("error updating storage element: %w", err)
	}

	return res.ModifiedCount, nil
}

// Nack''','''			"diagnostics.consecutive_acks": 1,
		},
	}

	if message.Breakpoint != "" {
		update["$set"].(bson.M)["breakpoint"] = message.Breakpoint
	}

	logger.S(ctx).Debugw("Storage operation: update one operation.", "filter", filter, "update", update)

	res, err := storage.messagesCollection.UpdateOne(ctx, filter, update)

	if err != nil {
		return 0, fmt.Errorf("error updating storage element: %w", err)
	}

	return res.ModifiedCount, nil
}

// Nack''')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	w := start(t, "mg")
	w.add("q", m("a", 5, 0))
	for _, b := range []string{"here", ""} {
		w.pull("q", 1, 100000)
		w.ack(&deckard.AckRequest{Queue: "q", Id: "a", Breakpoint: b})
		r, err := w.svc.GetById(ctx, &deckard.GetByIdRequest{Queue: "q", Id: "a"})
		w.must(err)
		if r.Message.Breakpoint != b {
			t.Fatalf("breakpoint %q, want %q", r.Message.Breakpoint, b)
		}
	}
}
'''
