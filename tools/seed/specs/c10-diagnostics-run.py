id='c10-diagnostics-run'; prop='C10'; fakes=True
needs='MongoDB storage: nacks, then an ack, then another nack of one message'
breaks='an ack does not end the run of consecutive nacks'
edits=[('internal/queue/storage/mongo_storage.go','\t\t\t"last_usage":                    message.LastUsage,\n\t\t\t"last_score_subtract":           message.LastScoreSubtract,\n\t\t\t"breakpoint":                    message.Breakpoint,\n\t\t\t"score":                         message.Score,\n\t\t\t"lock_ms":                       message.LockMs,\n\t\t\t"diagnostics.consecutive_nacks": 0,\n','\t\t\t"last_usage":          message.LastUsage,\n\t\t\t"last_score_subtract": message.LastScoreSubtract,\n\t\t\t"breakpoint":          message.Breakpoint,\n\t\t\t"score":               message.Score,\n\t\t\t"lock_ms":             message.LockMs,\n')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	w := start(t, "mg")
	w.add("q", m("a", 5, 0))
	for i := 0; i < 3; i++ {
		w.pull("q", 1, 100000)
		w.nack(&deckard.AckRequest{Queue: "q", Id: "a"})
	}
	w.pull("q", 1, 100000)
	w.ack(&deckard.AckRequest{Queue: "q", Id: "a"})
	r, err := w.svc.Pull(ctx, &deckard.PullRequest{Queue: "q"})
	w.must(err)
	if d := r.Messages[0].Diagnostics; d.ConsecutiveNacks != 0 || d.ConsecutiveAcks != 1 {
		t.Fatalf("%v", d)
	}
}
'''
