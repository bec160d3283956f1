id='c02-bound-digits'; prop='C02'; fakes=True
needs='Redis cache: a score bound with a fraction and a message whose score differs from it by less than a thousandth'
breaks='bounds are rounded to three decimals, so messages just outside are delivered or just inside are skipped'
edits=[('internal/queue/cache/redis_cache.go','''		args = append(args, *minScore)
''','''		args = append(args, strconv.FormatFloat(*minScore, 'f', 3, 64))
'''),('internal/queue/cache/redis_cache.go','''		args = append(args, *maxScore)
''','''		args = append(args, strconv.FormatFloat(*maxScore, 'f', 3, 64))
'''),('internal/queue/cache/redis_cache.go','	"regexp"\n','	"regexp"\n	"strconv"\n')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	w := start(t, "rm")
	w.add("q", m("a", 1.0004, 0), m("b", 2, 0))
	r, err := w.svc.Pull(ctx, &deckard.PullRequest{Queue: "q", Amount: 5, MinScore: 1.00045, AckDeadlineMs: 100000})
	w.must(err)
	if len(r.Messages) != 1 || r.Messages[0].Id != "b" {
		t.Fatalf("%v", r.Messages)
	}
}
'''
