id='c02-filter-overrides'; prop='C02'
needs='a pull that gives the deprecated score filter and a maximum score together'
breaks='the score filter replaces an explicit maximum, so messages above it are delivered'
edits=[('internal/service/deckard_service.go','	if request.MaxScore == 0 && request.ScoreFilter > 0 {','	if request.ScoreFilter > 0 {')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	w := start(t, "mm")
	w.add("q", m("a", 100, 0), m("b", 200, 0))
	r, err := w.svc.Pull(ctx, &deckard.PullRequest{Queue: "q", Amount: 5, MaxScore: 150, ScoreFilter: 5})
	w.must(err)
	if len(r.Messages) != 1 || r.Messages[0].Id != "a" {
		t.Fatalf("%v delivered below 150", r.Messages)
	}
}
'''
