id='c16-retry-page'; prop='C16'; fakes=True
needs='Redis cache, a recovered page with more than 2000 messages of one queue, and the write of its second part refused once: the retry finds the first part present'
breaks='a part of which nothing was new ends the insertion, so the retry of the page never writes its second part and those messages stay lost'
edits=[('internal/queue/cache/redis_cache.go','''		insertions = append(insertions, inserts...)
	}

	return insertions, nil''','''		if insertions = append(insertions, inserts...); len(inserts) == 0 {
			break
		}
	}

	return insertions, nil''')]
demo='''
package zdemo

import (
	"fmt"
	"strings"
	"testing"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/zdemo/fakeredis"
)

func TestDemo(t *testing.T) {
	w := start(t, "rm")
	var ms []*deckard.AddMessage
	for i := 0; i < 3000; i++ {
		ms = append(ms, m(fmt.Sprint("m", i), float64(i+1), 0))
	}
	w.add("q", ms...)
	w.ca.Flush(ctx)
	n := 0
	w.redis.SetFault(func(c *fakeredis.Command) fakeredis.Action {
		if strings.HasPrefix(strings.ToUpper(c.Name), "EVAL") && len(c.Args) > 1000 {
			if n++; n == 2 {
				return fakeredis.FailErr
			}
		}
		return fakeredis.Pass
	})
	for i := 0; i < 6; i++ {
		queue.RecoveryMessagesPool(ctx, w.q)
	}
	w.redis.SetFault(nil)
	got := 0
	for {
		ids := w.pull("q", 1000, 1000000)
		if len(ids) == 0 {
			break
		}
		got += len(ids)
	}
	if got != 3000 {
		t.Fatalf("%d of 3000 messages delivered after the recovery", got)
	}
}
'''
