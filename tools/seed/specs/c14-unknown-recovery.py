id='c14-unknown-recovery'; prop='C14'; fakes=True
needs='a recovery in progress and a failing read of its state at the start of an eviction run'
breaks='eviction goes on when it can not find out whether a recovery is running, and removes messages during one'
edits=[('internal/queue/queue_housekeeper.go','''func RemoveExceedingMessages(ctx context.Context, pool *Queue) (bool, error) {
	if isRecovering, err := isRecovering(ctx, pool); isRecovering || err != nil {
		return false, err
	}
''','''func RemoveExceedingMessages(ctx context.Context, pool *Queue) (bool, error) {
	// A failure is logged there
	if isRecovering, _ := isRecovering(ctx, pool); isRecovering {
		return false, nil
	}
''')]
demo='''
package zdemo

import (
	"fmt"
	"strings"
	"testing"

	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/zdemo/fakeredis"
)

func TestDemo(t *testing.T) {
	w := start(t, "rm")
	for i := 0; i < 5; i++ {
		w.add("q", m(fmt.Sprint("m", i), float64(i+1), int64(i+10)))
	}
	w.edit("q", 2)
	w.must(w.ca.Set(ctx, cache.RECOVERY_RUNNING, "true"))
	w.redis.SetFault(func(c *fakeredis.Command) fakeredis.Action {
		if strings.EqualFold(c.Name, "get") {
			return fakeredis.FailErr
		}
		return fakeredis.Pass
	})
	_, _ = queue.RemoveExceedingMessages(ctx, w.q)
	w.redis.SetFault(nil)
	if n := w.count("q"); n != 5 {
		t.Errorf("%d of 5 messages left by an eviction run during a recovery", n)
	}
	w.must(w.ca.Set(ctx, cache.RECOVERY_RUNNING, "false"))
	_, _ = queue.RemoveExceedingMessages(ctx, w.q)
	if n := w.count("q"); n != 2 {
		t.Errorf("%d messages left by eviction after the recovery, want 2", n)
	}
}
'''
