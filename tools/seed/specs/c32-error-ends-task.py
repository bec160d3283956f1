id='c32-error-ends-task'; prop='C32'; fakes=True; bin=True
needs='one failing run of the timeout task (the cache refuses a command) some time before messages exceed their deadline'
breaks='the timeout task stops for good after its first failure: messages past their deadline stay in flight for ever'
edits=[('internal/cmd/deckard/main.go','''			_ = queue.ProcessTimeoutMessages(ctx, pool)

			return true
''','''			return queue.ProcessTimeoutMessages(ctx, pool) == nil
'''),('internal/cmd/deckard/main.go','''			executeTask(taskName, fn)
''','''			ok := true
			executeTask(taskName, func() bool {
				ok = fn()

				return ok
			})

			if !ok && taskName == TIMEOUT {
				taskWaitGroup.Done()

				return
			}
''')]
demo='''
package zdemo

import (
	"strings"
	"testing"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zdemo/fakeredis"
)

func TestDemo(t *testing.T) {
	r, err := fakeredis.Start(1)
	if err != nil {
		t.Fatal(err)
	}
	defer r.Close()
	begin := time.Now()
	r.SetFault(func(c *fakeredis.Command) fakeredis.Action {
		if strings.EqualFold(c.Name, "SCAN") && time.Since(begin) < 3*time.Second {
			return fakeredis.FailErr
		}
		return fakeredis.Pass
	})
	p := boot(t, "DECKARD_CACHE_TYPE=REDIS", "DECKARD_CACHE_URI="+r.URI(), "DECKARD_STORAGE_TYPE=MEMORY", "DECKARD_HOUSEKEEPER_TASK_TIMEOUT_DELAY=200ms")
	for time.Since(begin) < 5*time.Second {
		time.Sleep(50 * time.Millisecond)
	}
	a := m("a", 1, 0)
	a.Queue = "q"
	if _, err := p.cl.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{a}}); err != nil {
		t.Fatal(err)
	}
	if x, err := p.cl.Pull(ctx, &deckard.PullRequest{Queue: "q", AckDeadlineMs: 300}); err != nil || len(x.Messages) != 1 {
		t.Fatal(x, err)
	}
	for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(200 * time.Millisecond) {
		if x, err := p.cl.Pull(ctx, &deckard.PullRequest{Queue: "q", AckDeadlineMs: 300}); err == nil && len(x.Messages) == 1 {
			return
		}
	}
	t.Fatal("the message is not delivered again 30 s after its deadline of 300 ms")
}
'''
