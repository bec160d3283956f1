id='c21-unlock-queue'; prop='C21'; bin=True
needs='locks that end in two queues at the same run of the unlock task'
breaks='messages unlocked in any queue are counted under the first queue of the run'
edits=[('internal/queue/queue_housekeeper.go','message.GetQueuePrefix(queues[i])), attribute.String("lock_type"','message.GetQueuePrefix(queues[0])), attribute.String("lock_type"')]
demo='''
package zdemo

import (
	"fmt"
	"io"
	"net/http"
	"regexp"
	"testing"
	"time"

	"github.com/takenet/deckard"
)

func TestDemo(t *testing.T) {
	port := freePort()
	p := boot(t, "DECKARD_CACHE_TYPE=MEMORY", "DECKARD_STORAGE_TYPE=MEMORY", "DECKARD_METRICS_ENABLED=true", fmt.Sprint("DECKARD_METRICS_PORT=", port),
		"DECKARD_HOUSEKEEPER_TASK_UNLOCK_DELAY=1500ms")
	seen := map[string]bool{}
	for q := 0; q < 6; q++ {
		qn := fmt.Sprint("q", q)
		a := m("a", 1, 0)
		a.Queue = qn
		if _, err := p.cl.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{a}}); err != nil {
			t.Fatal(err)
		}
		if _, err := p.cl.Pull(ctx, &deckard.PullRequest{Queue: qn, Amount: 1}); err != nil {
			t.Fatal(err)
		}
		if _, err := p.cl.Ack(ctx, &deckard.AckRequest{Queue: qn, Id: "a", LockMs: 1}); err != nil {
			t.Fatal(err)
		}
	}
	re := regexp.MustCompile(`(?m)^deckard_message_unlock[a-z_]*\\{[^}]*queue="(q\\d)"[^}]*\\} ([0-9.]+)`)
	var body string
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end) && len(seen) < 6; time.Sleep(200 * time.Millisecond) {
		r, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", port))
		if err != nil {
			continue
		}
		b, _ := io.ReadAll(r.Body)
		_ = r.Body.Close()
		body = string(b)
		total := 0
		for _, x := range re.FindAllStringSubmatch(body, -1) {
			seen[x[1]] = true
			n := 0
			_, _ = fmt.Sscan(x[2], &n)
			total += n
			if n > 1 {
				t.Fatalf("%s: %d unlocked, although it has one message", x[1], n)
			}
		}
		if total >= 6 {
			break
		}
	}
	if len(seen) < 6 {
		t.Fatalf("unlocked messages counted for %d of 6 queues only\\n%s", len(seen), body)
	}
}
'''
