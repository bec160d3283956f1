id='c05-second-deadline'; prop='C05'; fakes=True
needs='Redis cache: timeout housekeeping that runs less than a second before a deadline'
breaks='deadlines are counted from the beginning of the second of the pull, so a message times out up to a second early'
edits=[('internal/queue/cache/redis_cache.go','newScore := dtime.TimeToMs(&now) + ackDeadlineMs','newScore := now.Unix()*1000 + ackDeadlineMs')]
demo='''
package zdemo

import "testing"

func TestDemo(t *testing.T) {
	w := start(t, "rm")
	clock.Add(900)
	w.add("q", m("a", 1, 0))
	w.pull("q", 1, 1000)
	clock.Add(200)
	w.timeout()
	if got := w.pull("q", 1, 1000); len(got) != 0 {
		t.Fatalf("pulled %v 200 ms after a pull with a deadline of 1 s", got)
	}
}
'''
