id='c20-recovery-cut'; prop='C20'; fakes=True; bin=True
needs='a termination signal while a recovery step waits for MongoDB'
breaks='the recovery step in progress is cancelled by the shutdown instead of being finished'
edits=[('internal/cmd/deckard/main.go','		shutdown.CriticalWaitGroup,','		shutdown.WaitGroup,')]
demo='''
package zdemo

import (
	"fmt"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/zdemo/fakemongo"
	"github.com/takenet/deckard/internal/zdemo/fakeredis"
)

func TestDemo(t *testing.T) {
	w := start(t, "rg")
	for i := 0; i < 20; i++ {
		w.add("q", m(fmt.Sprint("m", i), float64(i+1), 0))
	}
	w.redis.Wipe()
	_ = config.CacheUri
	_ = fakeredis.Start
	held, release := make(chan struct{}), make(chan struct{})
	var once sync.Once
	n := 0
	var mu sync.Mutex
	w.mongo.SetLatency(func(c *fakemongo.Command) {
		mu.Lock()
		if c.Name == "find" {
			n++
		}
		second := n == 2
		mu.Unlock()
		if second {
			once.Do(func() { close(held); <-release })
		}
	})
	p := boot(t, "DECKARD_CACHE_TYPE=REDIS", "DECKARD_CACHE_URI="+w.redis.URI(), "DECKARD_CACHE_PREFIX=deckard", "DECKARD_STORAGE_TYPE=MONGODB", "DECKARD_STORAGE_URI="+w.mongo.URI(),
		"DECKARD_HOUSEKEEPER_TASK_UPDATE_DELAY=500ms", "DECKARD_HOUSEKEEPER_TASK_TTL_DELAY=1h", "DECKARD_HOUSEKEEPER_TASK_MAX_ELEMENTS_DELAY=1h", "DECKARD_HOUSEKEEPER_TASK_METRICS_DELAY=1h")
	select {
	case <-held:
	case <-time.After(60 * time.Second):
		t.Fatal("recovery does not start")
	}
	_ = p.cmd.Process.Signal(syscall.SIGTERM)
	time.Sleep(1500 * time.Millisecond)
	close(release)
	select {
	case <-p.done:
	case <-time.After(60 * time.Second):
		t.Fatal("still running")
	}
	if l := w.redis.Zset("deckard:queue:{q}"); len(l) != 20 {
		t.Fatalf("the recovery step in progress restored %d of 20 messages", len(l))
	}
}
'''
