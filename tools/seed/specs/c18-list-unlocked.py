id='c18-list-unlocked'; prop='C18'; fakes=False; race=True
needs='housekeeping listing queues of the memory cache while clients use it'
breaks='the list of queues is walked after the lock is released: concurrent map access, which crashes the process'
edits=[('internal/queue/cache/memory_cache.go','''	cache.lock.Lock()
	defer cache.lock.Unlock()

	var queueMap *map[string]*list.List
''','''	var queueMap *map[string]*list.List

	cache.lock.Lock()
'''),('internal/queue/cache/memory_cache.go','''		queueMap = &cache.lockNackQueues
	}

	for queue''','''		queueMap = &cache.lockNackQueues
	}
	cache.lock.Unlock()

	for queue''')]
demo='''
package zdemo

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	w := start(t, "mm")
	done := make(chan bool)
	go func() {
		for i := 0; i < 300; i++ {
			w.add(fmt.Sprint("q", i), m("a", 1, 0))
			w.pull(fmt.Sprint("q", i), 1, 1)
		}
		close(done)
	}()
	for {
		select {
		case <-done:
			return
		default:
			w.timeout()
		}
	}
}
'''
