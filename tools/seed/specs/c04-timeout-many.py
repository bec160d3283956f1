id='c04-timeout-many'; prop='C04'; fakes=True
needs='Redis cache: more than 1000 messages of one queue past their deadline when timeout housekeeping runs'
breaks='all messages past the deadline are taken out of the processing pool, but only the first 1000 are put back: the others are never delivered again'
edits=[('internal/queue/cache/redis_cache_scripts.go','''	redis.call('ZADD', KEYS[1], ARGV[2], key)
end
redis.call('ZREM', KEYS[2], unpack(elements))

return elements
''','''	redis.call('ZADD', KEYS[1], ARGV[2], key)
end
redis.call('ZREMRANGEBYSCORE', KEYS[2], '0', ARGV[1])

return elements
''')]
demo='''
package zdemo

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	w := start(t, "rm")
	for i := 0; i < 1300; i++ {
		w.add("q", m(fmt.Sprint("m", i), float64(i+1), 0))
	}
	w.pull("q", 1000, 10)
	w.pull("q", 300, 10)
	clock.Add(20)
	w.timeout()
	w.timeout()
	n := len(w.pull("q", 1000, 100000)) + len(w.pull("q", 1000, 100000))
	if n != 1300 {
		t.Fatalf("%d of 1300 messages are delivered after their timeout", n)
	}
}
'''
