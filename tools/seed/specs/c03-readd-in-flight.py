id='c03-readd-in-flight'; prop='C03'; fakes=True
needs='Redis cache: a message that is in flight is added again while others are in the same batch, then pulled'
breaks='the presence check of an addition stops at the first pool that holds any element of the batch, so a message in flight is made available to someone else'
edits=[('internal/queue/cache/redis_cache_scripts.go','''	local exists = false

	for _, pool in ipairs(KEYS) do
		local score = redis.call('ZSCORE', pool, element)
''','''	local exists = false

	for k=1, math.max(3, #KEYS - #inserted) do
		local score = redis.call('ZSCORE', KEYS[k], element)
''')]
demo='''
package zdemo

import "testing"

func TestDemo(t *testing.T) {
	w := start(t, "rm")
	w.add("q", m("a", 1, 0))
	w.pull("q", 1, 100000)
	w.add("q", m("b", 5, 0), m("a", 1, 0))
	if got := w.pull("q", 5, 100000); !eq(got, "b") {
		t.Fatalf("pulled %v, want b: a is in flight", got)
	}
}
'''
