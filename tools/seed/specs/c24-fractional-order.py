id='c24-fractional-order'; prop='C24'; fakes=True
needs='two scores that differ only in their fraction, the lower one added first'
breaks='the in-memory cache ignores the fraction when it sorts, Redis does not: the back ends deliver in different orders'
edits=[('internal/queue/cache/memory_cache.go','		if data.score <= value.score {','		if int64(data.score) <= int64(value.score) {')]
demo='''
package zdemo

import "testing"

func TestDemo(t *testing.T) {
	got := map[string][]string{}
	for _, kind := range []string{"mm", "rg"} {
		w := start(t, kind)
		w.add("q", m("low", 2.25, 0))
		w.add("q", m("high", 2.75, 0))
		got[kind] = w.pull("q", 1, 1000)
	}
	if !eq(got["mm"], got["rg"]...) {
		t.Fatal(got)
	}
}
'''
