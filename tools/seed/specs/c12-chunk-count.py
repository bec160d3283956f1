id='c12-chunk-count'; prop='C12'; fakes=True
needs='Redis cache: one removal of more than 4000 ids'
breaks='the ids of the last, incomplete chunk stay in the cache'
edits=[('internal/queue/cache/redis_cache.go','''	for index := range gopart.Partition(len(idList), 4000) {
''','''	for index := range gopart.Partition(max(len(idList)-len(idList)%4000, min(len(idList), 4000)), 4000) {
''')]
demo='''
package zdemo

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	w := start(t, "rm")
	w.add("q", m("last", 5, 0))
	var ids []string
	for i := 0; i < 4200; i++ {
		ids = append(ids, fmt.Sprint("x", i))
	}
	ids = append(ids, "last")
	if r := w.remove("q", ids...); r.CacheRemoved != 1 || r.StorageRemoved != 1 {
		t.Fatalf("%v", r)
	}
}
'''
