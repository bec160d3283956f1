id='c13-expiry-renewed'; prop='C13'; fakes=True
needs='MongoDB storage: a message added with minutes to live and later added again as timeless'
breaks='the expiry of the first addition is kept, so a timeless message expires'
edits=[('internal/queue/storage/mongo_storage.go','''		setFields["expiry_date"] = q.ExpiryDate

''','''		if q.Timeless {
			setOnInsert["expiry_date"] = q.ExpiryDate
		} else {
			setFields["expiry_date"] = q.ExpiryDate
		}

''')]
demo='''
package zdemo

import "testing"

func TestDemo(t *testing.T) {
	w := start(t, "mg")
	w.add("q", m("a", 5, 1))
	w.add("q", m("a", 5, 0))
	clock.Add(120_000)
	w.ttl()
	if !w.found("q", "a") {
		t.Fatal("a timeless message was removed as expired")
	}
}
'''
