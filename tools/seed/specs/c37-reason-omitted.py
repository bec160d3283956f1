id='c37-reason-omitted'; prop='C37'; fakes=False
needs='acks or nacks without a reason'
breaks='audit documents of acks and nacks without a reason lack the field, so they vanish from the Kibana charts of reasons, whose terms aggregation has no bucket for missing fields'
edits=[('internal/audit/audit.go','	Reason            string    `json:"reason"`','	Reason            string    `json:"reason,omitempty"`')]
demo='''
package zdemo

import (
	"bytes"
	"context"
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
)

// The chart of reasons counts the documents by the value of "reason": a document without it is in no bucket.
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	buckets, docs := map[string]int{}, 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("X-Elastic-Product", "Elasticsearch")
		w.Header().Set("Content-Type", "application/json")
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		defer mu.Unlock()
		for _, l := range bytes.Split(b, []byte("\\n")) {
			var d map[string]any
			if json.Unmarshal(l, &d) != nil || d["signal"] != "ACK" {
				continue
			}
			docs++
			if s, ok := d["reason"].(string); ok {
				buckets[s]++
			}
		}
		io.WriteString(w, `{"version":{"number":"7.17.0"},"tagline":"You Know, for Search","errors":false,"items":[]}`)
	}))
	defer srv.Close()
	config.AuditEnabled.Set(true)
	config.ElasticAddress.Set(srv.URL)
	var wg sync.WaitGroup
	a, err := audit.NewAuditor(&wg)
	if err != nil {
		t.Fatal(err)
	}
	c, cancel := context.WithCancel(ctx)
	go a.StartSender(c)
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < 10; i++ {
		a.Store(ctx, audit.Entry{ID: "a", Queue: "q", Signal: audit.ACK, Reason: strings.Repeat("DONE", i%2)})
	}
	cancel()
	wg.Wait()
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		mu.Lock()
		n := docs
		mu.Unlock()
		if n == 10 {
			break
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if docs != 10 || buckets[""] != 5 || buckets["DONE"] != 5 {
		t.Fatalf("%d documents, the chart of reasons shows %v, want 5 without reason and 5 DONE", docs, buckets)
	}
}
'''
