id='c19-async-send'; prop='C19'; fakes=False
needs='shutdown while a full batch of audit entries is still being sent'
breaks='full batches are sent in the background and shutdown does not wait for them, so up to 200 entries and more are lost'
edits=[('internal/audit/audit.go','''			if len(entriesToSend) == maxEntriesSize {
				a.send(ctx, entriesToSend...)

				entriesToSend =''','''			if len(entriesToSend) == maxEntriesSize {
				go a.send(ctx, entriesToSend...)

				entriesToSend =''')]
demo='''
package zdemo

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"net/http/httptest"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
)

func TestDemo(t *testing.T) {
	var got atomic.Int64
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("X-Elastic-Product", "Elasticsearch")
		w.Header().Set("Content-Type", "application/json")
		b, _ := io.ReadAll(r.Body)
		if len(b) > 0 {
			time.Sleep(time.Duration(bytes.Count(b, []byte("_index"))) * 5 * time.Millisecond)
			got.Add(int64(bytes.Count(b, []byte("_index"))))
		}
		w.Write([]byte(`{"version":{"number":"7.17.0","build_flavor":"default"},"tagline":"You Know, for Search","errors":false,"items":[]}`))
	}))
	defer s.Close()
	config.AuditEnabled.Set(true)
	config.ElasticAddress.Set(s.URL)
	var wg sync.WaitGroup
	a, err := audit.NewAuditor(&wg)
	if err != nil {
		t.Fatal(err)
	}
	c, cancel := context.WithCancel(context.Background())
	go a.StartSender(c)
	for i := 0; i < 250; i++ {
		a.Store(c, audit.Entry{ID: "x", Queue: "q", Signal: audit.ACK})
	}
	time.Sleep(100 * time.Millisecond)
	cancel()
	wg.Wait()
	if n := got.Load(); n != 250 {
		t.Fatalf("%d of 250 audit entries sent when the shutdown is complete", n)
	}
}
'''
