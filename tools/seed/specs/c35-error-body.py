id='c35-error-body'; prop='C35'
needs='audit requests that the server refuses'
breaks='the response to a refused audit request is never closed: each one keeps its connection and its goroutines'
edits=[('internal/audit/audit.go','''	defer func() {
		// exhaust body so connection can be reused.
		_, _ = ioutil.ReadAll(response.Body)
		_ = response.Body.Close()
	}()

	if response.IsError() {
		logger.S(ctx).Error("Error sending audit data.", response.String())
		return
	}
''','''	if response.IsError() {
		logger.S(ctx).Error("Error sending audit data.", response.Status())
		return
	}

	// exhaust body so connection can be reused.
	_, _ = ioutil.ReadAll(response.Body)
	_ = response.Body.Close()
''')]
demo='''
package zdemo

import (
	"context"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
)

func TestDemo(t *testing.T) {
	var open, bulks atomic.Int64
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("X-Elastic-Product", "Elasticsearch")
		w.Header().Set("Content-Type", "application/json")
		if strings.HasSuffix(r.URL.Path, "/_bulk") {
			bulks.Add(1)
			http.Error(w, strings.Repeat("{}", 100000), 429)
			return
		}
		fmt.Fprint(w, `{"version":{"number":"7.17.0","build_flavor":"default"},"tagline":"You Know, for Search"}`)
	}))
	s.Config.ConnState = func(_ net.Conn, x http.ConnState) {
		if x == http.StateNew {
			open.Add(1)
		}
		if x == http.StateClosed {
			open.Add(-1)
		}
	}
	s.Start()
	config.Configure()
	config.AuditEnabled.Set(true)
	config.ElasticAddress.Set(s.URL)
	wg := &sync.WaitGroup{}
	a, err := audit.NewAuditor(wg)
	if err != nil {
		t.Fatal(err)
	}
	c, cancel := context.WithCancel(context.Background())
	defer cancel()
	go a.StartSender(c)
	for i := 0; i < 6000; i++ {
		a.Store(c, audit.Entry{ID: fmt.Sprint(i), Queue: "q", Signal: audit.ACK})
	}
	for i := 0; i < 200 && bulks.Load() < 30; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	for i := 0; i < 40 && open.Load() > 8; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if n := open.Load(); n > 8 {
		t.Fatalf("%d connections open after %d refused requests", n, bulks.Load())
	}
}
'''
