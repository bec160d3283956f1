id='c19-quiet-once'; prop='C19'; fakes=False
needs='five minutes without any event, later a few events (fewer than a batch) followed by silence'
breaks='the timer for incomplete batches is not armed again when it fires with nothing to send, so later events are kept until 200 have come together or the service stops'
edits=[('internal/audit/audit.go','''	entriesToSend := make([]Entry, 0, maxEntriesSize)

	for {
		a.senderStarted = true
''','''	entriesToSend := make([]Entry, 0, maxEntriesSize)

	// One timer for the whole life of the sender instead of a new one for every entry
	sendTimer := time.NewTimer(maxSendTime)
	defer sendTimer.Stop()

	for {
		a.senderStarted = true
'''),('internal/audit/audit.go','''		case <-time.After(maxSendTime):
			if len(entriesToSend) > 0 {
				a.send(ctx, entriesToSend...)
''','''		case <-sendTimer.C:
			if len(entriesToSend) > 0 {
				a.send(ctx, entriesToSend...)
				sendTimer.Reset(maxSendTime)
''')]
demo='''
//go:debug asynctimerchan=0
package zdemo

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
)

type store struct {
	mu  sync.Mutex
	got int
}

func (s *store) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		s.mu.Lock()
		s.got += bytes.Count(b, []byte("_index"))
		s.mu.Unlock()
	}
	a := `{"version":{"number":"7.17.0","build_flavor":"default"},"tagline":"You Know, for Search","errors":false,"items":[]}`
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r, ContentLength: int64(len(a)),
		Header: http.Header{"X-Elastic-Product": {"Elasticsearch"}, "Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(a))}, nil
}

func TestDemo(t *testing.T) {
	s := &store{}
	http.DefaultTransport = s
	config.AuditEnabled.Set(true)
	config.ElasticAddress.Set("http://127.0.0.1:9")
	synctest.Test(t, func(t *testing.T) {
		var wg sync.WaitGroup
		a, err := audit.NewAuditor(&wg)
		if err != nil {
			t.Fatal(err)
		}
		c, cancel := context.WithCancel(context.Background())
		go a.StartSender(c)
		synctest.Wait()
		total := 0
		for i := 0; i < 5; i++ {
			time.Sleep(20 * time.Minute)
			for j := 0; j < i; j++ {
				total++
				a.Store(c, audit.Entry{ID: fmt.Sprint(total), Queue: "q", Signal: audit.ACK})
			}
			time.Sleep(time.Hour)
			s.mu.Lock()
			if s.got != total {
				t.Errorf("%d of %d events sent after an hour without further ones", s.got, total)
			}
			s.mu.Unlock()
		}
		cancel()
		wg.Wait()
	})
}
'''
