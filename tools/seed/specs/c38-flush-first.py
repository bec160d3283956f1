id='c38-flush-first'; prop='C38'; fakes=True; bin=True
needs='a call in progress when the termination signal arrives, with a collector configured'
breaks='traces are flushed and tracing is shut down before the calls in progress are finished, so their spans are never exported'
edits=[('internal/shutdown/shutdown.go','''	logger.S(ctx).Info("Shutdown signal received.")

''','''	logger.S(ctx).Info("Shutdown signal received.")

	trace.Shutdown()

'''),('internal/shutdown/shutdown.go','''	CriticalWaitGroup.Wait()

	trace.Shutdown()
''','''	CriticalWaitGroup.Wait()
''')]
demo='''
package zdemo

import (
	"bufio"
	"net"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zdemo/fakeredis"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	var mu sync.Mutex
	var names []string
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				for r := bufio.NewReader(c); ; {
					s, err := r.ReadString(10)
					if err != nil {
						return
					}
					if strings.TrimSpace(s) == "null" {
						_, _ = c.Write([]byte{1})
						continue
					}
					mu.Lock()
					names = append(names, s)
					mu.Unlock()
				}
			}()
		}
	}()
	w := start(t, "rm")
	p := boot(t, "DECKARD_CACHE_TYPE=REDIS", "DECKARD_CACHE_URI="+w.redis.URI(), "DECKARD_CACHE_PREFIX=deckard", "DECKARD_HOUSEKEEPER_ENABLED=false", "OTEL_EXPORTER_OTLP_ENDPOINT=http://"+l.Addr().String())
	a := m("first", 1, 0)
	a.Queue = "q"
	if _, err := p.cl.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{a}}); err != nil {
		t.Fatal(err)
	}
	held, release := make(chan struct{}), make(chan struct{})
	var once sync.Once
	w.redis.SetLatency(func(*fakeredis.Command) { once.Do(func() { close(held); <-release }) })
	answered := make(chan error, 1)
	go func() {
		b := m("second", 1, 0)
		b.Queue = "q"
		_, err := p.cl.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{b}})
		answered <- err
	}()
	<-held
	_ = p.cmd.Process.Signal(syscall.SIGTERM)
	time.Sleep(1500 * time.Millisecond)
	close(release)
	if err := <-answered; err != nil {
		t.Fatal(err)
	}
	select {
	case <-p.done:
	case <-time.After(60 * time.Second):
		t.Fatal("still running")
	}
	mu.Lock()
	defer mu.Unlock()
	all := strings.Join(names, "")
	for _, id := range []string{"first", "second"} {
		if !strings.Contains(all, id) {
			t.Fatalf("the add of %q was answered and never exported; exported: %s", id, all)
		}
	}
}
'''
