package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zverif/vk"
)

// Behaviour spread over minutes and hours: the real code runs in a child process whose clock is that
// of testing/synctest, which advances only when everything in it waits.

const bubbleEnv = "VH_BUBBLE"

type bubbleCase struct {
	Bubble string // audit, config
	Seed   uint64
}

type bubbleResult struct {
	Key, Text string
	Counts    map[string]int64
	Sig       string
}

type bubble struct {
	r   *rand.Rand
	res bubbleResult
}

// end prints the result; nothing in the bubble has to stop for that.
func (b *bubble) end() {
	out, _ := json.Marshal(b.res)
	fmt.Printf("\nBUBBLE %s\n", out)
	os.Exit(0)
}

func (b *bubble) fail(key, f string, a ...any) {
	b.res.Key, b.res.Text = key, fmt.Sprintf(f, a...)
	b.end()
}

func init() {
	raw := os.Getenv(bubbleEnv)
	if raw == "" {
		return
	}
	var k bubbleCase
	if err := json.Unmarshal([]byte(raw), &k); err != nil {
		panic(err)
	}
	b := &bubble{r: rand.New(rand.NewPCG(k.Seed, 4242)), res: bubbleResult{Counts: map[string]int64{}}}
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	quiet()
	clockMs.Store(0)
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "bubble", F: func(t *testing.T) {
		synctest.Test(t, func(*testing.T) {
			switch k.Bubble {
			case "audit":
				b.audit()
			case "config":
				b.config()
			}
			b.end()
		})
	}}}, nil, nil)
	os.Exit(4)
}

// runBubble runs one case in a child and takes over its verdict.
func runBubble(c *vk.Ctx, k *bubbleCase) {
	name := "hours of virtual time (" + k.Bubble + ")"
	raw, _ := json.Marshal(k)
	cmd := exec.Command(os.Args[0])
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME"), "GODEBUG=asynctimerchan=0", bubbleEnv + "=" + string(raw)}
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	fatal(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(120 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		err = errors.New("still running after 120 s")
	}
	c.Eval(1)
	_, rest, ok := strings.Cut(out.String(), "\nBUBBLE ")
	var res bubbleResult
	if !ok || json.Unmarshal([]byte(rest), &res) != nil {
		tail := errs.String()
		c.Violation("bubble-crash", k, "%s: the process ended with %v: %.600s", name, err, tail)
		return
	}
	for n, v := range res.Counts {
		c.Count(n, v)
	}
	c.Distinct(res.Sig)
	if res.Key != "" {
		c.Violation(res.Key, k, "%s: %s", name, res.Text)
	}
}

// ---- the auditor of a service with quiet hours ----

type idleES struct {
	mu     sync.Mutex
	b      *bubble
	seen   map[string]int // all appearances
	acc    map[string]int // in accepted requests
	bad    string
	reqs   int
	faulty bool
}

// RoundTrip is the audit store; the answers come without a network, which a bubble can not wait for.
func (e *idleES) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	answer := func(code int, s string) *http.Response {
		return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r, ContentLength: int64(len(s)),
			Header: http.Header{"X-Elastic-Product": {"Elasticsearch"}, "Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(s))}
	}
	if !strings.HasSuffix(r.URL.Path, "/_bulk") {
		return answer(200, `{"version":{"number":"7.17.0","build_flavor":"default"},"tagline":"You Know, for Search"}`), nil
	}
	rec := &esRec{}
	ents := rec.parse(body)
	e.mu.Lock()
	e.reqs++
	n := 0
	if e.faulty {
		n = e.b.r.IntN(8)
	}
	wait := time.Duration(e.b.r.IntN(90)) * time.Second
	if len(rec.bad) > 0 {
		e.bad = rec.bad[0]
	}
	for i := range ents {
		e.seen[ents[i].ID]++
		if n < 5 {
			e.acc[ents[i].ID]++
		}
	}
	e.mu.Unlock()
	switch n {
	case 4:
		time.Sleep(wait)
	case 5:
		return answer(500, `{"error":"x"}`), nil
	case 6:
		return nil, errors.New("connection reset")
	case 7:
		return answer(429, `{"error":"x"}`), nil
	}
	return answer(200, `{"took":1,"errors":false,"items":[]}`), nil
}

func (b *bubble) audit() {
	es := &idleES{b: b, seen: map[string]int{}, acc: map[string]int{}}
	es.faulty = b.r.IntN(3) == 0
	http.DefaultTransport = es
	a, _, err := newRealAuditor("http://127.0.0.1:9")
	fatal(err)
	go a.StartSender(pctx())
	r := b.r
	pending, total, checks := 0, 0, int64(0)
	start := time.Now()
	var sig strings.Builder
	gaps := []time.Duration{0, time.Millisecond, time.Second, 20 * time.Second, 2 * time.Minute, 4*time.Minute + 59*time.Second, 5 * time.Minute, 301 * time.Second, 8 * time.Minute, 3 * time.Hour, 50 * time.Hour}
	for step := 0; step < 40+r.IntN(80); step++ {
		n := 0
		if r.IntN(8) > 0 {
			n = pick(r, 1, 1, 1, 2, 3, 7, 50, 199, 200, 201, 399, 400, 450, 1+r.IntN(900))
		}
		for i := 0; i < n; i++ {
			a.Store(pctx(), audit.Entry{ID: fmt.Sprint(total), Queue: "q::s", Signal: audit.ACK})
			total++
			pending++
		}
		gap := pick(r, gaps...)
		time.Sleep(gap)
		synctest.Wait()
		// sent after at most five quiet minutes; a slow request may keep the sender for another 90 s each
		limit := 6*time.Minute + time.Duration(es.slow(pending))*90*time.Second
		if gap >= limit {
			es.mu.Lock()
			for i := total - pending; i < total; i++ {
				if es.seen[fmt.Sprint(i)] == 0 {
					es.mu.Unlock()
					b.fail("audit-kept", "%d entries are stored, then nothing for %v: entry %d is still not sent", total, gap, i)
				}
			}
			es.mu.Unlock()
			checks++
			pending = 0
		}
		if sig.Len() < 200 {
			fmt.Fprintf(&sig, "%d/%v ", n, gap)
		}
	}
	time.Sleep(24 * time.Hour)
	synctest.Wait()
	es.mu.Lock()
	defer es.mu.Unlock()
	for i := 0; i < total; i++ {
		id := fmt.Sprint(i)
		if es.seen[id] == 0 {
			b.fail("audit-kept", "entry %d of %d is not sent after a quiet day", i, total)
		}
		if es.acc[id] > 1 {
			b.fail("audit-extra", "entry %d was accepted %d times", i, es.acc[id])
		}
	}
	if len(es.seen) != total {
		b.fail("audit-extra", "%d different entries arrived, %d were stored", len(es.seen), total)
	}
	if es.bad != "" {
		b.fail("audit-format", "malformed bulk request: %s", es.bad)
	}
	b.res.Sig = fmt.Sprint("quiet ", es.faulty, sig.String())
	b.res.Counts["audit entries of a service with quiet hours"] = int64(total)
	b.res.Counts["quiet periods after which everything was sent"] = checks
	b.res.Counts["virtual hours"] = int64(time.Since(start) / time.Hour)
}

func (e *idleES) slow(pending int) int {
	if !e.faulty {
		return 0
	}
	return 2 + pending/100
}

// ---- a maximum size changed on one instance and read on others ----

func (b *bubble) config() {
	r := b.r
	st, ca := storage.NewMemoryStorage(pctx()), cache.NewMemoryCache()
	share := worldOpts{kind: "mm", prefix: "deckard", wrapS: func(storage.Storage) storage.Storage { return st }, wrapC: func(cache.Cache) cache.Cache { return ca }}
	var ws []*world
	for i := 0; i < 2+r.IntN(2); i++ {
		w, err := newWorld(share)
		fatal(err)
		ws = append(ws, w)
	}
	type version struct {
		v     int64
		until time.Time // zero: current
	}
	const limit = 10 * time.Minute
	qs := []string{"q", "p::s", "zz"}[:1+r.IntN(3)]
	hist := map[string][]version{}
	for _, q := range qs {
		hist[q] = []version{{}}
	}
	start := time.Now()
	var reads, edits int64
	var sig strings.Builder
	read := func(on int, q string, own bool) {
		a, err := ws[on].api.GetQueue(pctx(), &deckard.GetQueueRequest{Queue: q})
		if err != nil || a.Configuration == nil {
			b.fail("edit-unreadable", "reading the maximum on instance %d: %v, %v", on, a, err)
		}
		reads++
		h := hist[q]
		got := a.Configuration.MaxElements
		if got == h[len(h)-1].v {
			return
		}
		if own {
			b.fail("edit-not-seen", "queue %q: the maximum %d set on instance %d is read there as %d", q, h[len(h)-1].v, on, got)
		}
		for i := len(h) - 1; i >= 0; i-- {
			if v := h[i]; v.v == got { // the last time it was current
				if age := time.Since(v.until); age > limit {
					b.fail("edit-never-seen", "queue %q: instance %d reads a maximum of %d, replaced on another instance %v ago by %d", q, on, got, age, h[len(h)-1].v)
				}
				return
			}
		}
		b.fail("edit-invented", "queue %q: instance %d reads a maximum of %d which nobody set", q, on, got)
	}
	next := int64(1000)
	every := pick(r, time.Second, 20*time.Second, time.Minute, 3*time.Minute, 8*time.Minute, 9*time.Minute)
	for step := 0; step < 60+r.IntN(200); step++ {
		q := pick(r, qs...)
		if r.IntN(12) == 0 {
			on := r.IntN(len(ws))
			v := next
			next++
			if r.IntN(6) == 0 {
				v = -next // no limit: read as a value that is not positive
			}
			a, err := ws[on].api.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: v}})
			if err != nil || !a.Success {
				b.fail("edit-refused", "an edit on instance %d is answered %v, %v", on, a, err)
			}
			now := time.Now()
			h := hist[q]
			h[len(h)-1].until = now
			hist[q] = append(h, version{v: max(v, 0)})
			edits++
			read(on, q, true)
			if sig.Len() < 200 {
				fmt.Fprintf(&sig, "%d:%s=%d@%v ", on, q, v, now.Sub(start))
			}
		}
		// readers at a steady pace, on all instances
		for i := 0; i < 1+r.IntN(12); i++ {
			time.Sleep(every)
			for on := range ws {
				for _, q := range qs {
					if r.IntN(4) > 0 {
						read(on, q, false)
					}
				}
			}
		}
		if r.IntN(10) == 0 {
			time.Sleep(time.Duration(r.IntN(7200)) * time.Second)
		}
	}
	b.res.Sig = fmt.Sprint("config ", len(ws), every, sig.String())
	b.res.Counts["reads of a maximum on several instances"] = reads
	b.res.Counts["edits read on several instances"] = edits
	b.res.Counts["virtual hours"] = int64(time.Since(start) / time.Hour)
}

// bubbles runs n cases (more while time remains in thorough runs).
func bubbles(c *vk.Ctx, what string, n int, frac float64) {
	r := c.Rand(uint64(7100 + c.Shard))
	for i := 0; i < n && !c.Past(frac) && !c.Violated(); i++ {
		runBubble(c, &bubbleCase{Bubble: what, Seed: r.Uint64()})
	}
}

func replayBubble(c *vk.Ctx, raw json.RawMessage) bool {
	var k bubbleCase
	if json.Unmarshal(raw, &k) != nil || k.Bubble == "" {
		return false
	}
	runBubble(c, &k)
	return true
}
