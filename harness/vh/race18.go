package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/zverif/vk"
	"go.opentelemetry.io/otel"
	sdkmetric "go.opentelemetry.io/otel/sdk/metric"
	"google.golang.org/grpc"
	"google.golang.org/grpc/encoding"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// ---- reports of the race detector and crashes of a shard ----

type access struct{ What, Frame, Stack string }

var accessLine = regexp.MustCompile(`(?i)^(previous )?(atomic )?(read|write) at 0x`)

// accessStacks splits one race report into the stacks of its two accesses.
func accessStacks(rep string) (as []access) {
	var cur *access
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case accessLine.MatchString(t):
			as = append(as, access{What: t})
			cur = &as[len(as)-1]
		case strings.HasPrefix(t, "Goroutine ") || strings.HasPrefix(t, "Heap block") || strings.HasPrefix(t, "Location is"):
			cur = nil
		case cur != nil:
			cur.Stack += t + "\n"
			if cur.Frame == "" && (strings.HasPrefix(t, "github.com/takenet/deckard") || strings.HasPrefix(t, "main.")) {
				cur.Frame = t
			}
		}
	}
	return
}

func own(frame string) bool {
	return frame != "" && !strings.HasPrefix(frame, "main.") && !strings.Contains(frame, "/zverif/")
}

func afterRaceShard(c *vk.Ctx, dir, output string, err error) bool {
	last := map[string]any{}
	if b, e := os.ReadFile(filepath.Join(dir, "last.json")); e == nil {
		_ = json.Unmarshal(b, &last)
	}
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range logs {
		b, e := os.ReadFile(f)
		if e != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "DATA RACE") {
				continue
			}
			as := accessStacks(rep)
			ours := false
			var sig []string
			for _, a := range as {
				ours = ours || own(a.Frame)
				sig = append(sig, a.Frame)
			}
			if !ours {
				c.Note("race report outside Deckard's code: %s", strings.Join(sig, " / "))
				c.Count("race reports outside Deckard's code", 1)
				continue
			}
			c.Count("race reports in Deckard's code", 1)
			c.Violation("data-race", last, "the race detector reports %s\n%s", strings.Join(sig, " / "), rep)
		}
	}
	if err == nil {
		return false
	}
	i := strings.Index(output, "panic: ")
	if j := strings.Index(output, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return false
	}
	// the first stack after the message is the failing one
	body := output[i:]
	if k := strings.Index(body, "\ngoroutine "); k >= 0 {
		rest := body[k+1:]
		if e := strings.Index(rest, "\n\n"); e >= 0 {
			rest = rest[:e]
		}
		if vk.Ours(rest) {
			c.Violation("panic", last, "the process running the code ended: %.300s\n%s", body[:k], rest)
			return true
		}
	}
	return false
}

// ---- hostile requests ----

var hostileStr = []string{"", "q", "q::a", "q:", "::", "::a", ":tmp", "q:tmp", "q:lock_ack", "a\x00b", strings.Repeat("x", 70000), "é漢\U0001F600", "*", "q*", "[a", "\\", "{q}", "q}{", "deckard:queue:q", "$gt", "a.b", "\n", "b1", "b2"}

func hs(r *rand.Rand) string {
	if r.IntN(3) == 0 {
		return pick(r, "q", "q::a", "b1")
	}
	return pick(r, hostileStr...)
}

func hi(r *rand.Rand) int64 {
	return pick(r, 0, 1, -1, 2, 1000, math.MaxInt64, math.MinInt64, math.MaxInt64-1, 1<<53, -(1 << 53), 1<<31, math.MaxInt64/60000, 9223372036854, -9223372036855, int64(r.Uint64()))
}

func hf(r *rand.Rand) float64 {
	return pick(r, 0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1<<53, 1<<53+2, 1e18, math.Float64frombits(r.Uint64()))
}

func hids(r *rand.Rand) (l []string) {
	n := pick(r, 0, 1, 2, 5, 40)
	if r.IntN(30) == 0 {
		n = 9000
	}
	for i := 0; i < n; i++ {
		if n > 1000 {
			l = append(l, fmt.Sprint("b", i))
		} else {
			l = append(l, hs(r))
		}
	}
	return
}

var methods = []string{"Add", "Pull", "Ack", "Nack", "Count", "Remove", "Flush", "GetById", "EditQueue", "GetQueue"}

func hostileReq(r *rand.Rand, m string) (proto.Message, proto.Message) {
	switch m {
	case "Add":
		q := &deckard.AddRequest{}
		n := pick(r, 0, 1, 1, 2, 6)
		if r.IntN(40) == 0 {
			n = 5000
		}
		for i := 0; i < n; i++ {
			x := &deckard.AddMessage{Id: hs(r), Queue: hs(r), StringPayload: hs(r), Description: hs(r), Timeless: r.IntN(2) == 0, TtlMinutes: hi(r), Score: hf(r)}
			if n > 1000 {
				x = &deckard.AddMessage{Id: fmt.Sprint("b", i), Queue: "q", TtlMinutes: hi(r), Score: hf(r)}
			}
			for k := r.IntN(3); k > 0; k-- {
				if x.Metadata == nil {
					x.Metadata, x.Payload = map[string]string{}, map[string]*anypb.Any{}
				}
				x.Metadata[hs(r)] = hs(r)
				switch r.IntN(3) {
				case 0:
					x.Payload[hs(r)] = &anypb.Any{}
				case 1:
					x.Payload[hs(r)] = &anypb.Any{TypeUrl: hs(r), Value: []byte(hs(r))}
				default:
					a, _ := anypb.New(&deckard.CountRequest{Queue: "x"})
					x.Payload[hs(r)] = a
				}
			}
			q.Messages = append(q.Messages, x)
		}
		return q, &deckard.AddResponse{}
	case "Pull":
		return &deckard.PullRequest{Queue: hs(r), Amount: int32(hi(r)), ScoreFilter: hi(r), MaxScore: hf(r), MinScore: hf(r), AckDeadlineMs: hi(r)}, &deckard.PullResponse{}
	case "Ack", "Nack":
		return &deckard.AckRequest{Id: hs(r), Queue: hs(r), Reason: hs(r), ScoreSubtract: hf(r), Breakpoint: hs(r), LockMs: hi(r), RemoveMessage: r.IntN(3) == 0, Score: hf(r)}, &deckard.AckResponse{}
	case "Count":
		return &deckard.CountRequest{Queue: hs(r)}, &deckard.CountResponse{}
	case "Remove":
		return &deckard.RemoveRequest{Queue: hs(r), Ids: hids(r)}, &deckard.RemoveResponse{}
	case "Flush":
		return &deckard.FlushRequest{}, &deckard.FlushResponse{}
	case "GetById":
		return &deckard.GetByIdRequest{Queue: hs(r), Id: hs(r)}, &deckard.GetByIdResponse{}
	case "EditQueue":
		q := &deckard.EditQueueRequest{Queue: hs(r)}
		if r.IntN(4) > 0 {
			q.Configuration = &deckard.QueueConfiguration{MaxElements: hi(r)}
		}
		return q, &deckard.EditQueueResponse{}
	}
	return &deckard.GetQueueRequest{Queue: hs(r)}, &deckard.GetQueueResponse{}
}

// rawCodec sends bytes as they are.
type rawCodec struct{}

func (rawCodec) Marshal(v any) ([]byte, error) {
	if b, ok := v.([]byte); ok {
		return b, nil
	}
	return proto.Marshal(v.(proto.Message))
}
func (rawCodec) Unmarshal(b []byte, v any) error { return proto.Unmarshal(b, v.(proto.Message)) }
func (rawCodec) Name() string                    { return "proto" }

var _ encoding.Codec = rawCodec{}

func malform(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	switch r.IntN(4) {
	case 0:
		n := r.IntN(40)
		b = make([]byte, n)
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	case 1:
		if len(b) > 0 {
			b = b[:r.IntN(len(b))]
		}
	case 2:
		for k := 0; k < 3 && len(b) > 0; k++ {
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
		}
	default:
		b = append(b, byte(r.Uint32()), 0xff, 0xff, 0xff, byte(r.Uint32()))
	}
	return b
}

func lastCase(c *vk.Ctx, v any) {
	b, _ := json.Marshal(v)
	_ = os.WriteFile(filepath.Join(c.Dir, "last.json"), b, 0o644)
}

// hostile sends extreme and malformed requests; the server must answer and stay alive.
func hostile(c *vk.Ctx, kind string, seed uint64, n int) {
	clockMs.Store(clockStart)
	w, err := newWorld(worldOpts{kind: kind, prefix: "deckard", aud: noAudit{}})
	fatal(err)
	defer w.close()
	fatal(w.listen())
	conn := w.conn
	r := rand.New(rand.NewPCG(seed, 18))
	ctx := context.Background()
	for i := 0; i < n && !c.Over(); i++ {
		m := pick(r, methods...)
		if m == "Flush" && r.IntN(4) > 0 {
			m = "Pull"
		}
		req, resp := hostileReq(r, m)
		full := "/blipai.deckard.Deckard/" + m
		if i%4 == 3 {
			b, _ := proto.Marshal(req)
			b = malform(r, b)
			c.Active("malformed request", nil)
			lastCase(c, map[string]any{"kind": kind, "method": m, "seed": seed, "n": i, "bytes": b})
			err = conn.Invoke(ctx, full, b, resp, grpc.ForceCodec(rawCodec{}))
			c.Count("malformed requests", 1)
		} else {
			js, _ := protojson.Marshal(req)
			if len(js) > 3000 {
				js = js[:3000]
			}
			c.Active("hostile request "+m, string(js))
			lastCase(c, map[string]any{"kind": kind, "method": m, "seed": seed, "n": i, "request": string(js)})
			err = conn.Invoke(ctx, full, req, resp)
			c.Count("extreme requests", 1)
		}
		if err != nil {
			c.Count("requests answered with an error", 1)
		}
		if i%25 == 24 {
			clockMs.Add(int64(r.IntN(100000)))
			c.Active("housekeeping after hostile requests", nil)
			lastCase(c, map[string]any{"kind": kind, "seed": seed, "n": i, "housekeeping": true})
			housekeepOnce(w, r.IntN(7))
		}
		c.Eval(1)
		c.Distinct(fmt.Sprint(kind, m, i%4 == 3, err != nil))
	}
	c.Active("", nil)
}

// ---- concurrent rounds ----

type noAudit struct{}

func (noAudit) Store(context.Context, audit.Entry) {}

func housekeepOnce(w *world, k int) {
	ctx := context.Background()
	switch k {
	case 0:
		_ = queue.ProcessTimeoutMessages(ctx, w.q)
	case 1:
		queue.ProcessLockPool(ctx, w.q)
	case 2:
		now := time.UnixMilli(vnow())
		_, _ = queue.RemoveTTLMessages(ctx, w.q, &now)
	case 3:
		_, _ = queue.RemoveExceedingMessages(ctx, w.q)
	case 4:
		queue.RecoveryMessagesPool(ctx, w.q)
	case 5:
		queue.ComputeMetrics(ctx, w.q)
	default:
		if p, ok := otel.GetMeterProvider().(*sdkmetric.MeterProvider); ok {
			_ = p.Snapshot()
		}
	}
}

type raceCase struct {
	Kind    string
	Seed    uint64
	Clients int
	Ops     int
	Wire    bool
	Audit   bool
	Queues  int
	IDs     int
}

// esServer accepts everything an Elasticsearch client sends.
func esServer() (addr string, stop func(), n *atomic.Int64, err error) {
	n = &atomic.Int64{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", nil, nil, err
	}
	s := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("X-Elastic-Product", "Elasticsearch")
		w.Header().Set("Content-Type", "application/json")
		_, _ = w.Write([]byte(`{"errors":false,"items":[],"version":{"number":"7.17.0","build_flavor":"default"},"tagline":"You Know, for Search"}`))
		n.Add(1)
	})}
	go func() { _ = s.Serve(l) }()
	return "http://" + l.Addr().String(), func() { _ = s.Close() }, n, nil
}

func raceRound(c *vk.Ctx, rc raceCase) {
	clockMs.Store(clockStart)
	lastCase(c, rc)
	var aud audit.Auditor = noAudit{}
	actx, acancel := context.WithCancel(context.Background())
	awg := &sync.WaitGroup{}
	var sent *atomic.Int64
	adone := make(chan struct{})
	if rc.Audit {
		addr, stop, n, err := esServer()
		fatal(err)
		defer stop()
		sent = n
		config.AuditEnabled.Set(true)
		config.ElasticAddress.Set(addr)
		a, err := audit.NewAuditor(awg)
		config.AuditEnabled.Set(false)
		fatal(err)
		aud = a
		go func() { a.StartSender(actx); close(adone) }()
	} else {
		close(adone)
	}
	w, err := newWorld(worldOpts{kind: rc.Kind, prefix: "deckard", aud: aud})
	fatal(err)
	defer w.close()
	if rc.Wire {
		fatal(w.listen())
	}
	c.Active("concurrent round", rc)
	var wg, hk sync.WaitGroup
	stop := make(chan struct{})
	var calls, hkRuns atomic.Int64
	start := make(chan struct{})
	for h := 0; h < 9; h++ {
		hk.Add(1)
		go func() {
			defer hk.Done()
			r := rand.New(rand.NewPCG(rc.Seed, uint64(5000+h)))
			n := int64(0)
			<-start
			for {
				select {
				case <-stop:
					hkRuns.Add(n)
					return
				default:
				}
				switch {
				case h < 7:
					housekeepOnce(w, h)
				case h == 7:
					clockMs.Add(int64(r.IntN(200)))
				default:
					if rc.Audit && n == 3 {
						acancel()
					}
				}
				n++
				time.Sleep(time.Duration(r.IntN(400)) * time.Microsecond)
			}
		}()
	}
	for ci := 0; ci < rc.Clients; ci++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(rc.Seed, uint64(ci)))
			<-start
			n := int64(0)
			for i := 0; i < rc.Ops; i++ {
				raceOp(w, r, rc)
				n++
				if r.IntN(4) == 0 {
					runtime.Gosched()
				}
			}
			calls.Add(n)
		}()
	}
	close(start)
	wg.Wait()
	close(stop)
	hk.Wait()
	acancel()
	<-adone
	awg.Wait()
	c.Active("", nil)
	c.Eval(1)
	c.Count("concurrent calls", calls.Load())
	c.Count("housekeeping and metrics runs", hkRuns.Load())
	if sent != nil {
		c.Count("audit requests", sent.Load())
	}
	c.Distinct(fmt.Sprintf("%+v %d %d", rc, calls.Load(), hkRuns.Load()))
}

func raceOp(w *world, r *rand.Rand, rc raceCase) {
	ctx := context.Background()
	if r.IntN(10) == 0 { // the client gives up before, during or after the call
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, time.Duration(r.IntN(600))*time.Microsecond)
		defer cancel()
	}
	q := fmt.Sprintf("r%d::x", r.IntN(rc.Queues))
	if r.IntN(12) == 0 {
		q = fmt.Sprintf("n%d::x", r.IntN(1000))
	}
	id := func() string { return fmt.Sprint("i", r.IntN(rc.IDs)) }
	switch k := r.IntN(100); {
	case k < 25:
		a := &deckard.AddRequest{}
		for n := 1 + r.IntN(4); n > 0; n-- {
			a.Messages = append(a.Messages, &deckard.AddMessage{Id: id(), Queue: q, Score: float64(r.IntN(1000)), TtlMinutes: int64(r.IntN(2)), Timeless: r.IntN(2) == 0, StringPayload: "p",
				Metadata: map[string]string{"a": "b"}, Payload: map[string]*anypb.Any{"p": {TypeUrl: "x/y", Value: []byte("z")}}})
		}
		_, _ = w.api.Add(ctx, a)
	case k < 50:
		p := &deckard.PullRequest{Queue: q, Amount: int32(1 + r.IntN(5)), AckDeadlineMs: int64(r.IntN(400))}
		if r.IntN(3) == 0 {
			p.MaxScore = float64(r.IntN(1000))
		}
		res, err := w.api.Pull(ctx, p)
		if err != nil {
			return
		}
		for _, m := range res.Messages {
			_ = proto.Clone(m)
			a := &deckard.AckRequest{Id: m.Id, Queue: m.Queue, Breakpoint: "bp", Reason: "r"}
			if r.IntN(2) == 0 {
				a.LockMs = int64(r.IntN(300))
			}
			a.RemoveMessage = r.IntN(8) == 0
			switch r.IntN(4) {
			case 0, 1:
				_, _ = w.api.Ack(ctx, a)
			case 2:
				_, _ = w.api.Nack(ctx, a)
			}
		}
	case k < 58:
		_, _ = w.api.Ack(ctx, &deckard.AckRequest{Id: id(), Queue: q, Score: 5})
	case k < 64:
		_, _ = w.api.Nack(ctx, &deckard.AckRequest{Id: id(), Queue: q, LockMs: 20})
	case k < 70:
		_, _ = w.api.Count(ctx, &deckard.CountRequest{Queue: q})
	case k < 76:
		_, _ = w.api.Remove(ctx, &deckard.RemoveRequest{Queue: q, Ids: []string{id(), id()}})
	case k < 84:
		res, err := w.api.GetById(ctx, &deckard.GetByIdRequest{Queue: q, Id: id()})
		if err == nil && res.Message != nil {
			_, _ = proto.Marshal(res)
		}
	case k < 91:
		_, _ = w.api.EditQueue(ctx, &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: int64(1 + r.IntN(12))}})
	case k < 99:
		_, _ = w.api.GetQueue(ctx, &deckard.GetQueueRequest{Queue: q})
	default:
		_, _ = w.api.Flush(ctx, &deckard.FlushRequest{})
	}
}

func init() {
	vk.Register(&vk.Check{Prop: "C18", Shards: 4, QuickS: 40, ThoroughS: 600,
		Rule: "a hostile request counts as distinct by back end, method, encoding and outcome; a concurrent round by its parameters and the numbers of calls and background runs it reached",
		Assumptions: []string{"the race detector reports only races it sees in the executed schedules",
			"the OpenTelemetry SDK is a stand-in whose measurements take a lock, which can order accesses that would otherwise race"},
		ShardEnv: func(dir string) []string {
			return []string{"GORACE=log_path=" + filepath.Join(dir, "race") + " halt_on_error=0 exitcode=0 history_size=3"}
		},
		AfterShard: afterRaceShard,
		Run: func(c *vk.Ctx) {
			r := c.Rand(uint64(1800 + c.Shard))
			kinds := []string{"mm", "rg", "mg", "rm"}
			hostile(c, kinds[c.Shard%4], c.Seed*31+uint64(c.Shard), c.N(400, 4000))
			for n := 0; !c.Over(); n++ {
				rc := raceCase{Kind: pick(r, "mm", "mm", "mm", "rg", "mg", "rm", "cg"), Seed: r.Uint64(), Clients: 2 + r.IntN(6), Ops: 20 + r.IntN(100), Wire: r.IntN(4) == 0, Audit: r.IntN(3) == 0, Queues: 1 + r.IntN(3), IDs: 2 + r.IntN(30)}
				if n == 0 {
					rc.Kind, rc.Audit, rc.Wire = "mm", true, false
				}
				raceRound(c, rc)
				c.Sample(rc)
			}
		},
	})
}
