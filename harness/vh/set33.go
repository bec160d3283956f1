package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zverif/fakemongo"
	"github.com/takenet/deckard/internal/zverif/fakeredis"
	"github.com/takenet/deckard/internal/zverif/vk"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	grpchealth "google.golang.org/grpc/health/grpc_health_v1"
	reflectpb "google.golang.org/grpc/reflection/grpc_reflection_v1"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// C33: settings of the running binary against what a client, a scraper and the back ends observe.

type setCase struct {
	Mode string
	Kind string `json:",omitempty"`
	Seed uint64
}

func setFail(k, f string, a ...any) *mismatch { return mm(k, nil, []string{"C33"}, f, a...) }

const setLimit = 60 * time.Second

type setRun struct {
	c  *vk.Ctx
	k  *setCase
	r  *rand.Rand
	s  *site
	p  *proc
	cl deckard.DeckardClient
	cc *grpc.ClientConn
}

func (x *setRun) open(kind string, env map[string]string) *mismatch {
	s, err := openSite(x.c, kind, false, env)
	fatal(err)
	x.s = s
	if x.p, err = startProc(x.c.Shard, s.dir, s.env); err != nil {
		return setFail("start", "%v", err)
	}
	x.cc, err = grpc.NewClient(fmt.Sprintf("passthrough:///127.0.0.1:%d", x.p.port), grpc.WithTransportCredentials(plainCreds()),
		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(1<<30), grpc.MaxCallSendMsgSize(1<<30)))
	fatal(err)
	x.cl = deckard.NewDeckardClient(x.cc)
	return nil
}

func (x *setRun) close() {
	if x.cc != nil {
		x.cc.Close()
	}
	if x.p != nil {
		x.p.kill()
	}
	if x.s != nil {
		x.s.close()
	}
	x.cc, x.p, x.s = nil, nil, nil
}

// ---- limits ----

func addOfSize(q, id string, size int) *deckard.AddRequest {
	req := &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: id, Queue: q, Timeless: true}}}
	n := size - proto.Size(req) - 12
	for ; proto.Size(req) < size; n++ {
		req.Messages[0].StringPayload = strings.Repeat("x", max(n, 0))
	}
	return req
}

func (x *setRun) limits() *mismatch {
	env := map[string]string{}
	recv, send := 4194304, 4194304
	switch x.r.IntN(4) {
	case 0:
	case 1:
		recv = 3000 + x.r.IntN(50000)
	case 2:
		send = 3000 + x.r.IntN(50000)
	case 3:
		recv, send = 3000+x.r.IntN(9_000_000), 3000+x.r.IntN(5_000_000)
	}
	if recv != 4194304 {
		env["DECKARD_GRPC_SERVER_MAX_RECV_MSG_SIZE"] = fmt.Sprint(recv)
	}
	if send != 4194304 {
		env["DECKARD_GRPC_SERVER_MAX_SEND_MSG_SIZE"] = fmt.Sprint(send)
	}
	if m := x.open("mm", env); m != nil {
		return m
	}
	count := func() int64 {
		r, err := x.cl.Count(pctx(), &deckard.CountRequest{Queue: "q"})
		fatal(err)
		return r.Count
	}
	stored := int64(0)
	for i, d := range []int{0, 1, -1, 2 + x.r.IntN(5000), -1 - x.r.IntN(1000)} {
		req := addOfSize("q", fmt.Sprint("m", i), recv+d)
		if sz := proto.Size(req); sz != recv+d { // a length prefix may jump over one size
			continue
		}
		_, err := x.cl.Add(pctx(), req)
		if d > 0 && status.Code(err) != codes.ResourceExhausted {
			return setFail("recv-over", "a request of %d bytes with a maximum of %d was answered %v", recv+d, recv, err)
		}
		if d <= 0 && err != nil {
			return setFail("recv-within", "a request of %d bytes with a maximum of %d failed: %v", recv+d, recv, err)
		}
		if d <= 0 {
			stored++
		}
		if n := count(); n != stored {
			return setFail("recv-executed", "after a request of %d bytes with a maximum of %d the queue holds %d messages, want %d", recv+d, recv, n, stored)
		}
		x.c.Count("requests at the size limit", 1)
	}
	// responses: an answer of exactly the maximum passes, one byte more does not
	_, err := x.cl.Add(pctx(), &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "r", Queue: "q", Timeless: true, StringPayload: "y"}}})
	fatal(err)
	small, err := x.cl.GetById(pctx(), &deckard.GetByIdRequest{Queue: "q", Id: "r"})
	fatal(err)
	if !small.Found {
		return setFail("lookup", "a message just added is not found")
	}
	for _, d := range []int{0, 1, -1, 1 + x.r.IntN(2000)} {
		want := proto.Clone(small).(*deckard.GetByIdResponse)
		n := send + d - proto.Size(small) - 12
		for ; proto.Size(want) < send+d; n++ {
			want.Message.StringPayload = strings.Repeat("z", max(n, 0))
		}
		if proto.Size(want) != send+d {
			continue
		}
		req := &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "r", Queue: "q", Timeless: true, StringPayload: want.Message.StringPayload}}}
		if proto.Size(req) > recv {
			continue
		}
		if _, err := x.cl.Add(pctx(), req); err != nil {
			return setFail("recv-within", "a request of %d bytes with a maximum of %d failed: %v", proto.Size(req), recv, err)
		}
		got, err := x.cl.GetById(pctx(), &deckard.GetByIdRequest{Queue: "q", Id: "r"})
		if err == nil && proto.Size(got) != send+d {
			continue // not the predicted answer
		}
		if d > 0 && status.Code(err) != codes.ResourceExhausted {
			return setFail("send-over", "an answer of %d bytes with a maximum of %d was delivered (%v)", send+d, send, err)
		}
		if d <= 0 && err != nil {
			return setFail("send-within", "an answer of %d bytes with a maximum of %d failed: %v", send+d, send, err)
		}
		x.c.Count("answers at the size limit", 1)
	}
	return nil
}

// ---- connections ----

type rawConn struct {
	net.Conn
	fr     *http2.Framer
	events chan string  // "ping", "goaway", "end"
	answer atomic.Int64 // when the first data of a call arrived
	acks   atomic.Bool
	wmu    sync.Mutex // the framer is not safe for concurrent writes
}

func rawDial(port int, acks bool) (*rawConn, error) {
	n, err := net.DialTimeout("tcp", fmt.Sprint("127.0.0.1:", port), 20*time.Second)
	if err != nil {
		return nil, err
	}
	x := &rawConn{Conn: n, fr: http2.NewFramer(n, n), events: make(chan string, 1000)}
	x.acks.Store(acks)
	if _, err := io.WriteString(n, http2.ClientPreface); err != nil {
		return nil, err
	}
	if err := x.fr.WriteSettings(); err != nil {
		return nil, err
	}
	go func() {
		defer close(x.events)
		for {
			f, err := x.fr.ReadFrame()
			if err != nil {
				x.events <- "end"
				return
			}
			switch f := f.(type) {
			case *http2.SettingsFrame:
				if !f.IsAck() {
					x.wmu.Lock()
					_ = x.fr.WriteSettingsAck()
					x.wmu.Unlock()
				}
			case *http2.PingFrame:
				if f.IsAck() {
					continue
				}
				if string(f.Data[:]) == "\x01\x06\x01\x08\x00\x03\x03\x09" { // part of a graceful GOAWAY
					x.wmu.Lock()
					_ = x.fr.WritePing(true, f.Data)
					x.wmu.Unlock()
					continue
				}
				x.events <- "ping"
				if x.acks.Load() {
					x.wmu.Lock()
					_ = x.fr.WritePing(true, f.Data)
					x.wmu.Unlock()
				}
			case *http2.DataFrame:
				x.answer.CompareAndSwap(0, time.Now().UnixNano())
			case *http2.GoAwayFrame:
				x.events <- "goaway"
			}
		}
	}()
	return x, nil
}

// watch starts a call that does not end: a health watch.
func (x *rawConn) watch() {
	var b bytes.Buffer
	e := hpack.NewEncoder(&b)
	for _, h := range [][2]string{{":method", "POST"}, {":scheme", "http"}, {":path", "/grpc.health.v1.Health/Watch"}, {":authority", "localhost"}, {"content-type", "application/grpc"}, {"te", "trailers"}} {
		_ = e.WriteField(hpack.HeaderField{Name: h[0], Value: h[1]})
	}
	x.wmu.Lock()
	defer x.wmu.Unlock()
	_ = x.fr.WriteHeaders(http2.HeadersFrameParam{StreamID: 1, BlockFragment: b.Bytes(), EndHeaders: true})
	_ = x.fr.WriteData(1, true, []byte{0, 0, 0, 0, 0})
}

// next waits for an event; "" after the limit.
func (x *rawConn) next(limit time.Duration) string {
	select {
	case e := <-x.events:
		return e
	case <-time.After(limit):
		return ""
	}
}

func (x *setRun) conns() *mismatch {
	env := map[string]string{}
	which := []string{"idle", "age", "keepalive", "keepalive-acked", "none", "idle-minutes", "idle-busy", "keepalive-long", "keepalive-grace"}[x.k.Seed%9]
	switch which {
	case "idle", "idle-busy":
		env["DECKARD_GRPC_SERVER_MAX_CONNECTION_IDLE"] = "400ms"
	case "age":
		env["DECKARD_GRPC_SERVER_MAX_CONNECTION_AGE"] = "500ms"
		env["DECKARD_GRPC_SERVER_MAX_CONNECTION_AGE_GRACE"] = "300ms"
	case "keepalive", "keepalive-acked":
		env["DECKARD_GRPC_SERVER_KEEPALIVE_TIME"] = "1s"
		env["DECKARD_GRPC_SERVER_KEEPALIVE_TIMEOUT"] = "500ms"
	case "keepalive-long":
		env["DECKARD_GRPC_SERVER_KEEPALIVE_TIME"] = "1s"
		env["DECKARD_GRPC_SERVER_KEEPALIVE_TIMEOUT"] = "3s"
		env["DECKARD_GRPC_SERVER_MAX_CONNECTION_AGE_GRACE"] = "100ms"
	case "keepalive-grace":
		env["DECKARD_GRPC_SERVER_KEEPALIVE_TIME"] = "1h"
		env["DECKARD_GRPC_SERVER_KEEPALIVE_TIMEOUT"] = "1s"
		env["DECKARD_GRPC_SERVER_MAX_CONNECTION_AGE_GRACE"] = "1s"
	case "idle-minutes":
		env["DECKARD_GRPC_SERVER_MAX_CONNECTION_IDLE"] = "10m"
		env["DECKARD_GRPC_SERVER_MAX_CONNECTION_AGE"] = "1h"
		env["DECKARD_GRPC_SERVER_KEEPALIVE_TIME"] = "10m"
		env["DECKARD_GRPC_SERVER_KEEPALIVE_TIMEOUT"] = "1s"
	}
	if m := x.open("mm", env); m != nil {
		return m
	}
	t0 := time.Now()
	rc, err := rawDial(x.p.port, which != "keepalive" && which != "keepalive-long")
	fatal(err)
	defer rc.Close()
	x.c.Count("connections watched ("+which+")", 1)
	switch which {
	case "idle", "age":
		min := 400 * time.Millisecond
		if which == "age" {
			min = 450 * time.Millisecond // the transport spreads it by a tenth
		}
		switch e := rc.next(setLimit); e {
		case "goaway", "end":
			if el := time.Since(t0); el < min {
				return setFail(which+"-early", "with %v a connection was ended after %v", env, el)
			}
		default:
			return setFail(which+"-never", "with %v an idle connection saw %q within %v", env, e, setLimit)
		}
	case "idle-busy": // a call in progress keeps a connection from being idle
		rc.watch()
		e := rc.next(1500 * time.Millisecond)
		for e == "ping" {
			e = rc.next(1500 * time.Millisecond)
		}
		if e == "end" || e == "goaway" {
			// the call may have reached the server when the connection had already been idle for too long
			if a := rc.answer.Load(); a != 0 && time.Unix(0, a).Sub(t0) < 350*time.Millisecond {
				return setFail("idle-busy", "with %v a connection with a call in progress was ended after %v", env, time.Since(t0))
			}
		}
	case "keepalive", "keepalive-long":
		last := 1500 * time.Millisecond
		if which == "keepalive-long" {
			last = 4 * time.Second
		}
		if e := rc.next(setLimit); e != "ping" || time.Since(t0) < time.Second {
			return setFail("keepalive-ping", "with %v a silent connection saw %q after %v, want a ping after 1s", env, e, time.Since(t0))
		}
		tp := time.Now()
		e := rc.next(setLimit)
		for e == "ping" {
			e = rc.next(setLimit)
		}
		if e != "goaway" && e != "end" {
			return setFail("keepalive-timeout", "with %v a connection that leaves pings unanswered was not ended within %v", env, setLimit)
		}
		if el := time.Since(t0); el < last {
			return setFail("keepalive-hasty", "with %v a connection that leaves pings unanswered was ended after %v (%v after the ping)", env, el, time.Since(tp))
		}
	case "keepalive-acked":
		for i := 0; i < 3; i++ {
			if e := rc.next(setLimit); e != "ping" {
				return setFail("keepalive-acked", "with %v a connection that answers pings saw %q, want ping %d", env, e, i+1)
			}
		}
		if el := time.Since(t0); el < 3*time.Second {
			return setFail("keepalive-often", "with %v three pings came within %v", env, el)
		}
	default:
		if e := rc.next(1800 * time.Millisecond); e != "" {
			return setFail("conn-unasked", "with %v an idle connection saw %q after %v", env, e, time.Since(t0))
		}
	}
	return nil
}

// grace: a call in progress when its connection has reached its age.
func (x *setRun) grace() *mismatch {
	long := x.k.Seed%2 == 0
	g := "600ms"
	if long {
		g = "10m"
	}
	if m := x.open("rm", map[string]string{"DECKARD_GRPC_SERVER_MAX_CONNECTION_AGE": "300ms", "DECKARD_GRPC_SERVER_MAX_CONNECTION_AGE_GRACE": g, "DECKARD_HOUSEKEEPER_ENABLED": "false"}); m != nil {
		return m
	}
	release := make(chan struct{})
	free := sync.OnceFunc(func() { close(release) })
	defer free()
	var armed atomic.Bool
	armed.Store(true)
	x.s.redis.SetLatency(func(*fakeredis.Command) {
		if armed.CompareAndSwap(true, false) {
			<-release
		}
	})
	t0 := time.Now()
	if long {
		time.AfterFunc(1200*time.Millisecond, free)
	}
	ctx, cancel := within(setLimit)
	defer cancel()
	_, err := x.cl.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "a", Queue: "q", Timeless: true}}})
	el := time.Since(t0)
	free()
	x.c.Count("calls in progress at the end of their connection", 1)
	switch {
	case long && err != nil:
		return setFail("grace-cut", "a call that took %v was cut (%v) although its connection had 10m to complete its calls", el, err)
	case !long && err == nil:
		return setFail("grace-none", "a call in progress for %v was not ended by the grace period of %s", el, g)
	case !long && status.Code(err) == codes.DeadlineExceeded:
		return setFail("grace-none", "a call in progress was not ended by the grace period of %s within %v", g, el)
	case !long && el < 870*time.Millisecond:
		return setFail("grace-early", "a call was cut after %v, before the connection's age and grace period had passed", el)
	}
	return nil
}

// ---- health and reflection ----

func (x *setRun) services() *mismatch {
	if m := x.open("mm", nil); m != nil {
		return m
	}
	ctx, cancel := within(setLimit)
	defer cancel()
	st, err := reflectpb.NewServerReflectionClient(x.cc).ServerReflectionInfo(ctx)
	fatal(err)
	ask := func(q *reflectpb.ServerReflectionRequest) (*reflectpb.ServerReflectionResponse, error) {
		if err := st.Send(q); err != nil {
			return nil, err
		}
		return st.Recv()
	}
	l, err := ask(&reflectpb.ServerReflectionRequest{MessageRequest: &reflectpb.ServerReflectionRequest_ListServices{}})
	if err != nil {
		return setFail("reflection", "listing services failed: %v", err)
	}
	names := map[string]bool{}
	for _, s := range l.GetListServicesResponse().GetService() {
		names[s.Name] = true
	}
	main := deckard.Deckard_ServiceDesc.ServiceName
	for _, n := range []string{main, "grpc.health.v1.Health"} {
		if !names[n] {
			return setFail("reflection-list", "the service %s is not listed: %v", n, sortedKeys(names))
		}
	}
	f, err := ask(&reflectpb.ServerReflectionRequest{MessageRequest: &reflectpb.ServerReflectionRequest_FileContainingSymbol{FileContainingSymbol: main}})
	if err != nil || len(f.GetFileDescriptorResponse().GetFileDescriptorProto()) == 0 {
		return setFail("reflection-file", "reflection does not describe %s: %v %v", main, f, err)
	}
	hc := grpchealth.NewHealthClient(x.cc)
	names[""] = true
	for n := range names {
		r, err := hc.Check(ctx, &grpchealth.HealthCheckRequest{Service: n})
		if err != nil || r.Status != grpchealth.HealthCheckResponse_SERVING {
			return setFail("health", "the health of %q is %v, %v", n, r, err)
		}
		x.c.Count("services found serving", 1)
	}
	if r, err := hc.Check(ctx, &grpchealth.HealthCheckRequest{Service: "no.such.Service"}); status.Code(err) != codes.NotFound {
		return setFail("health-unknown", "the health of an unknown service is %v, %v", r, err)
	}
	return nil
}

// ---- metrics endpoint ----

func (x *setRun) metrics() *mismatch {
	port := shardPort(x.c.Shard)
	path := []string{"/metrics", "/m/x", "/"}[x.r.IntN(3)]
	env := map[string]string{"DECKARD_METRICS_ENABLED": "true", "DECKARD_METRICS_PORT": fmt.Sprint(port)}
	if path != "/metrics" {
		env["DECKARD_METRICS_PATH"] = path
	}
	open := x.r.IntN(3)
	if open == 1 {
		env["DECKARD_METRICS_OPENMETRICS_ENABLED"] = "false"
	} else if open == 2 {
		env["DECKARD_METRICS_OPENMETRICS_ENABLED"] = "true"
	}
	off := x.k.Seed%4 == 0
	if off {
		env["DECKARD_METRICS_ENABLED"] = "false"
	}
	if m := x.open("mm", env); m != nil {
		return m
	}
	if off {
		time.Sleep(300 * time.Millisecond)
		if _, err := scrape(port, path); err == nil {
			return setFail("metrics-off", "metrics are disabled but served at port %d%s", port, path)
		}
		x.c.Count("metrics endpoints found closed", 1)
		return nil
	}
	var body string
	var err error
	for end := time.Now().Add(setLimit); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		if body, err = scrape(port, path); err == nil || x.p.gone() {
			break
		}
	}
	if err != nil {
		if strings.Contains(x.p.out.String(), "address already in use") {
			return nil
		}
		return setFail("metrics-none", "no metrics at port %d%s with %v: %v", port, path, env, err)
	}
	_, err = x.cl.Pull(pctx(), &deckard.PullRequest{Queue: "empty", Amount: 1})
	fatal(err)
	if body, err = scrape(port, path); err != nil || !strings.Contains(body, "deckard_messages_empty_queue") {
		return setFail("metrics-empty", "the metrics at port %d%s lack a counter that has counted (%v):\n%.600s", port, path, err, body)
	}
	if path != "/" {
		if _, err := scrape(port, "/other"); err == nil {
			return setFail("metrics-elsewhere", "something is served beside the configured path %s", path)
		}
	}
	req, _ := http.NewRequest("GET", fmt.Sprintf("http://127.0.0.1:%d%s", port, path), nil)
	req.Header.Set("Accept", "application/openmetrics-text; version=1.0.0,text/plain;version=0.0.4;q=0.5")
	resp, err := http.DefaultClient.Do(req)
	fatal(err)
	resp.Body.Close()
	ct := resp.Header.Get("Content-Type")
	if is := strings.HasPrefix(ct, "application/openmetrics-text"); is != (open != 1) {
		return setFail("openmetrics", "with %v a client that prefers OpenMetrics was answered %q", env, ct)
	}
	x.c.Count("metrics endpoints scraped", 1)
	return nil
}

// ---- names in the back ends ----

func (x *setRun) names() *mismatch {
	env := map[string]string{}
	db, coll, conf, pre := "deckard", "queue", "queue_configuration", "deckard_v1"
	pick := func(dst *string, v string, keys ...string) {
		if x.r.IntN(3) > 0 {
			*dst = v
			env[keys[x.r.IntN(len(keys))]] = v
		}
	}
	pick(&db, "other", "DECKARD_MONGODB_DATABASE", "DECKARD_MONGO_DATABASE")
	pick(&coll, "msgs", "DECKARD_MONGODB_COLLECTION", "DECKARD_MONGO_COLLECTION")
	pick(&conf, "confs", "DECKARD_MONGODB_QUEUE_CONFIGURATION_COLLECTION", "DECKARD_MONGO_QUEUE_CONFIGURATION_COLLECTION")
	pick(&pre, "pre:fix", "DECKARD_CACHE_PREFIX")
	// openSite sets a prefix itself
	s, err := openSite(x.c, x.k.Kind, false, env)
	fatal(err)
	x.s = s
	if pre == "deckard_v1" {
		delete(s.env, "DECKARD_CACHE_PREFIX")
	} else {
		s.env["DECKARD_CACHE_PREFIX"] = pre
	}
	var odd atomic.Pointer[string]
	var data atomic.Int64
	s.mongo.SetWatch(func(c *fakemongo.Command, _ bool) {
		if c.Coll != db+"."+coll && c.Coll != db+"."+conf {
			odd.CompareAndSwap(nil, &c.Coll)
		}
		data.Add(1)
	})
	if x.p, err = startProc(x.c.Shard, s.dir, s.env); err != nil {
		return setFail("start", "%v", err)
	}
	if x.cc, err = dialTo(x.p.port, nil); err != nil {
		fatal(err)
	}
	x.cl = deckard.NewDeckardClient(x.cc)
	_, err = x.cl.Add(pctx(), &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "a", Queue: "q", Timeless: true}, {Id: "b", Queue: "q", Timeless: true}}})
	fatal(err)
	_, err = x.cl.EditQueue(pctx(), &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: 7}})
	fatal(err)
	if n := len(s.mongo.Docs(db + "." + coll)); n != 2 {
		return setFail("names-messages", "with %v the collection %s.%s holds %d documents, want the 2 messages", env, db, coll, n)
	}
	if n := len(s.mongo.Docs(db + "." + conf)); n != 1 {
		return setFail("names-configuration", "with %v the collection %s.%s holds %d documents, want the one configuration", env, db, conf, n)
	}
	n := 0
	for k := range s.redis.Keys() {
		if !strings.HasPrefix(k, pre+":") {
			return setFail("names-prefix", "with %v the Redis key %q lacks the prefix %q", env, k, pre)
		}
		if strings.Contains(k, "q") {
			n++
		}
	}
	if n == 0 {
		return setFail("names-cache", "with %v no Redis key belongs to the queue", env)
	}
	// messages whose documents are missing are looked for again
	s.mongo.Wipe()
	_, _ = x.cl.Pull(pctx(), &deckard.PullRequest{Queue: "q", Amount: 2})
	if o := odd.Load(); o != nil {
		return setFail("names-elsewhere", "with %v a command went to %s, want %s.%s and %s.%s only", env, *o, db, coll, db, conf)
	}
	x.c.Count("commands on the chosen collections", data.Load())
	x.c.Count("instances with chosen names", 1)
	return nil
}

// ---- audit server ----

func (x *setRun) audited() *mismatch {
	type hit struct{ user, pass, path, body string }
	var mu sync.Mutex
	var hits []hit
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	fatal(err)
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		h := hit{path: r.URL.Path, body: string(b)}
		if a, ok := strings.CutPrefix(r.Header.Get("Authorization"), "Basic "); ok {
			if d, err := base64.StdEncoding.DecodeString(a); err == nil {
				h.user, h.pass, _ = strings.Cut(string(d), ":")
			}
		}
		mu.Lock()
		hits = append(hits, h)
		mu.Unlock()
		w.Header().Set("X-Elastic-Product", "Elasticsearch")
		w.Header().Set("Content-Type", "application/json")
		if strings.HasSuffix(r.URL.Path, "_bulk") {
			return
		}
		_, _ = w.Write([]byte(`{"version":{"number":"7.17.0","build_flavor":"default"},"tagline":"You Know, for Search"}`))
	})}
	go func() { _ = srv.Serve(ln) }()
	defer srv.Close()
	base := []string{"", "/", "/sub"}[x.r.IntN(3)]
	env := map[string]string{"DECKARD_ELASTIC_ADDRESS": "http://" + ln.Addr().String() + base}
	on := x.k.Seed%3 > 0
	if on {
		env["DECKARD_AUDIT_ENABLED"] = "true"
	} else if x.r.IntN(2) == 0 {
		env["DECKARD_AUDIT_ENABLED"] = "false"
	}
	user, pass := "", ""
	if x.r.IntN(3) > 0 {
		user, pass = "us", "p:w d"
		env["DECKARD_ELASTIC_USER"], env["DECKARD_ELASTIC_PASSWORD"] = user, pass
	}
	if m := x.open("mm", env); m != nil {
		return m
	}
	for i := 0; i < 205; i++ { // more than a batch
		_, err := x.cl.Add(pctx(), &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: fmt.Sprint("a", i), Queue: "q", Timeless: true}}})
		fatal(err)
	}
	look := func() (bulk int, bad *mismatch) {
		mu.Lock()
		defer mu.Unlock()
		for _, h := range hits {
			if h.user != user || h.pass != pass {
				return 0, setFail("audit-credentials", "with %v a request to %s carried user %q and password %q", env, h.path, h.user, h.pass)
			}
			if !strings.HasPrefix(h.path, strings.TrimSuffix(base, "/")) {
				return 0, setFail("audit-path", "with %v a request went to %s", env, h.path)
			}
			if strings.HasSuffix(h.path, "_bulk") {
				bulk += strings.Count(h.body, "INSERT_CACHE")
			}
		}
		return
	}
	if !on {
		time.Sleep(100 * time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		if len(hits) > 0 {
			return setFail("audit-off", "auditing is disabled but %d requests were sent", len(hits))
		}
		x.c.Count("instances without auditing", 1)
		return nil
	}
	for end := time.Now().Add(setLimit); ; time.Sleep(10 * time.Millisecond) {
		n, m := look()
		if m != nil {
			return m
		}
		if n >= 200 {
			break
		}
		if time.Now().After(end) {
			return setFail("audit-none", "with %v only %d entries were sent within %v after 205 additions", env, n, setLimit)
		}
	}
	x.c.Count("instances with auditing", 1)
	return nil
}

// ---- logs ----

func (x *setRun) logs() *mismatch {
	typ := []string{"", "json", "text"}[x.r.IntN(3)]
	debug := []string{"", "true", "false"}[x.r.IntN(3)]
	env := fast()
	if typ != "" {
		env["DECKARD_LOG_TYPE"] = typ
	}
	if debug != "" {
		env["DECKARD_DEBUG"] = debug
	}
	if m := x.open("mm", env); m != nil {
		return m
	}
	secret := "s3cr3t-payload"
	for i := 0; i < 5; i++ {
		_, err := x.cl.Add(pctx(), &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: fmt.Sprint("a", i), Queue: "q", Timeless: true, StringPayload: secret}}})
		fatal(err)
		_, err = x.cl.Pull(pctx(), &deckard.PullRequest{Queue: "q", Amount: 1, AckDeadlineMs: 1})
		fatal(err)
	}
	has := func() bool {
		return strings.Contains(x.p.out.String(), "DEBUG") || strings.Contains(x.p.out.String(), "Finished ")
	}
	if debug == "true" {
		for end := time.Now().Add(setLimit); time.Now().Before(end) && !has(); time.Sleep(5 * time.Millisecond) {
		}
	} else {
		time.Sleep(300 * time.Millisecond)
	}
	out := x.p.out.String()
	if strings.Contains(out, secret) {
		return setFail("log-payload", "a payload appears in the log")
	}
	if has() != (debug == "true") {
		return setFail("log-level", "with %v debug lines are present: %v; output: %.500s", env, has(), out)
	}
	lines := strings.Split(out, "\n")
	for _, l := range lines[:len(lines)-1] { // the last one may be incomplete
		var v map[string]any
		isJSON := json.Unmarshal([]byte(l), &v) == nil && v["message"] != nil && v["severity"] != nil && v["application_name"] != nil
		if isJSON != (typ != "text") && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "github.com") && !strings.HasPrefix(l, "main.") && !strings.HasPrefix(l, "runtime.") {
			return setFail("log-type", "with %v the log has the line %.300q", env, l)
		}
		x.c.Count("log lines read", 1)
	}
	return nil
}

// ---- settings that must stop the start ----

func (x *setRun) refuse() *mismatch {
	bad := []map[string]string{
		{"DECKARD_CACHE_TYPE": "REDIS"},
		{"DECKARD_STORAGE_TYPE": "MONGODB"},
		{"DECKARD_CACHE_TYPE": "MEMCACHED"},
		{"DECKARD_STORAGE_TYPE": "POSTGRES"},
		{"DECKARD_CACHE_TYPE": "REDIS", "DECKARD_CACHE_URI": "http://127.0.0.1:1"},
		{"DECKARD_CACHE_TYPE": "REDIS", "DECKARD_CACHE_URI": "redis://127.0.0.1:1?nonsense=1"},
		{"DECKARD_CACHE_TYPE": "REDIS", "DECKARD_CACHE_URI": "redis://127.0.0.1:1?nonsense=1", "DECKARD_REDIS_CLUSTER_MODE": "true"},
		{"DECKARD_STORAGE_TYPE": "MONGODB", "DECKARD_STORAGE_URI": "nonsense"},
		{"DECKARD_AUDIT_ENABLED": "true", "DECKARD_ELASTIC_ADDRESS": "http://127.0.0.1:1"},
	}[x.k.Seed%9]
	env := map[string]string{"DECKARD_CACHE_CONNECTION_RETRY_ATTEMPTS": "2", "DECKARD_CACHE_CONNECTION_RETRY_DELAY": "50ms", "DECKARD_STORAGE_CONNECTION_RETRY_ATTEMPTS": "2", "DECKARD_STORAGE_CONNECTION_RETRY_DELAY": "50ms"}
	for a, b := range bad {
		env[a] = b
	}
	p, err := launch(x.c.Dir, shardPort(x.c.Shard), env)
	fatal(err)
	x.p = p
	if p.wait(setLimit) {
		if p.portTaken() {
			return nil
		}
		if p.err == nil {
			return setFail("refuse-status", "with %v the process ended with status 0", bad)
		}
		x.c.Count("starts refused", 1)
		return nil
	}
	return setFail("refuse-not", "with %v the process was still running after %v (port open: %v)", bad, setLimit, p.ready(time.Second))
}

// ---- back ends that come up late ----

type latePort struct {
	l    net.Listener
	addr string
	to   atomic.Pointer[string]
	n    atomic.Int64
}

// newLate is an address where connections are closed at once until a back end is put behind it.
func newLate() *latePort {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	fatal(err)
	p := &latePort{l: l, addr: l.Addr().String()}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			to := p.to.Load()
			if to == nil {
				p.n.Add(1)
				c.Close()
				continue
			}
			go func() {
				defer c.Close()
				d, err := net.Dial("tcp", *to)
				if err != nil {
					return
				}
				defer d.Close()
				go func() { _, _ = io.Copy(d, c); d.Close() }()
				_, _ = io.Copy(c, d)
			}()
		}
	}()
	return p
}

func (x *setRun) late() *mismatch {
	p := newLate()
	defer p.l.Close()
	what := []string{"CACHE", "STORAGE"}[x.k.Seed%2]
	how := []string{"comes", "never", "no-retry"}[x.k.Seed/2%3]
	env := map[string]string{"DECKARD_" + what + "_CONNECTION_RETRY_DELAY": "300ms"}
	env["DECKARD_"+what+"_CONNECTION_RETRY_ATTEMPTS"] = map[string]string{"comes": "400", "never": "4", "no-retry": "400"}[how]
	if how == "no-retry" {
		env["DECKARD_"+what+"_CONNECTION_RETRY_ENABLED"] = "false"
	}
	var target string
	port := p.addr[strings.LastIndex(p.addr, ":"):]
	if what == "CACHE" {
		f, err := fakeredis.Start(1)
		fatal(err)
		defer f.Close()
		target = strings.TrimPrefix(strings.TrimPrefix(f.URI(), "redis://"), "rediss://")
		target, _, _ = strings.Cut(target, "/")
		env["DECKARD_CACHE_TYPE"], env["DECKARD_CACHE_URI"] = "REDIS", "redis://localhost"+port+"/0?max_retries=-1"
	} else {
		f, err := fakemongo.Start()
		fatal(err)
		defer f.Close()
		target = strings.Trim(strings.TrimPrefix(f.URI(), "mongodb://"), "/")
		env["DECKARD_STORAGE_TYPE"], env["DECKARD_STORAGE_URI"] = "MONGODB", "mongodb://localhost"+port+"/?directConnection=true&serverSelectionTimeoutMS=300"
	}
	t0 := time.Now()
	pr, err := launch(x.c.Dir, shardPort(x.c.Shard), env)
	fatal(err)
	x.p = pr
	switch how {
	case "comes":
		for end := time.Now().Add(setLimit); time.Now().Before(end) && p.n.Load() == 0 && !pr.gone(); time.Sleep(5 * time.Millisecond) {
		}
		time.Sleep(700 * time.Millisecond)
		if pr.gone() {
			if pr.portTaken() {
				return nil
			}
			return setFail("retry-gave-up", "with %v the process ended with %s after %v while its back end was away", env, pr.status(), time.Since(t0))
		}
		p.to.Store(&target)
		if !pr.ready(setLimit) {
			if pr.portTaken() {
				return nil
			}
			return setFail("retry-not-up", "with %v the service was not up %v after its back end came (ended: %v); output: %s", env, setLimit, pr.gone(), pr.tail(400))
		}
		cc, err := dialTo(pr.port, nil)
		fatal(err)
		x.cc = cc
		if _, err := deckard.NewDeckardClient(cc).Add(pctx(), &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "a", Queue: "q", Timeless: true}}}); err != nil {
			return setFail("retry-call", "after its back end came late an add failed: %v", err)
		}
	default:
		if !pr.wait(setLimit) {
			return setFail("retry-endless", "with %v the process was still trying after %v", env, setLimit)
		}
		if pr.portTaken() {
			return nil
		}
		if pr.err == nil {
			return setFail("retry-status", "with %v and no back end the process ended with status 0", env)
		}
		if el := time.Since(t0); how == "never" && el < 900*time.Millisecond {
			return setFail("retry-hasty", "with %v and no back end the process ended after %v: 4 attempts have 3 delays between them", env, el)
		}
	}
	x.c.Count("late back ends ("+how+")", 1)
	return nil
}

// tries: a back end that answers the first attempts with errors.
func (x *setRun) tries() *mismatch {
	what, other := "CACHE", "STORAGE"
	if x.k.Seed%2 == 1 {
		what, other = other, what
	}
	fails, max, retry := x.r.IntN(5), 1+x.r.IntN(4), x.r.IntN(4) > 0
	env := map[string]string{
		"DECKARD_" + what + "_CONNECTION_RETRY_DELAY": "200ms", "DECKARD_" + what + "_CONNECTION_RETRY_ATTEMPTS": fmt.Sprint(max), "DECKARD_" + what + "_CONNECTION_RETRY_ENABLED": fmt.Sprint(retry),
		"DECKARD_" + other + "_CONNECTION_RETRY_DELAY": "1h", "DECKARD_" + other + "_CONNECTION_RETRY_ATTEMPTS": "30", "DECKARD_" + other + "_CONNECTION_RETRY_ENABLED": fmt.Sprint(!retry)}
	var mu sync.Mutex
	var at []time.Time
	var ready bool
	ping := func() bool {
		mu.Lock()
		defer mu.Unlock()
		if ready {
			return false
		}
		at = append(at, time.Now())
		return len(at) <= fails
	}
	if what == "CACHE" {
		f, err := fakeredis.Start(1)
		fatal(err)
		defer f.Close()
		f.SetPing(ping)
		env["DECKARD_CACHE_TYPE"], env["DECKARD_CACHE_URI"] = "REDIS", f.URI()
	} else {
		f, err := fakemongo.Start()
		fatal(err)
		defer f.Close()
		f.SetPing(ping)
		env["DECKARD_STORAGE_TYPE"], env["DECKARD_STORAGE_URI"] = "MONGODB", f.URI()
	}
	pr, err := launch(x.c.Dir, shardPort(x.c.Shard), env)
	fatal(err)
	x.p = pr
	up := false
	for end := time.Now().Add(setLimit); time.Now().Before(end) && !pr.gone() && !up; {
		up = pr.ready(100 * time.Millisecond)
	}
	if pr.portTaken() {
		return nil
	}
	mu.Lock()
	ready = true
	n := len(at)
	times := append([]time.Time(nil), at...)
	mu.Unlock()
	lim := max
	if !retry {
		lim = 1
	}
	// a service on Mongo connects twice, one after the other
	text := fmt.Sprintf("with %v and a back end that fails the first %d attempts", env, fails)
	if want := fails < lim; want != up {
		return setFail("tries-up", "%s the service is up: %v after %d attempts (ended: %v, %s)", text, up, n, pr.gone(), pr.tail(300))
	}
	x.c.Count("back ends that fail the first attempts", 1)
	if !up && n != lim {
		return setFail("tries-count", "%s it was tried %d times", text, n)
	}
	if up && n < fails+1 || up && n > 2*fails+2 {
		return setFail("tries-count", "%s it was tried %d times", text, n)
	}
	for i := 1; i < n && i <= fails; i++ {
		if d := times[i].Sub(times[i-1]); d < 190*time.Millisecond {
			return setFail("tries-hasty", "%s attempt %d came %v after the one before", text, i+1, d)
		}
	}
	return nil
}

func runSet(c *vk.Ctx, k *setCase) {
	x := &setRun{c: c, k: k, r: rand.New(rand.NewPCG(k.Seed, 33))}
	var m *mismatch
	c.Active("settings "+k.Mode, k)
	defer c.Active("", nil)
	defer x.close()
	if !c.Guard("settings "+k.Mode, k, func() {
		m = map[string]func() *mismatch{"limits": x.limits, "conns": x.conns, "grace": x.grace, "services": x.services, "metrics": x.metrics,
			"names": x.names, "audit": x.audited, "logs": x.logs, "refuse": x.refuse, "late": x.late, "tries": x.tries}[k.Mode]()
	}) {
		return
	}
	c.Eval(1)
	c.Count("processes ("+k.Mode+")", 1)
	c.Distinct(fmt.Sprint(k.Mode, k.Kind, k.Seed%36))
	if m != nil {
		c.Violation(m.key, k, "%s: %s", k.Mode, m.text)
	}
}

func init() {
	vk.Register(&vk.Check{Prop: "C33", Shards: 8, QuickS: 60, ThoroughS: 400,
		Rule:        "a distinct non-trivial case is a (kind of setting, seed modulo 36) with which the real binary was run and its effect observed by a client, a scraper, a raw HTTP/2 connection or a back end",
		Assumptions: []string{"Redis, MongoDB and the audit server are in-process protocol servers written for this task", "the exporter behind the metrics endpoint is an offline stand-in; its HTTP handler is the real one"},
		Run: func(c *vk.Ctx) {
			r := c.Rand(33)
			var all []*setCase
			put := func(mode, kind string, n int, from uint64) {
				for i := 0; i < n; i++ {
					all = append(all, &setCase{Mode: mode, Kind: kind, Seed: (r.Uint64()%(1<<40))*36 + uint64(i) + from})
				}
			}
			for round := 0; round < c.N(1, 400); round++ {
				put("late", "", 6, 0)
				put("conns", "", 9, 0)
				put("tries", "", 8, 0)
				put("grace", "", 2, 0)
				put("refuse", "", 9, 0)
				put("limits", "", 8, 0)
				put("metrics", "", 8, 0)
				put("names", "rg", 4, 0)
				put("names", "cg", 2, 0)
				put("audit", "", 6, 0)
				put("logs", "", 8, 0)
				put("services", "", 1, 0)
			}
			for i, k := range all {
				if i%c.Shards == c.Shard && !c.Past(0.95) && !c.Violated() {
					runSet(c, k)
				}
			}
		},
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			var k setCase
			if json.Unmarshal(raw, &k) == nil {
				runSet(c, &k)
			}
		},
	})
}
