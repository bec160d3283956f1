package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zverif/vk"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// The published contract: message -> fields as "name type number".
var contract = map[string]string{
	"GetByIdRequest":     "queue string 1,id string 2",
	"GetByIdResponse":    "message Message 1,human_readable_payload map<string> 3,found bool 2",
	"RemoveRequest":      "ids []string 1,queue string 2",
	"RemoveResponse":     "cacheRemoved int64 1,storageRemoved int64 2",
	"PullRequest":        "queue string 1,amount int32 2,score_filter int64 3,max_score double 4,min_score double 5,ack_deadline_ms int64 6",
	"PullResponse":       "messages []Message 1",
	"Message":            "id string 1,description string 2,queue string 3,payload map<any> 8,metadata map<string> 4,string_payload string 5,score double 6,breakpoint string 7,diagnostics MessageDiagnostics 9",
	"MessageDiagnostics": "acks int64 1,nacks int64 2,consecutive_acks int64 3,consecutive_nacks int64 4",
	"CountRequest":       "queue string 1",
	"CountResponse":      "count int64 1",
	"AddRequest":         "messages []AddMessage 1",
	"AddMessage":         "id string 1,payload map<any> 10,string_payload string 3,metadata map<string> 11,queue string 4,timeless bool 6,ttl_minutes int64 7,description string 8,score double 12",
	"AddResponse":        "created_count int64 1,updated_count int64 2",
	"EditQueueRequest":   "queue string 1,configuration QueueConfiguration 2",
	"EditQueueResponse":  "queue string 1,success bool 2",
	"QueueConfiguration": "max_elements int64 1",
	"GetQueueRequest":    "queue string 1",
	"GetQueueResponse":   "queue string 1,configuration QueueConfiguration 2",
	"AckRequest":         "id string 1,queue string 2,reason string 5,score_subtract double 3,breakpoint string 4,lock_ms int64 6,removeMessage bool 7,score double 10",
	"AckResponse":        "success bool 1,removal_response RemoveResponse 2",
	"FlushRequest":       "",
	"FlushResponse":      "success bool 1",
}

var newOf = map[string]func() proto.Message{
	"GetByIdRequest":     func() proto.Message { return &deckard.GetByIdRequest{} },
	"GetByIdResponse":    func() proto.Message { return &deckard.GetByIdResponse{} },
	"RemoveRequest":      func() proto.Message { return &deckard.RemoveRequest{} },
	"RemoveResponse":     func() proto.Message { return &deckard.RemoveResponse{} },
	"PullRequest":        func() proto.Message { return &deckard.PullRequest{} },
	"PullResponse":       func() proto.Message { return &deckard.PullResponse{} },
	"Message":            func() proto.Message { return &deckard.Message{} },
	"MessageDiagnostics": func() proto.Message { return &deckard.MessageDiagnostics{} },
	"CountRequest":       func() proto.Message { return &deckard.CountRequest{} },
	"CountResponse":      func() proto.Message { return &deckard.CountResponse{} },
	"AddRequest":         func() proto.Message { return &deckard.AddRequest{} },
	"AddMessage":         func() proto.Message { return &deckard.AddMessage{} },
	"AddResponse":        func() proto.Message { return &deckard.AddResponse{} },
	"EditQueueRequest":   func() proto.Message { return &deckard.EditQueueRequest{} },
	"EditQueueResponse":  func() proto.Message { return &deckard.EditQueueResponse{} },
	"QueueConfiguration": func() proto.Message { return &deckard.QueueConfiguration{} },
	"GetQueueRequest":    func() proto.Message { return &deckard.GetQueueRequest{} },
	"GetQueueResponse":   func() proto.Message { return &deckard.GetQueueResponse{} },
	"AckRequest":         func() proto.Message { return &deckard.AckRequest{} },
	"AckResponse":        func() proto.Message { return &deckard.AckResponse{} },
	"FlushRequest":       func() proto.Message { return &deckard.FlushRequest{} },
	"FlushResponse":      func() proto.Message { return &deckard.FlushResponse{} },
}

var rpcs = []struct{ name, req, resp string }{
	{"Add", "AddRequest", "AddResponse"}, {"Pull", "PullRequest", "PullResponse"},
	{"Ack", "AckRequest", "AckResponse"}, {"Nack", "AckRequest", "AckResponse"},
	{"Count", "CountRequest", "CountResponse"}, {"Remove", "RemoveRequest", "RemoveResponse"},
	{"Flush", "FlushRequest", "FlushResponse"}, {"GetById", "GetByIdRequest", "GetByIdResponse"},
	{"EditQueue", "EditQueueRequest", "EditQueueResponse"}, {"GetQueue", "GetQueueRequest", "GetQueueResponse"},
}

type field struct {
	name, typ string
	num       protowire.Number
}

var fields = map[string][]field{}
var names []string

func init() {
	for m, d := range contract {
		names = append(names, m)
		if d == "" {
			fields[m] = nil
			continue
		}
		for _, f := range strings.Split(d, ",") {
			p := strings.Fields(f)
			var n int
			fmt.Sscan(p[2], &n)
			fields[m] = append(fields[m], field{p[0], p[1], protowire.Number(n)})
		}
	}
	sort.Strings(names)
	vk.Register(&vk.Check{
		Prop: "C30",
		Rule: "a case is one generated message of the published contract encoded by hand from the published field numbers, decoded and re-encoded by the real types, or one call of one real client method over a real connection against a recording server; non-trivial: at least one field differs from its zero value; distinct by content",
		Assumptions: []string{
			"the contract table in the monitor is the published proto/deckard_service.proto",
		},
		QuickS: 15, ThoroughS: 120,
		Run: runWire,
	})
}

func goName(f string) string {
	parts := strings.Split(f, "_")
	for i, p := range parts {
		parts[i] = strings.ToUpper(p[:1]) + p[1:]
	}
	return strings.Join(parts, "")
}

func genStr(r *rand.Rand) string {
	toks := []string{"a", "", "queue::x", "é", "日本語", "\x00", " ", "\"", "{}", "0123456789", "\n"}
	s := ""
	for k := r.IntN(4); k > 0; k-- {
		s += toks[r.IntN(len(toks))]
	}
	return s
}

func genI64(r *rand.Rand) int64 {
	switch r.IntN(4) {
	case 0:
		return int64(r.IntN(5)) - 2
	case 1:
		return []int64{math.MaxInt64, math.MinInt64, 1 << 31, -1 << 31, 1 << 53}[r.IntN(5)]
	}
	return int64(r.Uint64())
}

// value trees: map[field]any with int64, float64, bool, string, []any, map[string]any
func gen(r *rand.Rand, m string, depth int) map[string]any {
	v := map[string]any{}
	for _, f := range fields[m] {
		if r.IntN(4) == 0 {
			continue
		}
		if x := genType(r, f.typ, depth); x != nil {
			v[f.name] = x
		}
	}
	return v
}

func genType(r *rand.Rand, t string, depth int) any {
	switch {
	case t == "string":
		if s := genStr(r); s != "" {
			return s
		}
		return nil
	case t == "bool":
		if r.IntN(2) == 0 {
			return nil
		}
		return true
	case t == "int64" || t == "int32":
		n := genI64(r)
		if t == "int32" {
			n = int64(int32(n))
		}
		if n == 0 {
			return nil
		}
		return n
	case t == "double":
		f := genFloat(r)
		if f != f || f == 0 {
			return nil
		}
		return f
	case strings.HasPrefix(t, "[]"):
		n := r.IntN(4)
		if n == 0 {
			return nil
		}
		l := make([]any, n)
		for i := range l {
			l[i] = genType(r, t[2:], depth+1)
			if l[i] == nil {
				l[i] = "x"
			}
		}
		return l
	case strings.HasPrefix(t, "map<"):
		n := r.IntN(4)
		if n == 0 {
			return nil
		}
		mm := map[string]any{}
		for i := 0; i < n; i++ {
			if t == "map<string>" {
				mm[genStr(r)] = genStr(r)
			} else {
				mm[genStr(r)] = map[string]any{"type_url": "type.googleapis.com/t." + fmt.Sprint(r.IntN(9)), "value": genStr(r) + "z"}
			}
		}
		return mm
	}
	return gen(r, t, depth+1)
}

func encode(m string, v map[string]any) []byte {
	var b []byte
	for _, f := range fields[m] {
		x, ok := v[f.name]
		if !ok {
			continue
		}
		b = encField(b, f.num, f.typ, x)
	}
	return b
}

func encField(b []byte, num protowire.Number, t string, x any) []byte {
	switch {
	case t == "string":
		return protowire.AppendString(protowire.AppendTag(b, num, protowire.BytesType), x.(string))
	case t == "bool":
		return protowire.AppendVarint(protowire.AppendTag(b, num, protowire.VarintType), 1)
	case t == "int64" || t == "int32":
		return protowire.AppendVarint(protowire.AppendTag(b, num, protowire.VarintType), uint64(x.(int64)))
	case t == "double":
		return protowire.AppendFixed64(protowire.AppendTag(b, num, protowire.Fixed64Type), math.Float64bits(x.(float64)))
	case strings.HasPrefix(t, "[]"):
		for _, e := range x.([]any) {
			b = encField(b, num, t[2:], e)
		}
		return b
	case strings.HasPrefix(t, "map<"):
		mm := x.(map[string]any)
		keys := make([]string, 0, len(mm))
		for k := range mm {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			e := encField(nil, 1, "string", k)
			if t == "map<string>" {
				e = encField(e, 2, "string", mm[k])
			} else {
				a := mm[k].(map[string]any)
				e = protowire.AppendBytes(protowire.AppendTag(e, 2, protowire.BytesType), encField(encField(nil, 1, "string", a["type_url"]), 2, "string", a["value"]))
			}
			b = protowire.AppendBytes(protowire.AppendTag(b, num, protowire.BytesType), e)
		}
		return b
	}
	return protowire.AppendBytes(protowire.AppendTag(b, num, protowire.BytesType), encode(t, x.(map[string]any)))
}

func decode(m string, b []byte) (map[string]any, error) {
	v := map[string]any{}
	for len(b) > 0 {
		num, wt, n := protowire.ConsumeTag(b)
		if n < 0 {
			return nil, protowire.ParseError(n)
		}
		b = b[n:]
		var f *field
		for i := range fields[m] {
			if fields[m][i].num == num {
				f = &fields[m][i]
			}
		}
		if f == nil {
			return nil, fmt.Errorf("%s carries field number %d, which is not in the contract", m, num)
		}
		switch wt {
		case protowire.VarintType:
			x, n := protowire.ConsumeVarint(b)
			b = b[n:]
			if f.typ == "bool" {
				v[f.name] = x != 0
			} else if f.typ == "int64" || f.typ == "int32" {
				v[f.name] = int64(x)
			} else {
				return nil, fmt.Errorf("%s.%s has wire type varint", m, f.name)
			}
		case protowire.Fixed64Type:
			x, n := protowire.ConsumeFixed64(b)
			b = b[n:]
			if f.typ != "double" {
				return nil, fmt.Errorf("%s.%s has wire type fixed64", m, f.name)
			}
			v[f.name] = math.Float64frombits(x)
		case protowire.BytesType:
			x, n := protowire.ConsumeBytes(b)
			b = b[n:]
			t := f.typ
			rep := strings.HasPrefix(t, "[]")
			t = strings.TrimPrefix(t, "[]")
			var e any
			switch {
			case t == "string":
				e = string(x)
			case strings.HasPrefix(t, "map<"):
				mm, _ := v[f.name].(map[string]any)
				if mm == nil {
					mm = map[string]any{}
				}
				k, val := "", any("")
				if t == "map<any>" {
					val = map[string]any{"type_url": "", "value": ""}
				}
				for len(x) > 0 {
					num, _, n := protowire.ConsumeTag(x)
					y, n2 := protowire.ConsumeBytes(x[n:])
					x = x[n+n2:]
					if num == 1 {
						k = string(y)
					} else if t == "map<string>" {
						val = string(y)
					} else {
						a := map[string]any{"type_url": "", "value": ""}
						for len(y) > 0 {
							num, _, n := protowire.ConsumeTag(y)
							z, n2 := protowire.ConsumeBytes(y[n:])
							y = y[n+n2:]
							if num == 1 {
								a["type_url"] = string(z)
							} else {
								a["value"] = string(z)
							}
						}
						val = a
					}
				}
				mm[k] = val
				e = mm
			case contract[t] != "" || t == "FlushRequest":
				s, err := decode(t, x)
				if err != nil {
					return nil, err
				}
				e = s
			default:
				return nil, fmt.Errorf("%s.%s has wire type bytes", m, f.name)
			}
			if rep {
				l, _ := v[f.name].([]any)
				e = append(l, e)
			}
			v[f.name] = e
		default:
			return nil, fmt.Errorf("%s.%s has wire type %v", m, f.name, wt)
		}
	}
	return v, nil
}

// tree reads a real message through its accessors.
func tree(m string, msg any) map[string]any {
	v := map[string]any{}
	rv := reflect.ValueOf(msg)
	for _, f := range fields[m] {
		g := rv.MethodByName("Get" + goName(f.name))
		if !g.IsValid() {
			v[f.name] = "no accessor"
			continue
		}
		if x := fromGo(f.typ, g.Call(nil)[0]); x != nil {
			v[f.name] = x
		}
	}
	return v
}

func fromGo(t string, x reflect.Value) any {
	switch {
	case t == "string":
		if x.String() == "" {
			return nil
		}
		return x.String()
	case t == "bool":
		if !x.Bool() {
			return nil
		}
		return true
	case t == "int64" || t == "int32":
		if x.Int() == 0 {
			return nil
		}
		return x.Int()
	case t == "double":
		if math.Float64bits(x.Float()) == 0 {
			return nil
		}
		return x.Float()
	case strings.HasPrefix(t, "[]"):
		if x.Len() == 0 {
			return nil
		}
		l := make([]any, x.Len())
		for i := range l {
			if t == "[]string" {
				l[i] = x.Index(i).String()
			} else {
				l[i] = tree(t[2:], x.Index(i).Interface())
			}
		}
		return l
	case strings.HasPrefix(t, "map<"):
		if x.Len() == 0 {
			return nil
		}
		mm := map[string]any{}
		for _, k := range x.MapKeys() {
			e := x.MapIndex(k)
			if t == "map<string>" {
				mm[k.String()] = e.String()
			} else {
				a := e.Interface().(*anypb.Any)
				mm[k.String()] = map[string]any{"type_url": a.GetTypeUrl(), "value": string(a.GetValue())}
			}
		}
		return mm
	}
	if x.IsNil() {
		return nil
	}
	return tree(t, x.Interface())
}

func js(v any) string { return fmt.Sprintf("%v", v) }

func runWire(c *vk.Ctx) {
	r := c.Rand(5)
	n := c.N(60000, 900000)
	for i := 0; i < n && !c.Past(0.6); i++ {
		m := names[r.IntN(len(names))]
		v := gen(r, m, 0)
		c.Eval(1)
		raw := encode(m, v)
		kase := map[string]any{"message": m, "fields": js(v)}
		c.Guard("decode", kase, func() {
			msg := newOf[m]()
			if err := proto.Unmarshal(raw, msg); err != nil {
				c.Violation("unmarshal:"+m, kase, "%s does not decode: %v", m, err)
				return
			}
			if got := tree(m, msg); !reflect.DeepEqual(got, v) {
				c.Violation("fields:"+m, kase, "%s decoded from its published encoding reads %s, want %s", m, js(got), js(v))
				return
			}
			out, err := proto.Marshal(msg)
			if err != nil {
				c.Violation("marshal:"+m, kase, "%s does not encode: %v", m, err)
				return
			}
			back, err := decode(m, out)
			if err != nil || !reflect.DeepEqual(back, v) {
				c.Violation("encoding:"+m, kase, "%s re-encoded reads %s (%v), want %s", m, js(back), err, js(v))
				return
			}
			if j, err := protojson.Marshal(msg); err == nil && i%50 == 0 { // JSON names (reflection clients)
				var o map[string]json.RawMessage
				if json.Unmarshal(j, &o) == nil {
					for _, f := range fields[m] {
						_, set := v[f.name]
						lc := goName(f.name)
						lc = strings.ToLower(lc[:1]) + lc[1:]
						if _, ok := o[lc]; ok != set {
							c.Violation("json:"+m, kase, "%s as JSON: field %s present=%v, want %v", m, lc, ok, set)
						}
					}
				}
			}
			cl := proto.Clone(msg)
			if !proto.Equal(cl, msg) && !strings.Contains(js(v), "NaN") {
				c.Violation("clone:"+m, kase, "a copy of %s differs from it", m)
			}
			proto.Reset(cl)
			if got := tree(m, cl); len(got) != 0 {
				c.Violation("reset:"+m, kase, "%s after a reset reads %s", m, js(got))
			}
			if full := string(msg.ProtoReflect().Descriptor().FullName()); full != "blipai.deckard."+m {
				c.Violation("fullname:"+m, kase, "%s is published as %s", m, full)
			}
		})
		if len(v) > 0 {
			c.Distinct(m + string(raw))
		}
		if i < 2 {
			c.Sample(kase)
		}
		if c.Violated() {
			return
		}
	}
	for _, m := range names { // accessors of an absent message
		nilMsg := reflect.Zero(reflect.TypeOf(newOf[m]())).Interface()
		c.Guard("nil accessors "+m, m, func() {
			if got := tree(m, nilMsg); len(got) != 0 {
				c.Violation("nil:"+m, m, "absent %s reads %s", m, js(got))
			}
		})
	}
	runCalls(c, r)
}

type recorded struct {
	method string
	req    map[string]any
	md     bool
}

type recorder struct {
	deckard.UnimplementedDeckardServer
	mu    sync.Mutex
	seen  []recorded
	reply func(resp string) (proto.Message, error)
}

func (s *recorder) do(method, reqT, respT string, req any) (proto.Message, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seen = append(s.seen, recorded{method: method, req: tree(reqT, req)})
	return s.reply(respT)
}

func cast[T proto.Message](m proto.Message, err error) (T, error) {
	var zero T
	if err != nil {
		return zero, err
	}
	return m.(T), nil
}

func (s *recorder) Add(_ context.Context, q *deckard.AddRequest) (*deckard.AddResponse, error) {
	return cast[*deckard.AddResponse](s.do("Add", "AddRequest", "AddResponse", q))
}
func (s *recorder) Pull(_ context.Context, q *deckard.PullRequest) (*deckard.PullResponse, error) {
	return cast[*deckard.PullResponse](s.do("Pull", "PullRequest", "PullResponse", q))
}
func (s *recorder) Ack(_ context.Context, q *deckard.AckRequest) (*deckard.AckResponse, error) {
	return cast[*deckard.AckResponse](s.do("Ack", "AckRequest", "AckResponse", q))
}
func (s *recorder) Nack(_ context.Context, q *deckard.AckRequest) (*deckard.AckResponse, error) {
	return cast[*deckard.AckResponse](s.do("Nack", "AckRequest", "AckResponse", q))
}
func (s *recorder) Count(_ context.Context, q *deckard.CountRequest) (*deckard.CountResponse, error) {
	return cast[*deckard.CountResponse](s.do("Count", "CountRequest", "CountResponse", q))
}
func (s *recorder) Remove(_ context.Context, q *deckard.RemoveRequest) (*deckard.RemoveResponse, error) {
	return cast[*deckard.RemoveResponse](s.do("Remove", "RemoveRequest", "RemoveResponse", q))
}
func (s *recorder) Flush(_ context.Context, q *deckard.FlushRequest) (*deckard.FlushResponse, error) {
	return cast[*deckard.FlushResponse](s.do("Flush", "FlushRequest", "FlushResponse", q))
}
func (s *recorder) GetById(_ context.Context, q *deckard.GetByIdRequest) (*deckard.GetByIdResponse, error) {
	return cast[*deckard.GetByIdResponse](s.do("GetById", "GetByIdRequest", "GetByIdResponse", q))
}
func (s *recorder) EditQueue(_ context.Context, q *deckard.EditQueueRequest) (*deckard.EditQueueResponse, error) {
	return cast[*deckard.EditQueueResponse](s.do("EditQueue", "EditQueueRequest", "EditQueueResponse", q))
}
func (s *recorder) GetQueue(_ context.Context, q *deckard.GetQueueRequest) (*deckard.GetQueueResponse, error) {
	return cast[*deckard.GetQueueResponse](s.do("GetQueue", "GetQueueRequest", "GetQueueResponse", q))
}

func serve(c *vk.Ctx, srv deckard.DeckardServer, full *[]string, mu *sync.Mutex) (*grpc.ClientConn, func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := grpc.NewServer(grpc.UnaryInterceptor(func(ctx context.Context, req any, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) {
		mu.Lock()
		*full = append(*full, info.FullMethod)
		mu.Unlock()
		return h(ctx, req)
	}))
	deckard.RegisterDeckardServer(s, srv)
	go func() { _ = s.Serve(l) }()
	conn, err := grpc.NewClient(l.Addr().String(), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return conn, func() { _ = conn.Close(); s.Stop() }
}

func runCalls(c *vk.Ctx, r *rand.Rand) {
	var full []string
	var mu sync.Mutex
	rec := &recorder{}
	conn, stop := serve(c, rec, &full, &mu)
	defer stop()
	cl := reflect.ValueOf(deckard.NewDeckardClient(conn))
	bare, stop2 := serve(c, &deckard.UnimplementedDeckardServer{}, &[]string{}, &mu)
	defer stop2()
	bcl := reflect.ValueOf(deckard.NewDeckardClient(bare))
	n := c.N(4000, 60000)
	for i := 0; i < n && !c.Over(); i++ {
		p := rpcs[r.IntN(len(rpcs))]
		qv, av := gen(r, p.req, 0), gen(r, p.resp, 0)
		var fail error
		if r.IntN(5) == 0 {
			fail = status.Error([]codes.Code{codes.Internal, codes.InvalidArgument, codes.NotFound}[r.IntN(3)], "why "+fmt.Sprint(i))
		}
		rec.reply = func(resp string) (proto.Message, error) {
			if fail != nil {
				return nil, fail
			}
			m := newOf[resp]()
			if err := proto.Unmarshal(encode(resp, av), m); err != nil {
				panic(err)
			}
			return m, nil
		}
		req := newOf[p.req]()
		_ = proto.Unmarshal(encode(p.req, qv), req)
		rec.seen, full = nil, nil
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		kase := map[string]any{"rpc": p.name, "request": js(qv), "response": js(av)}
		c.Eval(1)
		viaRaw := r.IntN(3) == 0
		var resp any
		var err error
		if viaRaw { // any other client of the published contract
			out := newOf[p.resp]()
			err = conn.Invoke(ctx, "/blipai.deckard.Deckard/"+p.name, req, out)
			resp = out
		} else {
			o := cl.MethodByName(p.name).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
			err, _ = o[1].Interface().(error)
			resp = o[0].Interface()
		}
		cancel()
		rec.mu.Lock()
		seen := rec.seen
		rec.mu.Unlock()
		mu.Lock()
		fm := append([]string(nil), full...)
		mu.Unlock()
		if len(seen) != 1 || seen[0].method != p.name || !reflect.DeepEqual(seen[0].req, qv) {
			c.Violation("dispatch:"+p.name, kase, "call of %s was seen by the server as %v, want %s(%s)", p.name, seen, p.name, js(qv))
			return
		}
		if len(fm) != 1 || fm[0] != "/blipai.deckard.Deckard/"+p.name {
			c.Violation("method:"+p.name, kase, "call of %s used method %v", p.name, fm)
			return
		}
		if fail != nil {
			if status.Code(err) != status.Code(fail) || status.Convert(err).Message() != status.Convert(fail).Message() {
				c.Violation("error:"+p.name, kase, "%s failed with %v on the server and %v on the client", p.name, fail, err)
				return
			}
		} else if err != nil || !reflect.DeepEqual(tree(p.resp, resp), av) {
			c.Violation("reply:"+p.name, kase, "%s answered %s but the client saw %v (%v)", p.name, js(av), resp, err)
			return
		}
		c.Distinct(p.name + js(qv) + js(av))
		c.Count("calls over a connection", 1)
		if i%40 == 0 {
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			o := bcl.MethodByName(p.name).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
			cancel()
			err, _ := o[1].Interface().(error)
			if status.Code(err) != codes.Unimplemented {
				c.Violation("unimplemented:"+p.name, kase, "%s on a server without it gives %v", p.name, err)
			}
		}
	}
	// direct handlers (no interceptor), in-process registrars use these
	d := deckard.Deckard_ServiceDesc
	if d.ServiceName != "blipai.deckard.Deckard" || len(d.Methods) != len(rpcs) || len(d.Streams) != 0 {
		c.Violation("service", nil, "service is %s with %d methods and %d streams", d.ServiceName, len(d.Methods), len(d.Streams))
	}
	for i := 0; i < c.N(600, 6000) && !c.Violated(); i++ {
		p := rpcs[i%len(rpcs)]
		qv, av := gen(r, p.req, 0), gen(r, p.resp, 0)
		rec.reply = func(resp string) (proto.Message, error) {
			m := newOf[resp]()
			_ = proto.Unmarshal(encode(resp, av), m)
			return m, nil
		}
		for _, m := range d.Methods {
			if m.MethodName != p.name {
				continue
			}
			rec.seen = nil
			out, err := m.Handler(rec, context.Background(), func(x any) error { return proto.Unmarshal(encode(p.req, qv), x.(proto.Message)) }, nil)
			if err != nil || len(rec.seen) != 1 || rec.seen[0].method != p.name || !reflect.DeepEqual(rec.seen[0].req, qv) || !reflect.DeepEqual(tree(p.resp, out), av) {
				c.Violation("handler:"+p.name, js(qv), "handler of %s: saw %v, answered %v (%v)", p.name, rec.seen, out, err)
			}
			c.Eval(1)
			bad := fmt.Errorf("bad wire")
			rec.seen = nil
			if _, err := m.Handler(rec, context.Background(), func(any) error { return bad }, nil); err != bad || len(rec.seen) != 0 {
				c.Violation("handler-error:"+p.name, nil, "handler of %s ran on a request that does not decode (%v)", p.name, err)
			}
		}
	}
	_ = bytes.Equal
}
