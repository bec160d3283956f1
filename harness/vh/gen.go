package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"
)

// profile says what kind of histories to generate.
type profile struct {
	name   string
	w      map[string]int // op weights
	kinds  []string       // back ends, with repetition as weight
	names  string         // simple, hostile
	scores []string       // score modes to choose from
	locks  int            // percentage of acks and nacks with a lock
	rm     int            // percentage of acks and nacks that remove
	bounds int            // percentage of pulls with bounds
	ttl    int            // percentage of messages with interesting expiry
	update int            // percentage of adds of known ids
	rich   int            // percentage of messages with rich contents
	wire   int            // percentage of traces over a real connection
	steps  int
	queues int
	ids    int
}

var baseWeights = map[string]int{"adv": 12, "add": 22, "pull": 22, "ack": 14, "nack": 12, "remove": 4, "get": 4, "count": 4, "timeout": 5, "unlock": 5, "ttl": 2}

func with(base map[string]int, over map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range base {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

var hostileQueues = []string{
	"q", "q:", "q::", "q::a", "q:tmp", "q:lock_ack", "q:lock_nack", "q:lock_ack:score", ":q", "q:a", "q:a:b", "q*", "q?", "[q]", "*", "?",
	"q a", "Q", "qq", "q\x00", "q.", "q.*", "^q$", "$q", "q$gt", "deckard", "deckard:queue", "queue", "ação", "ac\u0327a\u0303o", "日本", "q\n", "\\q", "q\\*", "a:b", "a", "b:c", "tmp", "lock_ack", "1:q", "3:a:b",
	"a::b::c", "q::lock_ack", "%s", "q'", "q\"", "-1", "0", "*q", "q**", "[a-z]", "q-[a]",
}

var hostileIDs = []string{
	"1", "a", "b", "a:b", "b:c", ":a", "a:", ":", "q:1", "1:q", "*", "?", "[a]", "-1", "0", "+inf", "-inf", "nan", "é", "e\u0301", "日本", "\x00", "a\n", " ", "a ", "A", "%d", "$id", "a.b", "(1", "limit", "LIMIT", "withscores", "a\\", "\"", "null", "true", "1e3", "1.0",
}

// gen draws operations that fit the state of the model.
type gen struct {
	r     *rand.Rand
	p     *profile
	e     *engine
	kind  string
	qs    []string
	ids   []string
	mode  string
	uniq  int64
	scale int64 // typical time step
	total int
	names []string
	last  Op
	// nonEmpty keeps contents to what MongoDB stores without difference.
	nonEmpty bool
	// bulk histories handle hundreds of messages at a time.
	bulk bool
	todo []Op
}

// enlarge makes the history a bulk one.
func (g *gen) enlarge() {
	g.bulk = true
	g.qs = g.qs[:1+g.r.IntN(min(len(g.qs), 2))]
	for i := 0; i < 900; i++ {
		g.ids = append(g.ids, fmt.Sprintf("bulk%d", i))
	}
}

func newGen(r *rand.Rand, p *profile, e *engine, kind string) *gen {
	g := &gen{r: r, p: p, e: e, kind: kind}
	nq := max(p.queues, 1)
	ni := max(p.ids, 2)
	nq = 1 + r.IntN(nq)
	hostile := p.names == "hostile" || p.names == "mixed" && r.IntN(3) == 0
	if hostile {
		// a family of names that collide when glued together
		perm := r.Perm(len(hostileQueues))
		for _, i := range perm {
			if len(g.qs) == max(nq, 2) {
				break
			}
			g.qs = append(g.qs, hostileQueues[i])
		}
		if r.IntN(2) == 0 {
			// pairs that collide under concatenation with the id
			fam := [][2]string{{"a", "b:c"}, {"a:b", "c"}, {"a:b:c", ""}, {"b", "c"}, {"a", "b"}, {"a:b", "c"}}
			g.qs, g.ids = nil, nil
			for _, f := range fam {
				g.qs = appendNew(g.qs, f[0])
				if f[1] != "" {
					g.ids = appendNew(g.ids, f[1])
				}
			}
			r.Shuffle(len(g.qs), func(i, j int) { g.qs[i], g.qs[j] = g.qs[j], g.qs[i] })
			g.qs = g.qs[:2+r.IntN(len(g.qs)-1)]
		} else if r.IntN(3) == 0 {
			b := hostileQueues[r.IntN(len(hostileQueues))]
			g.qs = nil
			for _, s := range []string{b, b + ":tmp", b + ":lock_ack", b + ":lock_nack", b + ":lock_ack:score", b + "*", b + ":", ":" + b, strings.ToUpper(b), b + "::" + b} {
				g.qs = appendNew(g.qs, s)
			}
			r.Shuffle(len(g.qs), func(i, j int) { g.qs[i], g.qs[j] = g.qs[j], g.qs[i] })
			g.qs = g.qs[:2+r.IntN(4)]
		}
		for len(g.ids) < ni {
			g.ids = appendNew(g.ids, hostileIDs[r.IntN(len(hostileIDs))])
			if len(g.ids) >= len(hostileIDs) {
				break
			}
		}
	} else {
		for i := 0; i < nq; i++ {
			n := fmt.Sprintf("q%d", i)
			if r.IntN(3) == 0 {
				n = fmt.Sprintf("p%d::s%d", r.IntN(2), i)
			} else if r.IntN(8) == 0 {
				n = fmt.Sprintf("p%d", i%2) // the prefix alone
			}
			g.qs = append(g.qs, n)
		}
		for i := 0; i < ni; i++ {
			g.ids = append(g.ids, fmt.Sprintf("m%d", i))
		}
	}
	modes := p.scores
	if len(modes) == 0 {
		modes = []string{"small", "unique", "mixed"}
	}
	g.mode = modes[r.IntN(len(modes))]
	g.scale = []int64{1, 10, 1000, 60000, 300000}[r.IntN(5)]
	for _, k := range sortedKeys(p.w) {
		g.total += p.w[k]
		g.names = append(g.names, k)
	}
	return g
}

func appendNew(l []string, s string) []string {
	for _, x := range l {
		if x == s {
			return l
		}
	}
	return append(l, s)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (g *gen) pct(p int) bool { return g.r.IntN(100) < p }
func (g *gen) queue() string  { return g.qs[g.r.IntN(len(g.qs))] }
func (g *gen) id() string     { return g.ids[g.r.IntN(len(g.ids))] }

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func (g *gen) score() F {
	r := g.r
	switch g.mode {
	case "small":
		return F(r.IntN(6))
	case "unique":
		g.uniq++
		return F(float64(g.uniq*7919%1009) + 1 + float64(r.IntN(3))/4)
	case "mixed":
		switch r.IntN(8) {
		case 0:
			return 0
		case 1:
			return F(-r.IntN(100))
		case 2:
			return F(float64(vnow()) + float64(r.IntN(2000)-1000))
		case 3:
			return F(r.Float64() * maxScore * 1.2)
		case 4:
			return F(maxScore - float64(r.IntN(3)))
		default:
			return F(float64(r.IntN(2000)) / 8)
		}
	default: // extreme
		return pick[F](r, 0, F(math.Copysign(0, -1)), F(math.Inf(1)), F(math.Inf(-1)), F(math.NaN()), -1, 1, 0.1, 1e-300, 5e-324, -5e-324, maxScore, maxScore-1, maxScore+2, 1e300, math.MaxFloat64, -math.MaxFloat64, 0.30000000000000004, 2.5, 1e15, F(vnow()), F(vnow())+0.5, 123456789.12345679)
	}
}

func (g *gen) ttl() (int64, bool) {
	r := g.r
	if !g.pct(g.p.ttl) {
		if r.IntN(2) == 0 {
			return 0, true
		}
		return 1000000 + int64(r.IntN(1000)), false
	}
	switch r.IntN(10) {
	case 0:
		return 0, true
	case 1:
		return 5, true
	case 2:
		return 0, false
	case 3:
		return -int64(r.IntN(5)), false
	case 4:
		return pick[int64](r, math.MaxInt64, math.MinInt64, math.MaxInt64/60000, math.MaxInt64/60000000000, 153722868), false
	default:
		return 1 + int64(r.IntN(6)), false
	}
}

func (g *gen) spec() Spec {
	r := g.r
	s := Spec{Q: g.queue(), ID: g.id(), Score: g.score()}
	if g.pct(g.p.update) {
		if all := g.e.m.all(); len(all) > 0 {
			x := all[r.IntN(len(all))]
			s.Q, s.ID = x.q, x.id
		}
	}
	s.TTL, s.Timeless = g.ttl()
	// never empty, as MongoDB keeps what an update leaves empty
	s.SP = fmt.Sprintf("p%d", r.IntN(1000))
	s.Desc = fmt.Sprintf("d%d", r.IntN(1000))
	s.Meta = map[string]string{"k": fmt.Sprint(r.IntN(1000))}
	s.Pay = map[string]Payload{"x": {Type: "type.googleapis.com/google.protobuf.Empty", Value: []byte{}}}
	if g.pct(g.p.rich) {
		g.rich(&s)
	}
	return s
}

func (g *gen) str(utf8 bool) string {
	r := g.r
	n := pick(r, 0, 1, 2, 5, 17, 100)
	if r.IntN(40) == 0 {
		n = 20000
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.IntN(6) {
		case 0:
			b.WriteRune(rune(r.IntN(0x80)))
		case 1:
			b.WriteString(pick(r, "\x00", "\n", "\r\n", "\t", "\"", "\\", "'", "$", ".", "%s", "{}", "<", "&", "\u2028", "\ufeff", "\uffff", "\U0001F600", "e\u0301"))
		case 2:
			b.WriteRune(rune(0x100 + r.IntN(0xd000)))
		default:
			b.WriteByte(byte('a' + r.IntN(26)))
		}
	}
	return b.String()
}

func (g *gen) rich(s *Spec) {
	r := g.r
	s.SP = g.str(true)
	s.Desc = g.str(true)
	s.Meta = map[string]string{}
	for i := r.IntN(5); i > 0; i-- {
		k := g.str(true)
		if r.IntN(2) == 0 {
			k = pick(r, "", "a.b", "$set", "$", "a", "_id", "id", "queue", ".", "a.b.c", "\x00k", "K")
		}
		s.Meta[k] = g.str(true)
	}
	s.Pay = map[string]Payload{}
	for i := r.IntN(4); i > 0; i-- {
		k := pick(r, "a", "b", "", "a.b", "$x", "_id", "k"+fmt.Sprint(r.IntN(5)), "日本")
		v := make([]byte, pick(r, 0, 1, 3, 64, 300))
		for j := range v {
			v[j] = byte(r.IntN(256))
		}
		t := pick(r, "type.googleapis.com/google.protobuf.StringValue", "type.googleapis.com/google.protobuf.Struct", "type.googleapis.com/does.not.Exist", "", "x", "type.googleapis.com/google.protobuf.Any", "\u00e9/a")
		s.Pay[k] = Payload{Type: t, Value: v}
	}
	if !g.e.m.hideExpired || g.nonEmpty {
		// MongoDB: what is left empty is kept, and a NUL cannot be part of a key
		if s.SP == "" {
			s.SP = "x"
		}
		if s.Desc == "" {
			s.Desc = "x"
		}
		for k, v := range s.Meta {
			if strings.ContainsRune(k, 0) {
				delete(s.Meta, k)
				s.Meta[strings.ReplaceAll(k, "\x00", "0")] = v
			}
		}
		if len(s.Meta) == 0 {
			s.Meta["m"] = "x"
		}
		if len(s.Pay) == 0 {
			s.Pay["p"] = Payload{Type: "t", Value: []byte("v")}
		}
	}
}

func (g *gen) lock() int64 {
	r := g.r
	switch r.IntN(12) {
	case 0:
		return 1
	case 1:
		return -int64(r.IntN(1000)) - 1
	case 2:
		return 1000 + int64(r.IntN(3)) - 1
	case 3:
		if r.IntN(6) == 0 {
			return pick[int64](r, math.MaxInt64, math.MaxInt64/2, 1<<53)
		}
		return pick[int64](r, 86400000, 16777217+2*r.Int64N(1<<27), 8*86400000, 45*86400000, 300*86400000)
	default:
		return 1 + r.Int64N(g.scale*4+5)
	}
}

func (g *gen) deadline() int64 {
	r := g.r
	switch r.IntN(10) {
	case 0, 1:
		return 0
	case 2:
		return 1
	case 3:
		return pick[int64](r, 999, 1000, 1001, 299999, 300001, 86400000, 8*86400000, 45*86400000)
	case 4:
		if r.IntN(5) == 0 {
			return pick[int64](r, math.MaxInt64, math.MaxInt64-vnow(), 1<<53, -1, -1, -1000, math.MinInt64)
		}
		return 5000
	default:
		return 1 + r.Int64N(g.scale*4+5)
	}
}

// adv moves time to a point of interest.
func (g *gen) adv() Op {
	r := g.r
	now := vnow()
	var due []int64
	for _, x := range g.e.m.all() {
		if x.pool >= pFlight {
			due = append(due, x.due)
		}
		if x.inStore && !x.Timeless {
			due = append(due, x.exp)
		}
	}
	d := int64(1)
	if len(due) > 0 && r.IntN(4) > 0 {
		sort.Slice(due, func(i, j int) bool { return due[i] < due[j] })
		if r.IntN(2) == 0 { // the next ones
			for len(due) > 1 && due[0] < now {
				due = due[1:]
			}
			if len(due) > 3 {
				due = due[:3]
			}
		}
		d = due[r.IntN(len(due))] - now + int64(r.IntN(3)-1)
		if d > 400*86400000 {
			d = g.scale
		}
	} else {
		d = r.Int64N(g.scale*3 + 2)
	}
	if d <= 0 {
		d = int64(1 + r.IntN(2))
	}
	return Op{K: "adv", Adv: d}
}

func (g *gen) amount() int32 {
	r := g.r
	switch r.IntN(12) {
	case 0:
		return pick[int32](r, 0, -1, math.MinInt32)
	case 1:
		return pick[int32](r, 1000, 1001, 5000, math.MaxInt32)
	case 2, 3, 4, 5:
		return 1
	default:
		return int32(1 + r.IntN(8))
	}
}

// bound picks a limit close to a priority in the model.
func (g *gen) bound(q string) F {
	r := g.r
	av := g.e.m.inPool(q, pAvail)
	if len(av) > 0 && r.IntN(5) > 0 {
		p := av[r.IntN(len(av))].prio
		switch r.IntN(6) {
		case 0:
			return F(p + 1)
		case 1:
			return F(p - 1)
		case 2:
			return F(math.Nextafter(p, math.Inf(1)))
		case 3:
			return F(math.Nextafter(p, math.Inf(-1)))
		default:
			return F(p)
		}
	}
	return pick[F](r, F(math.Inf(1)), F(math.Inf(-1)), -5, maxScore, maxScore*4, 1, 3, 0.5, F(vnow()), F(math.NaN()), 5e-324, F(math.Copysign(0, -1)))
}

func (g *gen) op() Op {
	r := g.r
	if len(g.todo) > 0 {
		op := g.todo[0]
		g.todo = g.todo[1:]
		return op
	}
	for {
		n := r.IntN(g.total)
		k := ""
		for _, name := range g.names {
			if n < g.p.w[name] {
				k = name
				break
			}
			n -= g.p.w[name]
		}
		all := g.e.m.all()
		switch k {
		case "adv":
			return g.adv()
		case "add":
			op := Op{K: "add"}
			n := 1
			switch r.IntN(8) {
			case 0, 1:
				n = 1 + r.IntN(6)
			case 2:
				n = 1 + r.IntN(20)
			case 3:
				if r.IntN(8) == 0 {
					n = 0
				}
			}
			if g.bulk && r.IntN(2) == 0 {
				n = 90 + r.IntN(400)
			}
			if len(g.last.Msgs) > 0 && r.IntN(10) == 0 {
				return g.last // the same again, possibly in the same millisecond
			}
			for i := 0; i < n; i++ {
				s := g.spec()
				if r.IntN(40+n*n/4) == 0 {
					if r.IntN(2) == 0 {
						s.ID = ""
					} else {
						s.Q = pick(r, "", "", "q{0}", "{q0", "q}")
						if g.kind[0] == 'm' {
							s.Q = ""
						}
					}
				}
				op.Msgs = append(op.Msgs, s)
			}
			g.last = op
			return op
		case "pull":
			op := Op{K: "pull", Q: g.queue(), N: g.amount(), DL: g.deadline()}
			if g.bulk && r.IntN(3) > 0 {
				op.N = int32(90 + r.IntN(900))
			}
			if r.IntN(12) == 0 {
				op.Lag = r.Uint64() | 1
			}
			if r.IntN(3) > 0 && len(all) > 0 {
				op.Q = all[r.IntN(len(all))].q
			}
			if g.pct(g.p.bounds) {
				switch r.IntN(4) {
				case 0:
					op.Min = g.bound(op.Q)
				case 1:
					op.Max = g.bound(op.Q)
				case 2:
					op.Min, op.Max = g.bound(op.Q), g.bound(op.Q)
				case 3:
					op.Filter = pick[int64](r, 1, 1000, 60000, vnow()-1, vnow(), vnow()+5, -5, r.Int64N(g.scale+1)+1, 1<<40)
					if r.IntN(4) == 0 {
						op.Max = g.bound(op.Q)
					}
					if r.IntN(4) == 0 {
						op.Min = g.bound(op.Q)
					}
				}
			}
			return op
		case "ack", "nack":
			op := Op{K: k, Q: g.queue(), IDs: []string{g.id()}}
			if g.bulk && r.IntN(3) > 0 {
				// a crowd of the same kind
				lock := int64(0)
				if r.IntN(3) > 0 {
					lock = g.lock()
				}
				n := 100 + r.IntN(150)
				for _, x := range all {
					if x.pool == pFlight && len(g.todo) < n {
						g.todo = append(g.todo, Op{K: k, Q: x.q, IDs: []string{x.id}, Lock: lock, Score: op.Score, Reason: "bulk"})
					}
				}
			}
			if len(all) > 0 && r.IntN(10) > 0 {
				x := all[r.IntN(len(all))]
				if r.IntN(5) > 0 {
					var fl []*msg
					for _, y := range all {
						if y.pool == pFlight {
							fl = append(fl, y)
						}
					}
					if len(fl) > 0 {
						x = fl[r.IntN(len(fl))]
					}
				}
				op.Q, op.IDs = x.q, []string{x.id}
			}
			if r.IntN(60) == 0 {
				op.IDs[0] = ""
			}
			if r.IntN(3) == 0 {
				op.Score = g.score()
			}
			if r.IntN(3) == 0 {
				op.Sub = pick[F](r, 1, 1000, -1000, 1e300, -1e300, F(vnow()), F(vnow())+1, 0.5, F(r.IntN(100000)), F(math.Inf(1)), F(math.Inf(-1)), F(math.NaN()))
			}
			if g.pct(g.p.locks) {
				op.Lock = g.lock()
			}
			op.Remove = g.pct(g.p.rm)
			if r.IntN(2) == 0 {
				op.Reason = pick(r, "ok", "done", "erro", "x y", "")
				op.BP = g.str(true)
				if len(op.BP) > 200 {
					op.BP = "bp"
				}
			}
			return op
		case "remove":
			op := Op{K: "remove", Q: g.queue()}
			for i := r.IntN(4); i >= 0; i-- {
				if len(all) > 0 && r.IntN(5) > 0 {
					x := all[r.IntN(len(all))]
					if i == 0 || r.IntN(3) > 0 {
						op.Q = x.q
					}
					op.IDs = append(op.IDs, x.id)
				} else {
					op.IDs = append(op.IDs, g.id())
				}
			}
			if r.IntN(4) == 0 {
				op.IDs = append(op.IDs, op.IDs[0])
			}
			if g.bulk {
				for i := r.IntN(350); i > 0; i-- {
					op.IDs = append(op.IDs, g.id())
				}
			}
			return op
		case "get":
			op := Op{K: "get", Q: g.queue(), IDs: []string{g.id()}}
			if len(all) > 0 && r.IntN(4) > 0 {
				x := all[r.IntN(len(all))]
				op.Q, op.IDs[0] = x.q, x.id
				if r.IntN(6) == 0 {
					op.Q = g.queue()
				}
			}
			return op
		case "count":
			return Op{K: "count", Q: g.queue()}
		case "edit":
			v := int64(1 + r.IntN(6))
			if g.bulk {
				v *= 40
			}
			switch r.IntN(8) {
			case 0:
				v = 0
			case 1:
				v = -1
			case 2:
				v = pick[int64](r, math.MinInt64, math.MaxInt64, -5, math.MinInt64+1)
			}
			return Op{K: "edit", Q: g.queue(), V: v}
		case "getq":
			return Op{K: "getq", Q: g.queue()}
		default:
			return Op{K: k}
		}
	}
}
