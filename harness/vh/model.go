package main

import (
	"encoding/json"
	"math"
	"sort"
	"strconv"

	"google.golang.org/protobuf/types/known/anypb"
)

const maxScore = 9007199254740992.0

// F is a float64 whose JSON form covers infinities and not-a-number.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.FormatFloat(float64(f), 'g', -1, 64))
}
func (f *F) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		var v float64
		if err := json.Unmarshal(b, &v); err != nil {
			return err
		}
		*f = F(v)
		return nil
	}
	v, err := strconv.ParseFloat(s, 64)
	*f = F(v)
	return err
}

// Payload is one typed payload.
type Payload struct {
	Type  string
	Value []byte
}

// Spec is one message of an add request.
type Spec struct {
	ID, Q    string
	Score    F                  `json:",omitempty"`
	TTL      int64              `json:",omitempty"`
	Timeless bool               `json:",omitempty"`
	Desc     string             `json:",omitempty"`
	SP       string             `json:",omitempty"`
	Meta     map[string]string  `json:",omitempty"`
	Pay      map[string]Payload `json:",omitempty"`
}

func (s *Spec) any() map[string]*anypb.Any {
	if s.Pay == nil {
		return nil
	}
	m := map[string]*anypb.Any{}
	for k, v := range s.Pay {
		m[k] = &anypb.Any{TypeUrl: v.Type, Value: append([]byte(nil), v.Value...)}
	}
	return m
}

// Op is one step of a trace.
type Op struct {
	K      string
	Q      string   `json:",omitempty"`
	IDs    []string `json:",omitempty"`
	Msgs   []Spec   `json:",omitempty"`
	N      int32    `json:",omitempty"`
	Min    F        `json:",omitempty"`
	Max    F        `json:",omitempty"`
	Filter int64    `json:",omitempty"`
	DL     int64    `json:",omitempty"`
	Score  F        `json:",omitempty"`
	Sub    F        `json:",omitempty"`
	Lock   int64    `json:",omitempty"`
	Remove bool     `json:",omitempty"`
	Reason string   `json:",omitempty"`
	BP     string   `json:",omitempty"`
	Adv    int64    `json:",omitempty"`
	V      int64    `json:",omitempty"`
	On     int      `json:",omitempty"` // instance that gets the operation; 8 and above: after a restart
	Lag    uint64   `json:",omitempty"` // the first read of this pull misses some messages
	// Faults strike the first attempts of the operation, one list for each attempt.
	Faults [][]Fault `json:",omitempty"`
}

const (
	pNone = iota
	pAvail
	pFlight
	pLockA
	pLockN
)

var poolName = []string{"nowhere", "available", "in flight", "ack-locked", "nack-locked"}

type key struct{ q, id string }

type msg struct {
	key
	Spec
	bp       string
	exp      int64 // ms
	lastUse  int64
	inStore  bool
	pool     int
	prio     float64
	due      int64
	lockSc   float64 // score after unlocking; NaN: default
	stScore  float64 // storage's score
	stKnown  bool    // reported score is the documented one
	acks     int64
	nacks    int64
	cacks    int64
	cnacks   int64
	seq      int64
	susp     map[string]bool
	everGone bool // removed at least once in this trace
}

func (m *msg) suspect(props ...string) {
	if m.susp == nil {
		m.susp = map[string]bool{}
	}
	for _, p := range props {
		m.susp[p] = true
	}
}

// event is an audit entry the trace must produce.
type event struct {
	Sig, Q, ID, Reason string
	Lock               int64
	Sub                float64
	BP                 string
	Optional           bool
	At                 int64
}

type model struct {
	hideExpired bool
	ms          map[key]*msg
	order       []*msg // creation order
	cfg         map[string]int64
	qsusp       map[string]map[string]bool // suspects of a queue's count
	seq         int64
	events      []event
	counters    map[string]int64 // metric{labels} -> value
	recovered   bool             // recovery finished on this cache content
}

func newModel(hide bool) *model {
	return &model{hideExpired: hide, ms: map[key]*msg{}, cfg: map[string]int64{}, qsusp: map[string]map[string]bool{}, counters: map[string]int64{}}
}

func (m *model) get(q, id string) *msg { return m.ms[key{q, id}] }

func (m *model) count(name string, n int64) {
	m.counters[name] += n
}

func (m *model) ev(e event) {
	e.At = vnow()
	m.events = append(m.events, e)
}

func prefixOf(q string) string {
	for i := 0; i+1 < len(q); i++ {
		if q[i] == ':' && q[i+1] == ':' {
			return q[:i]
		}
	}
	return q
}

// expiredHidden: the memory storage does not return it any more.
func (m *model) hidden(x *msg) bool {
	return m.hideExpired && !x.Timeless && x.exp <= vnow()
}

func (m *model) queueMsgs(q string) (out []*msg) {
	for _, x := range m.order {
		if x.q == q && m.ms[x.key] == x {
			out = append(out, x)
		}
	}
	return
}

func (m *model) all() (out []*msg) {
	for _, x := range m.order {
		if m.ms[x.key] == x {
			out = append(out, x)
		}
	}
	return
}

// inPool lists the messages of a queue in a pool, best priority first.
func (m *model) inPool(q string, pool int) (out []*msg) {
	for _, x := range m.queueMsgs(q) {
		if x.pool == pool {
			out = append(out, x)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].prio < out[j].prio })
	return
}

func clamp(s float64) float64 { return math.Max(0, math.Min(s, maxScore)) }

func setScore(f F) bool { return float64(f) != 0 && !math.IsNaN(float64(f)) }

// drop forgets a message that is neither stored nor cached.
func (m *model) drop(x *msg) {
	if !x.inStore && x.pool == pNone {
		delete(m.ms, x.key)
	}
}

const maxTTLMin = int64(math.MaxInt64 / 60_000_000_000)

func expiryMs(now, ttl int64, timeless bool) int64 {
	ttl = max(min(ttl, maxTTLMin), -maxTTLMin)
	e := now + ttl*60000
	if timeless {
		e += 100 * 365 * 86400000 // a little less than the real value; only compared with near instants
	}
	return e
}
