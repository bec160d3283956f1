package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// mismatch is one observation that contradicts the model.
type mismatch struct {
	props map[string]bool
	key   string
	text  string
}

func mm(key string, susp map[string]bool, props []string, f string, a ...any) *mismatch {
	p := map[string]bool{}
	for _, x := range props {
		p[x] = true
	}
	for k, v := range susp {
		if v {
			p[k] = true
		}
	}
	return &mismatch{props: p, key: key, text: fmt.Sprintf(f, a...)}
}

type engine struct {
	t0    time.Time // real start of the last metrics task
	w     *world
	m     *model
	step  int
	kinds map[string]int64 // what the monitors actually decided
	sig   []byte
	log   []string
	keep  bool // keep a textual log
	fx    *fx  // injected failures, if any
	inner api
}

func newEngine(w *world) *engine {
	return &engine{w: w, m: newModel(w.memStorage()), kinds: map[string]int64{}}
}

func (e *engine) obs(k string, n int64) { e.kinds[k] += n }

func pctx() context.Context { return context.Background() }

// suspectOthers marks every message (and queue count) an operation must not have touched.
func (e *engine) suspectOthers(q string, ids map[string]bool, props ...string) {
	for _, x := range e.m.ms {
		if x.q == q && ids != nil && ids[x.id] {
			continue
		}
		x.suspect(props...)
		x.suspect("C11")
	}
	for qq := range e.m.qsusp {
		for _, p := range props {
			e.m.qsusp[qq][p] = true
		}
		e.m.qsusp[qq]["C11"] = true
	}
}

func (e *engine) qs(q string, props ...string) map[string]bool {
	s := e.m.qsusp[q]
	if s == nil {
		s = map[string]bool{}
		e.m.qsusp[q] = s
	}
	for _, p := range props {
		s[p] = true
	}
	return s
}

func propsOfAck(kind string, lock int64, remove bool) []string {
	p := []string{"C07", "C10"}
	if lock > 0 {
		p = append(p, "C06")
	}
	if remove {
		p = append(p, "C12")
	}
	return p
}

// do executes one op on the real code and compares the answer with the model.
func (e *engine) do(op *Op) *mismatch {
	e.step++
	if e.keep {
		e.log = append(e.log, fmt.Sprintf("%d %+v", e.step, *op))
	}
	var r *mismatch
	if e.fx != nil {
		if op.K == "pull" {
			e.w.lag.Store(op.Lag)
		}
		r = e.before(op)
		e.w.lag.Store(0)
		if r != nil {
			r.text = fmt.Sprintf("step %d (%s) at %d: %s", e.step, op.K, vnow(), r.text)
			return r
		}
	}
	switch op.K {
	case "pulled":
	case "adv":
		clockMs.Add(op.Adv)
	case "add":
		r = e.add(op)
	case "pull":
		e.w.lag.Store(op.Lag)
		r = e.pull(op)
		e.w.lag.Store(0)
	case "ack", "nack":
		r = e.ack(op)
	case "remove":
		r = e.remove(op)
	case "get":
		r = e.getByID(op)
	case "count":
		r = e.count(op)
	case "edit":
		r = e.edit(op)
	case "getq":
		r = e.getq(op)
	case "timeout":
		r = e.timeout()
	case "unlock":
		r = e.unlock()
	case "ttl":
		r = e.ttl()
	case "exceed":
		r = e.exceed()
	case "wipe":
		e.wipe()
	case "recover":
		r = e.recover()
	case "flush":
		r = e.flush()
	case "metrics":
		e.t0 = time.Now()
		queue.ComputeMetrics(pctx(), e.w.q)
	default:
		panic("unknown op " + op.K)
	}
	if r != nil {
		r.text = fmt.Sprintf("step %d (%s) at %d: %s", e.step, op.K, vnow(), r.text)
	}
	return r
}

func (e *engine) add(op *Op) *mismatch {
	req := &deckard.AddRequest{}
	bad := false
	for i := range op.Msgs {
		s := &op.Msgs[i]
		req.Messages = append(req.Messages, &deckard.AddMessage{Id: s.ID, Queue: s.Q, Score: float64(s.Score), TtlMinutes: s.TTL, Timeless: s.Timeless,
			Description: s.Desc, StringPayload: s.SP, Metadata: copyMeta(s.Meta), Payload: s.any()})
		if s.ID == "" || s.Q == "" || e.w.kind[0] != 'm' && strings.ContainsAny(s.Q, "{}") {
			bad = true
		}
	}
	now := vnow()
	resp, err := e.w.api.Add(pctx(), req)
	props := []string{"C08"}
	touched := map[string]map[string]bool{}
	for i := range op.Msgs {
		s := &op.Msgs[i]
		if touched[s.Q] == nil {
			touched[s.Q] = map[string]bool{}
		}
		touched[s.Q][s.ID] = true
	}
	for _, x := range e.m.ms {
		if !touched[x.q][x.id] {
			x.suspect("C08", "C11")
		}
	}
	if bad {
		e.obs("rejected adds", 1)
		if err == nil {
			return mm("add-accepted", nil, []string{"C08"}, "a batch with a message that is not acceptable was accepted: %v", op.Msgs)
		}
		for i := range op.Msgs {
			s := &op.Msgs[i]
			e.qs(s.Q, "C08")
			if x := e.m.get(s.Q, s.ID); x != nil {
				x.suspect("C08")
			}
		}
		return nil
	}
	if err != nil {
		return mm("add-error", nil, []string{"C08", "C04"}, "add failed: %v", err)
	}
	created, updated := int64(0), int64(0)
	susp := map[string]bool{}
	last := map[key]float64{}
	for i := range op.Msgs {
		s := &op.Msgs[i]
		sc := clamp(float64(s.Score))
		if !setScore(s.Score) {
			sc = float64(now)
		}
		last[key{s.Q, s.ID}] = sc
	}
	for i := range op.Msgs {
		s := op.Msgs[i]
		k := key{s.Q, s.ID}
		sc := clamp(float64(s.Score))
		if !setScore(s.Score) {
			sc = float64(now)
		}
		x := e.m.ms[k]
		for p := range e.qs(s.Q) {
			susp[p] = true
		}
		if x == nil {
			x = &msg{key: k, prio: sc}
			e.m.ms[k] = x
			e.m.order = append(e.m.order, x)
		} else {
			for p := range x.susp {
				susp[p] = true
			}
			if x.everGone {
				susp["C12"] = true
			}
		}
		if !x.inStore {
			created++
			e.m.seq++
			gone := x.everGone
			*x = msg{key: k, Spec: s, pool: x.pool, prio: x.prio, due: x.due, lockSc: x.lockSc, inStore: true, stScore: sc, stKnown: true, seq: e.m.seq, lastUse: now, susp: x.susp, everGone: gone}
			if gone {
				x.suspect("C12")
			}
		} else {
			updated++
			old := x.Spec
			x.Spec = s
			if !e.m.hideExpired { // MongoDB keeps what an update leaves out
				keepOld(&x.Spec, &old)
			}
		}
		x.exp = expiryMs(now, s.TTL, s.Timeless)
		x.suspect(props...)
		x.suspect("C13", "C09")
		e.qs(s.Q, "C08")
	}
	fresh := map[key]bool{}
	for i := range op.Msgs {
		k := key{op.Msgs[i].Q, op.Msgs[i].ID}
		x := e.m.ms[k]
		if sc, ok := last[k]; ok && x.pool == pNone {
			x.pool, x.prio = pAvail, sc
			if x.stScore != sc {
				x.stKnown = false // repeated id in one batch
			}
			delete(last, k)
			e.m.ev(event{Sig: "INSERT_CACHE", Q: k.q, ID: k.id})
			fresh[k] = true
		} else if fresh[k] { // an id repeated in one batch may be audited once for each occurrence
			e.m.ev(event{Sig: "INSERT_CACHE", Q: k.q, ID: k.id, Optional: true})
		}
	}
	e.obs("adds compared", 1)
	if e.unsure() && resp.CreatedCount+resp.UpdatedCount == created+updated && resp.CreatedCount <= created {
		return nil
	}
	if resp.CreatedCount != created || resp.UpdatedCount != updated {
		return mm("add-counts", susp, props, "add of %v answered created=%d updated=%d, want %d and %d", names(op.Msgs), resp.CreatedCount, resp.UpdatedCount, created, updated)
	}
	return nil
}

func keepOld(s, old *Spec) {
	if s.Desc == "" {
		s.Desc = old.Desc
	}
	if s.SP == "" {
		s.SP = old.SP
	}
	if s.Meta == nil {
		s.Meta = old.Meta
	}
	if s.Pay == nil {
		s.Pay = old.Pay
	}
}

func names(ms []Spec) (out []string) {
	for i := range ms {
		out = append(out, fmt.Sprintf("%q/%q", ms[i].Q, ms[i].ID))
		if len(out) > 8 {
			return append(out, "...")
		}
	}
	return
}

func copyMeta(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	o := map[string]string{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func sameMeta(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func samePay(a map[string]Payload, b map[string]*anypb.Any) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || w == nil || w.TypeUrl != v.Type || string(w.Value) != string(v.Value) {
			return false
		}
	}
	return true
}

// bounds gives the documented meaning of a pull's limits.
func bounds(op *Op, now int64) (lo, hi float64, hasLo, hasHi bool) {
	mx := float64(op.Max)
	if mx == 0 && op.Filter > 0 {
		mx = float64(now - op.Filter)
	}
	if mx != 0 && !math.IsNaN(mx) {
		hi, hasHi = clamp(mx), true
	}
	if op.Min != 0 && !math.IsNaN(float64(op.Min)) {
		lo, hasLo = clamp(float64(op.Min)), true
	}
	return
}

func amountOf(n int32) int {
	if n <= 0 {
		return 1
	}
	return min(int(n), 1000)
}

// pullAmbiguous: an expired message ties at the cut, so which one is dropped is open.
func (e *engine) pullAmbiguous(op *Op) bool {
	cand := e.candidates(op)
	n := amountOf(op.N)
	any := false
	for _, x := range cand {
		if e.m.hidden(x) || !x.inStore {
			any = true
		}
	}
	if !any || len(cand) <= n || cand[n-1].prio != cand[n].prio {
		return false
	}
	for _, x := range cand {
		if x.prio == cand[n].prio && (e.m.hidden(x) || !x.inStore) {
			return true
		}
	}
	return false
}

func (e *engine) candidates(op *Op) (cand []*msg) {
	lo, hi, hasLo, hasHi := bounds(op, vnow())
	for _, x := range e.m.inPool(op.Q, pAvail) {
		if hasLo && x.prio < lo || hasHi && x.prio > hi {
			continue
		}
		cand = append(cand, x)
	}
	return
}

func (e *engine) pull(op *Op) *mismatch {
	if e.pullAmbiguous(op) {
		return nil
	}
	now := vnow()
	lo, hi, hasLo, hasHi := bounds(op, now)
	inB := func(x *msg) bool { return !(hasLo && x.prio < lo || hasHi && x.prio > hi) }
	bprop := []string{}
	if hasLo || hasHi {
		bprop = []string{"C02"}
	}
	n := amountOf(op.N)
	cand := e.candidates(op)
	take := cand[:min(n, len(cand))]
	var want []*msg
	var expired []*msg
	for _, x := range take {
		if e.m.hidden(x) || !x.inStore {
			expired = append(expired, x)
		} else {
			want = append(want, x)
		}
	}
	resp, err := e.w.api.Pull(pctx(), &deckard.PullRequest{Queue: op.Q, Amount: op.N, MinScore: float64(op.Min), MaxScore: float64(op.Max), ScoreFilter: op.Filter, AckDeadlineMs: op.DL})
	if err != nil {
		return mm("pull-error", nil, append([]string{"C01", "C04"}, bprop...), "pull of %d from %q failed: %v", op.N, op.Q, err)
	}
	dl := min(max(op.DL, -1), 1<<53)
	if dl == 0 {
		dl = 300000
	}
	e.obs("pulls compared", 1)
	e.obs("deliveries compared", int64(len(resp.Messages)))
	if len(want) == 0 {
		e.obs("empty pulls compared", 1)
	}
	got := map[key]*msg{}
	for _, r := range resp.Messages {
		if r == nil {
			return mm("nil-message", nil, []string{"C01", "C09"}, "pull returned a nil message")
		}
		k := key{r.Queue, r.Id}
		x := e.m.ms[k]
		if r.Queue != op.Q {
			return mm("wrong-queue", nil, []string{"C11", "C09"}, "pull from %q returned a message of queue %q (id %q)", op.Q, r.Queue, r.Id)
		}
		if x == nil || !x.inStore && x.pool == pNone {
			p := []string{"C11", "C12", "C04"}
			for _, y := range e.m.order {
				if y.key == k {
					for s := range y.susp {
						p = append(p, s)
					}
				}
			}
			return mm("unknown", nil, p, "pull from %q returned %q, which does not exist", op.Q, r.Id)
		}
		if got[k] != nil {
			return mm("twice", nil, []string{"C03", "C04", "C01"}, "one pull returned %q of %q twice", r.Id, r.Queue)
		}
		switch {
		case x.pool == pFlight:
			return mm("in-flight", x.susp, []string{"C03", "C04"}, "%q of %q was delivered although it is in flight until %d", x.id, x.q, x.due)
		case x.pool == pLockA || x.pool == pLockN:
			return mm("locked", x.susp, []string{"C06"}, "%q of %q was delivered although it is %s until %d", x.id, x.q, poolName[x.pool], x.due)
		case e.m.hidden(x):
			return mm("expired", x.susp, []string{"C13"}, "%q of %q was delivered although it expired at %d", x.id, x.q, x.exp)
		case x.pool != pAvail:
			return mm("not-cached", x.susp, []string{"C04"}, "%q of %q was delivered although it is %s", x.id, x.q, poolName[x.pool])
		case !inB(x):
			return mm("out-of-bounds", x.susp, []string{"C02"}, "%q of %q has priority %v, outside [%v,%v] (given: %v,%v)", x.id, x.q, x.prio, lo, hi, hasLo, hasHi)
		}
		got[k] = x
	}
	// exactly the best ones
	var gs []float64
	for _, x := range got {
		gs = append(gs, x.prio)
	}
	sort.Float64s(gs)
	ws := make([]float64, len(want))
	for i, x := range want {
		ws[i] = x.prio
	}
	sort.Float64s(ws)
	differ := len(gs) != len(ws)
	for i := 0; !differ && i < len(gs); i++ {
		differ = gs[i] != ws[i]
	}
	if differ {
		susp := map[string]bool{}
		var miss, extra []string
		for _, x := range want {
			if got[x.key] == nil {
				miss = append(miss, fmt.Sprintf("%q(%v)", x.id, x.prio))
				for s := range x.susp {
					susp[s] = true
				}
			}
		}
		inWant := map[key]bool{}
		for _, x := range want {
			inWant[x.key] = true
		}
		for k, x := range got {
			if !inWant[k] {
				extra = append(extra, fmt.Sprintf("%q(%v)", x.id, x.prio))
				for s := range x.susp {
					susp[s] = true
				}
			}
		}
		props := append([]string{"C01"}, bprop...)
		if len(gs) < len(ws) {
			props = append(props, "C04")
		}
		if len(miss) > 8 {
			miss = append(miss[:8], "...")
		}
		return mm("selection", susp, props, "pull of %d from %q (bounds %v..%v) returned %d messages, want %d: missing %v, instead %v", op.N, op.Q, op.Min, op.Max, len(gs), len(ws), miss, extra)
	}
	// order and contents
	for i, r := range resp.Messages {
		x := got[key{r.Queue, r.Id}]
		if i > 0 && resp.Messages[i-1].Score > r.Score {
			return mm("order", nil, []string{"C01"}, "pull from %q returned %q (score %v) after %q (score %v)", op.Q, r.Id, r.Score, resp.Messages[i-1].Id, resp.Messages[i-1].Score)
		}
		if x.stKnown && r.Score != x.stScore {
			return mm("reported-score", x.susp, []string{"C01", "C07", "C08"}, "%q of %q is reported with score %v, want %v", x.id, x.q, r.Score, x.stScore)
		}
		if bad := e.content(x, r, false); bad != "" {
			return mm("content", x.susp, []string{"C09", "C08"}, "pull of %q from %q: %s", x.id, x.q, bad)
		}
		d := r.Diagnostics
		if d == nil {
			d = &deckard.MessageDiagnostics{}
		}
		if d.Acks != x.acks || d.Nacks != x.nacks || d.ConsecutiveAcks != x.cacks || d.ConsecutiveNacks != x.cnacks {
			return mm("diagnostics", x.susp, []string{"C10"}, "%q of %q has diagnostics acks=%d nacks=%d consecutive=%d/%d, want %d %d %d/%d", x.id, x.q, d.Acks, d.Nacks, d.ConsecutiveAcks, d.ConsecutiveNacks, x.acks, x.nacks, x.cacks, x.cnacks)
		}
	}
	for _, x := range got {
		x.pool, x.due = pFlight, now+dl
		x.susp = nil
		x.suspect("C03", "C05")
	}
	for _, x := range expired {
		x.pool = pNone
		e.m.ev(event{Sig: "MISSING_STORAGE", Q: x.q, ID: x.id})
		e.m.drop(x)
	}
	pf := prefixOf(op.Q)
	if len(take) == 0 {
		e.m.count("deckard_messages_empty_queue{queue="+pf+"}", 1)
	} else {
		if len(expired) > 0 {
			e.m.count("deckard_messages_not_found_in_storage{queue="+pf+"}", int64(len(expired)))
		}
		if len(want) == 0 {
			e.m.count("deckard_messages_empty_queue_not_found_storage{queue="+pf+"}", 1)
		}
	}
	return nil
}

func (e *engine) content(x *msg, r *deckard.Message, lookup bool) string {
	switch {
	case r.Id != x.id || r.Queue != x.q:
		return fmt.Sprintf("identity %q/%q", r.Queue, r.Id)
	case r.StringPayload != x.SP:
		return fmt.Sprintf("string payload %.80q, want %.80q", r.StringPayload, x.SP)
	case !sameMeta(x.Meta, r.Metadata):
		return fmt.Sprintf("metadata %.200q, want %.200q", r.Metadata, x.Meta)
	case !samePay(x.Pay, r.Payload):
		return fmt.Sprintf("payload %.200v, want %.200v", r.Payload, x.Pay)
	case r.Breakpoint != x.bp:
		return fmt.Sprintf("breakpoint %.80q, want %.80q", r.Breakpoint, x.bp)
	case lookup && r.Description != x.Desc:
		return fmt.Sprintf("description %.80q, want %.80q", r.Description, x.Desc)
	}
	e.obs("contents compared", 1)
	return ""
}

func (e *engine) ack(op *Op) *mismatch {
	id := op.IDs[0]
	now := vnow()
	req := &deckard.AckRequest{Id: id, Queue: op.Q, Score: float64(op.Score), ScoreSubtract: float64(op.Sub), LockMs: op.Lock, RemoveMessage: op.Remove, Reason: op.Reason, Breakpoint: op.BP}
	var resp *deckard.AckResponse
	var err error
	sig := "ACK"
	if op.K == "ack" {
		resp, err = e.w.api.Ack(pctx(), req)
	} else {
		sig = "NACK"
		resp, err = e.w.api.Nack(pctx(), req)
	}
	props := propsOfAck(op.K, op.Lock, op.Remove)
	e.suspectOthers(op.Q, map[string]bool{id: true}, props...)
	if id == "" || op.Q == "" {
		if err == nil {
			return mm("ack-accepted", nil, []string{"C07", "C18"}, "%s without id or queue was accepted", op.K)
		}
		return nil
	}
	x := e.m.get(op.Q, id)
	susp := map[string]bool{}
	if x != nil {
		for s := range x.susp {
			susp[s] = true
		}
	} else {
		susp["C11"], susp["C12"] = true, true
	}
	if err != nil {
		return mm("ack-error", susp, props, "%s of %q in %q failed: %v", op.K, id, op.Q, err)
	}
	pf := prefixOf(op.Q)
	sub := float64(op.Sub)
	if math.IsNaN(sub) || math.IsInf(sub, 0) {
		sub = 0
	}
	lock := op.Lock
	lock = min(max(lock, 0), 1<<53)
	e.m.ev(event{Sig: sig, Q: op.Q, ID: id, Reason: op.Reason, Lock: lock, Sub: sub, BP: op.BP})
	e.m.count(fmt.Sprintf("deckard_%s{queue=%s,reason=%s}", op.K, pf, op.Reason), 1)
	was := x != nil && x.pool == pFlight
	newScore := math.NaN()
	if setScore(op.Score) {
		newScore = clamp(float64(op.Score))
	} else if op.Lock <= 0 {
		if op.K == "ack" {
			newScore = float64(now)
			if setScore(op.Sub) {
				newScore = clamp(float64(now) - float64(op.Sub))
			}
		} else {
			newScore = 0
		}
	}
	if x != nil {
		if x.inStore {
			if op.K == "ack" {
				x.acks++
				x.cacks++
				x.cnacks = 0
				x.bp = op.BP
				x.lastUse = now
			} else {
				x.nacks++
				x.cnacks++
				x.cacks = 0
			}
			if math.IsNaN(newScore) {
				x.stScore, x.stKnown = -1, false
			} else {
				x.stScore, x.stKnown = newScore, true
			}
			if !was {
				x.stKnown = false
			}
		}
		if was {
			if op.Lock > 0 {
				x.pool, x.due, x.lockSc = pLockA, now+min(op.Lock, 1<<53), newScore
				if op.K == "nack" {
					x.pool = pLockN
				}
			} else {
				x.pool, x.prio = pAvail, newScore
			}
			x.susp = nil
		}
		x.suspect(props...)
		x.suspect("C09")
	}
	e.obs("acks compared", 1)
	if was {
		e.obs("acks of in-flight messages", 1)
	}
	if op.Remove {
		st, ca := e.modelRemove(op.Q, []string{id}, "REQUEST")
		if !resp.Success {
			return mm("ack-remove", susp, props, "%s with removal of %q in %q answered failure", op.K, id, op.Q)
		}
		rr := resp.RemovalResponse
		if rr != nil && e.unsure() && rr.StorageRemoved <= st && rr.CacheRemoved <= ca {
			return nil
		}
		if rr == nil || rr.StorageRemoved != st || rr.CacheRemoved != ca {
			return mm("ack-remove-counts", susp, props, "%s with removal of %q in %q answered %v, want storage=%d cache=%d", op.K, id, op.Q, rr, st, ca)
		}
		return nil
	}
	if e.unsure() {
		if m := e.ackedTwice(x); m != nil {
			return m
		}
		if was && !resp.Success {
			return nil
		}
	}
	if resp.Success != was {
		return mm("ack-success", susp, append(props, "C03", "C05"), "%s of %q in %q answered success=%v, but in flight was %v", op.K, id, op.Q, resp.Success, was)
	}
	return nil
}

func (e *engine) modelRemove(q string, ids []string, reason string) (st, ca int64) {
	seen := map[string]bool{}
	for _, id := range ids {
		x := e.m.get(q, id)
		e.m.ev(event{Sig: "REMOVE", Q: q, ID: id, Reason: reason, Optional: seen[id] || x == nil})
		if seen[id] || x == nil {
			seen[id] = true
			continue
		}
		seen[id] = true
		if x.inStore {
			st++
		}
		if x.pool != pNone {
			ca++
		}
		x.inStore, x.pool, x.everGone = false, pNone, true
		p := "C12"
		switch reason {
		case "TTL":
			p = "C13"
		case "MAX_ELEMENTS":
			p = "C14"
		}
		x.susp = map[string]bool{p: true, "C12": true}
		delete(e.m.ms, x.key)
	}
	return
}

func idSet(ids []string) map[string]bool {
	s := map[string]bool{}
	for _, i := range ids {
		s[i] = true
	}
	return s
}

func (e *engine) remove(op *Op) *mismatch {
	resp, err := e.w.api.Remove(pctx(), &deckard.RemoveRequest{Queue: op.Q, Ids: append([]string(nil), op.IDs...)})
	e.suspectOthers(op.Q, idSet(op.IDs), "C12")
	e.qs(op.Q, "C12")
	susp := map[string]bool{}
	for _, id := range op.IDs {
		if x := e.m.get(op.Q, id); x != nil {
			for s := range x.susp {
				susp[s] = true
			}
		}
	}
	if err != nil {
		return mm("remove-error", susp, []string{"C12"}, "remove of %q from %q failed: %v", op.IDs, op.Q, err)
	}
	st, ca := e.modelRemove(op.Q, op.IDs, "REQUEST")
	e.obs("removals compared", 1)
	if e.unsure() && resp.StorageRemoved <= st && resp.CacheRemoved <= ca {
		return nil
	}
	if resp.StorageRemoved != st || resp.CacheRemoved != ca {
		return mm("remove-counts", susp, []string{"C12"}, "remove of %q from %q answered storage=%d cache=%d, want %d and %d", op.IDs, op.Q, resp.StorageRemoved, resp.CacheRemoved, st, ca)
	}
	return nil
}

func (e *engine) getByID(op *Op) *mismatch {
	id := op.IDs[0]
	resp, err := e.w.api.GetById(pctx(), &deckard.GetByIdRequest{Id: id, Queue: op.Q})
	if id == "" || op.Q == "" {
		if err == nil {
			return mm("get-accepted", nil, []string{"C09"}, "lookup without id or queue was accepted")
		}
		return nil
	}
	susp := map[string]bool{"C11": true, "C12": true}
	x := e.m.get(op.Q, id)
	if x != nil {
		susp = x.susp
	}
	if err != nil {
		return mm("get-error", susp, []string{"C09"}, "lookup of %q in %q failed: %v", id, op.Q, err)
	}
	want := x != nil && x.inStore && !e.m.hidden(x)
	e.obs("lookups compared", 1)
	if resp.Found != want || want && resp.Message == nil {
		props := []string{"C09"}
		if !want && x != nil {
			props = append(props, "C13")
		}
		if !resp.Found {
			props = append(props, "C04")
		}
		return mm("get-found", susp, props, "lookup of %q in %q answered found=%v, want %v", id, op.Q, resp.Found, want)
	}
	if !want {
		return nil
	}
	if bad := e.content(x, resp.Message, true); bad != "" {
		return mm("get-content", susp, []string{"C09", "C08"}, "lookup of %q in %q: %s", id, op.Q, bad)
	}
	if x.stKnown && resp.Message.Score != x.stScore {
		return mm("get-score", susp, []string{"C07", "C08"}, "lookup of %q in %q reports score %v, want %v", id, op.Q, resp.Message.Score, x.stScore)
	}
	if len(resp.HumanReadablePayload) != len(x.Pay) {
		return mm("get-human", susp, []string{"C09"}, "lookup of %q in %q has %d readable payloads, want %d", id, op.Q, len(resp.HumanReadablePayload), len(x.Pay))
	}
	return nil
}

func (e *engine) count(op *Op) *mismatch {
	if op.Q == "" {
		return nil
	}
	resp, err := e.w.api.Count(pctx(), &deckard.CountRequest{Queue: op.Q})
	susp := e.qs(op.Q)
	if err != nil {
		return mm("count-error", susp, []string{"C04"}, "count of %q failed: %v", op.Q, err)
	}
	live, expired := int64(0), int64(0)
	for _, x := range e.m.queueMsgs(op.Q) {
		if x.inStore && e.m.hidden(x) {
			expired++
		} else if x.inStore {
			live++
		}
	}
	e.obs("counts compared", 1)
	if resp.Count < live || resp.Count > live+expired {
		return mm("count", susp, []string{"C04", "C11"}, "count of %q is %d, want %d (and %d expired)", op.Q, resp.Count, live, expired)
	}
	e.m.qsusp[op.Q] = map[string]bool{}
	return nil
}

func (e *engine) edit(op *Op) *mismatch {
	req := &deckard.EditQueueRequest{Queue: op.Q}
	if op.V != math.MinInt64 {
		req.Configuration = &deckard.QueueConfiguration{MaxElements: op.V}
	}
	resp, err := e.w.api.EditQueue(pctx(), req)
	if err != nil {
		return mm("edit-error", nil, []string{"C15"}, "edit of %q to %d failed: %v", op.Q, op.V, err)
	}
	if resp.Queue != op.Q || resp.Success != (req.Configuration != nil) {
		return mm("edit-answer", nil, []string{"C15"}, "edit of %q to %d answered %v", op.Q, op.V, resp)
	}
	if req.Configuration != nil && op.V != 0 {
		e.m.cfg[op.Q] = max(op.V, 0)
	}
	e.obs("edits compared", 1)
	return nil
}

func (e *engine) getq(op *Op) *mismatch {
	resp, err := e.w.api.GetQueue(pctx(), &deckard.GetQueueRequest{Queue: op.Q})
	if err != nil {
		return mm("getq-error", nil, []string{"C15"}, "reading configuration of %q failed: %v", op.Q, err)
	}
	if resp.Queue != op.Q || resp.GetConfiguration().GetMaxElements() != e.m.cfg[op.Q] {
		return mm("getq", nil, []string{"C15"}, "configuration of %q reads %v, want %d", op.Q, resp, e.m.cfg[op.Q])
	}
	e.obs("configuration reads compared", 1)
	return nil
}

// runs says how many housekeeping runs of 1000 per queue and pool the due messages need.
func (e *engine) runs(now int64, pools ...int) int {
	n := map[[2]string]int{}
	most := 0
	for _, x := range e.m.all() {
		for _, p := range pools {
			if x.pool == p && x.due <= now {
				k := [2]string{x.q, poolName[p]}
				n[k]++
				most = max(most, n[k])
			}
		}
	}
	return max(1, (most+999)/1000)
}

func (e *engine) timeout() *mismatch {
	now := vnow()
	for i := e.runs(now, pFlight); i > 0; i-- {
		if err := queue.ProcessTimeoutMessages(pctx(), e.w.q); err != nil {
			return mm("timeout-error", nil, []string{"C05"}, "timeout housekeeping failed: %v", err)
		}
	}
	e.suspectOthers("", nil, "C05")
	n := 0
	for _, x := range e.m.all() {
		if x.pool == pFlight && x.due <= now {
			if n++; n == 101 {
				e.obs("timeouts of more than 100 messages at once", 1)
			}
			x.pool, x.prio, x.stKnown = pAvail, 0, false
			e.obs("timeouts", 1)
			e.m.ev(event{Sig: "TIMEOUT", Q: x.q, ID: x.id})
			e.m.count("deckard_message_timeout{queue="+prefixOf(x.q)+"}", 1)
		}
	}
	return nil
}

func (e *engine) unlock() *mismatch {
	now := vnow()
	for i := e.runs(now, pLockA, pLockN); i > 0; i-- {
		queue.ProcessLockPool(pctx(), e.w.q)
	}
	e.suspectOthers("", nil, "C06")
	n := 0
	for _, x := range e.m.all() {
		if (x.pool == pLockA || x.pool == pLockN) && x.due <= now {
			if n++; n == 101 {
				e.obs("unlocks of more than 100 messages at once", 1)
			}
			t := "lock_ack"
			sc := float64(now)
			if x.pool == pLockN {
				t, sc = "lock_nack", 0
			}
			if !math.IsNaN(x.lockSc) {
				sc = x.lockSc
			}
			x.pool, x.prio = pAvail, sc
			e.obs("unlocks", 1)
			e.m.ev(event{Sig: "UNLOCK", Q: x.q, ID: x.id, Reason: t})
			e.m.count("deckard_message_unlock{lock_type="+t+",queue="+prefixOf(x.q)+"}", 1)
		}
	}
	return nil
}

func (e *engine) ttl() *mismatch {
	now := dtime.Now()
	_, err := queue.RemoveTTLMessages(pctx(), e.w.q, &now)
	if err != nil {
		return mm("ttl-error", nil, []string{"C13"}, "expiry housekeeping failed: %v", err)
	}
	e.suspectOthers("", nil, "C13")
	var due []*msg
	for _, x := range e.m.all() {
		if x.inStore && x.exp <= vnow() {
			due = append(due, x)
		}
	}
	for _, x := range due {
		st, ca := e.modelRemove(x.q, []string{x.id}, "TTL")
		pf := prefixOf(x.q)
		e.m.count("deckard_ttl_messages_removed{queue="+pf+"}", st)
		e.m.count("deckard_ttl_messages_cache_removed{queue="+pf+"}", ca)
		e.qs(x.q, "C13")
		e.obs("expiries", 1)
	}
	return nil
}

// exceedSafe: with the memory storage expired messages present at eviction are a listed finding.
func (e *engine) exceedSafe() bool {
	for q, mx := range e.m.cfg {
		if mx <= 0 {
			continue
		}
		for _, x := range e.m.queueMsgs(q) {
			if x.inStore && e.m.hidden(x) {
				return false
			}
		}
	}
	return true
}

func (e *engine) exceed() *mismatch {
	if !e.exceedSafe() {
		return nil
	}
	_, err := queue.RemoveExceedingMessages(pctx(), e.w.q)
	if err != nil {
		return mm("exceed-error", nil, []string{"C14"}, "eviction housekeeping failed: %v", err)
	}
	e.suspectOthers("", nil, "C14")
	qs := map[string]bool{}
	for _, x := range e.m.all() {
		qs[x.q] = true
	}
	var names []string
	for q := range qs {
		names = append(names, q)
	}
	sort.Strings(names)
	for _, q := range names {
		var stored []*msg
		for _, x := range e.m.queueMsgs(q) {
			if x.inStore {
				stored = append(stored, x)
			}
		}
		mx := e.m.cfg[q]
		excess := 0
		if mx > 0 && int64(len(stored)) > mx {
			excess = len(stored) - int(mx)
		}
		var gone, kept []*msg
		for _, x := range stored {
			if e.m.hidden(x) {
				continue
			}
			resp, err := e.w.api.GetById(pctx(), &deckard.GetByIdRequest{Id: x.id, Queue: q})
			if err != nil {
				return mm("exceed-get", nil, []string{"C14"}, "lookup failed: %v", err)
			}
			if resp.Found {
				kept = append(kept, x)
			} else {
				gone = append(gone, x)
			}
		}
		e.obs("evictions compared", 1)
		if len(gone) != excess {
			susp := map[string]bool{}
			for _, x := range gone {
				for s := range x.susp {
					susp[s] = true
				}
			}
			return mm("evicted", susp, []string{"C14", "C15"}, "queue %q holds %d messages with maximum %d; %d were removed, want %d", q, len(stored), mx, len(gone), excess)
		}
		for _, g := range gone {
			for _, k := range kept {
				if g.exp > k.exp {
					return mm("evicted-order", nil, []string{"C14"}, "queue %q: %q (expires %d) was evicted before %q (expires %d)", q, g.id, g.exp, k.id, k.exp)
				}
			}
		}
		for _, g := range gone {
			st, ca := e.modelRemove(q, []string{g.id}, "MAX_ELEMENTS")
			pf := prefixOf(q)
			e.m.count("deckard_exceeding_messages_removed{queue="+pf+"}", st)
			e.m.count("deckard_exceeding_messages_cache_removed{queue="+pf+"}", ca)
			e.qs(q, "C14")
			e.obs("evicted messages", 1)
		}
	}
	return nil
}

func (e *engine) wipe() {
	if e.w.redis != nil {
		e.w.redis.Wipe()
	} else {
		e.w.ca.Flush(pctx())
	}
	for _, x := range e.m.all() {
		x.pool = pNone
		x.suspect("C16")
		e.m.drop(x)
	}
	e.m.recovered = false
}

func (e *engine) recover() *mismatch {
	done := false
	for i := 0; i < 10 && !done; i++ {
		done = !queue.RecoveryMessagesPool(pctx(), e.w.q)
	}
	if !done {
		return mm("recovery-endless", nil, []string{"C16"}, "recovery did not finish within 10 steps")
	}
	if e.m.recovered {
		for _, x := range e.m.all() {
			x.suspect("C16")
		}
		return nil
	}
	for _, x := range e.m.all() {
		x.suspect("C16")
		if x.inStore && x.pool == pNone && !e.m.hidden(x) {
			x.pool, x.prio = pAvail, clamp(x.stScore)
			x.stKnown = false
			e.obs("recovered messages", 1)
			e.m.ev(event{Sig: "INSERT_CACHE", Q: x.q, ID: x.id, Reason: "recovery"})
		}
	}
	e.m.recovered = true
	return nil
}

func (e *engine) flush() *mismatch {
	resp, err := e.w.api.Flush(pctx(), &deckard.FlushRequest{})
	if err != nil {
		return mm("flush-error", nil, []string{"C25"}, "flush failed: %v", err)
	}
	mem := e.w.kind == "mm"
	e.obs("flushes compared", 1)
	if resp.Success != mem {
		return mm("flush-answer", nil, []string{"C25"}, "flush on back ends %s answered success=%v", e.w.kind, resp.Success)
	}
	if mem {
		old := e.m
		e.m = newModel(old.hideExpired)
		e.m.events, e.m.counters = old.events, old.counters
		for _, x := range old.order {
			y := &msg{key: x.key, everGone: true, susp: map[string]bool{"C25": true}}
			e.m.order = append(e.m.order, y)
		}
		e.m.recovered = false
	} else {
		for _, x := range e.m.all() {
			x.suspect("C25")
		}
	}
	return nil
}

// drain advances the clock past everything and obtains every message once.
func (e *engine) drain() *mismatch {
	var far int64
	qs := map[string]bool{}
	for _, x := range e.m.all() {
		qs[x.q] = true
		if x.pool >= pFlight && x.due > far && x.due < vnow()+10*365*86400000 {
			far = x.due
		}
	}
	if d := far - vnow(); d > 0 {
		if r := e.do(&Op{K: "adv", Adv: d + 1}); r != nil {
			return r
		}
	}
	for _, k := range []string{"ttl", "timeout", "unlock"} {
		if r := e.do(&Op{K: k}); r != nil {
			return r
		}
	}
	var names []string
	for q := range qs {
		names = append(names, q)
	}
	sort.Strings(names)
	for _, q := range names {
		if r := e.do(&Op{K: "count", Q: q}); r != nil {
			return r
		}
		for i := 0; i < 100; i++ {
			n := len(e.m.inPool(q, pAvail))
			if r := e.do(&Op{K: "pull", Q: q, N: 1000, DL: 3600000}); r != nil {
				return r
			}
			if n == 0 {
				break
			}
		}
	}
	e.obs("drains", 1)
	return nil
}

// signature is an abstraction of the model's state, for counting distinct states.
func (e *engine) signature() string {
	var b strings.Builder
	for _, x := range e.m.all() {
		fmt.Fprintf(&b, "%d%v", x.pool, x.inStore)
		if x.pool == pAvail {
			fmt.Fprintf(&b, "%v", x.prio)
		}
		b.WriteByte(';')
	}
	return b.String()
}

var _ = proto.Equal
var _ = time.Now
