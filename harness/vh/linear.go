package main

import (
	"fmt"
	"sort"
)

// lev is one observed event of one message: something took effect between call and ret.
type lev struct {
	call, ret   int64 // logical stamps
	tcall, tret int64 // virtual clock at both
	kind        int
	dl          int64 // deliver: deadline; lock: duration
	flag        bool  // remove: was in some pool
	who         string
}

const (
	eAdd = iota
	eDeliver
	eAckOK
	eLockA
	eLockN
	eAckFail
	eRemove
	eTimeout
	eUnlockA
	eUnlockN
	eForget // removal whose effect on the cache was not reported
)

var evName = []string{"add", "delivered", "acked", "ack-locked", "nack-locked", "ack answered not in flight", "removed", "timed out", "ack-unlocked", "nack-unlocked", "dropped as missing"}

func (l lev) String() string {
	return fmt.Sprintf("[%d,%d] t=%d..%d %s by %s", l.call, l.ret, l.tcall, l.tret, evName[l.kind], l.who)
}

type lstate struct {
	pool int8
	lo   int64 // earliest possible end of the current deadline or lock
}

// apply is the specification of one message in the cache.
func (s lstate) apply(e *lev, timed bool) (lstate, bool) {
	switch e.kind {
	case eAdd:
		if s.pool == pNone {
			return lstate{pool: pAvail}, true
		}
		return s, true
	case eDeliver:
		if s.pool != pAvail {
			return s, false
		}
		n := lstate{pool: pFlight}
		if timed {
			n.lo = e.tcall + e.dl
		}
		return n, true
	case eAckOK:
		if s.pool != pFlight {
			return s, false
		}
		return lstate{pool: pAvail}, true
	case eLockA, eLockN:
		if s.pool != pFlight {
			return s, false
		}
		n := lstate{pool: pLockA}
		if e.kind == eLockN {
			n.pool = pLockN
		}
		if timed {
			n.lo = e.tcall + e.dl
		}
		return n, true
	case eAckFail:
		return s, s.pool != pFlight
	case eRemove:
		return lstate{}, (s.pool != pNone) == e.flag
	case eForget:
		return lstate{}, true
	case eTimeout:
		if s.pool != pFlight || timed && e.tret < s.lo {
			return s, false
		}
		return lstate{pool: pAvail}, true
	case eUnlockA, eUnlockN:
		want := int8(pLockA)
		if e.kind == eUnlockN {
			want = pLockN
		}
		if s.pool != want || timed && e.tret < s.lo {
			return s, false
		}
		return lstate{pool: pAvail}, true
	}
	panic("kind")
}

// linearizable searches an order of the events that respects real time and the specification.
// It gives up (answering true) after a bounded number of steps.
func linearizable(evs []lev, timed bool, stop int) (ok, decided bool, states int) {
	type node struct {
		ev         *lev
		isCall     bool
		match      *node
		prev, next *node
		id         int
	}
	type pt struct {
		at   int64
		call bool
		i    int
	}
	var pts []pt
	for i := range evs {
		pts = append(pts, pt{evs[i].call, true, i}, pt{evs[i].ret, false, i})
	}
	sort.Slice(pts, func(a, b int) bool {
		if pts[a].at != pts[b].at {
			return pts[a].at < pts[b].at
		}
		return pts[a].call && !pts[b].call
	})
	head := &node{}
	last := head
	calls := make([]*node, len(evs))
	for _, p := range pts {
		n := &node{ev: &evs[p.i], isCall: p.call, id: p.i, prev: last}
		last.next = n
		last = n
		if p.call {
			calls[p.i] = n
		} else {
			calls[p.i].match = n
		}
	}
	lift := func(n *node) {
		n.prev.next = n.next
		n.next.prev = n.prev
		m := n.match
		m.prev.next = m.next
		if m.next != nil {
			m.next.prev = m.prev
		}
	}
	unlift := func(n *node) {
		m := n.match
		m.prev.next = m
		if m.next != nil {
			m.next.prev = m
		}
		n.prev.next = n
		n.next.prev = n
	}
	type frame struct {
		n *node
		s lstate
	}
	var stack []frame
	set := make([]byte, (len(evs)+7)/8)
	seen := map[string]bool{}
	state := lstate{}
	n := head.next
	for steps := 0; head.next != nil; steps++ {
		if steps > stop {
			return true, false, len(seen)
		}
		if n == nil {
			return false, true, len(seen)
		}
		if n.isCall {
			ns, good := state.apply(n.ev, timed)
			if good {
				set[n.id/8] |= 1 << (n.id % 8)
				k := string(set) + fmt.Sprint(ns.pool, ns.lo)
				if !seen[k] {
					seen[k] = true
					stack = append(stack, frame{n, state})
					state = ns
					lift(n)
					n = head.next
					continue
				}
				set[n.id/8] &^= 1 << (n.id % 8)
			}
			n = n.next
			continue
		}
		// a return: everything before it has been tried
		if len(stack) == 0 {
			return false, true, len(seen)
		}
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		state = top.s
		set[top.n.id/8] &^= 1 << (top.n.id % 8)
		unlift(top.n)
		n = top.n.next
	}
	return true, true, len(seen)
}
