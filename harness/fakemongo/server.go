// Package fakemongo is an in-process stand-in for a MongoDB server: it speaks
// the wire protocol, keeps documents with their real update semantics, records
// every command and can fail any of them.
package fakemongo

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"net"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.mongodb.org/mongo-driver/v2/bson"
)

// Action is what happens to a command.
type Action int

const (
	Pass     Action = iota
	FailErr         // not executed, error reply
	DropReq         // not executed, connection closed
	DoneErr         // executed, error reply
	DropDone        // executed, connection closed
	PartErr         // only the first half of the statements is executed, the others report write errors
)

// Command is one data command received.
type Command struct {
	N    int64
	Name string
	Coll string
	Doc  bson.D
	Sec  bool // received by the secondary
}

type coll struct {
	docs []*doc
	byID map[string]*doc // queue\x00id -> document
	pk   map[string]*doc
}

type doc struct {
	d    bson.D
	dead bool
	h    uint64
}

type Server struct {
	ping    atomic.Pointer[func() bool]
	mu      sync.Mutex
	ln      net.Listener
	sec     net.Listener // the secondary of a replica set
	lag     func(id string) bool
	secN    int64
	lost    bool             // the primary is unreachable
	old     map[string]*coll // what a frozen secondary knows
	conns   map[net.Conn]bool
	done    bool
	n       int64
	oid     uint64
	colls   map[string]*coll
	cursors map[int64]*cursor
	nextCur int64
	fault   func(c *Command) Action
	watch   func(c *Command, before bool)
	latency func(c *Command)
	gap     func()                // runs between an upsert's search and its insertion
	unique  map[string][][]string // unique indexes by collection
	reply   int                   // most documents in one batch of a cursor
}

// SetReply bounds the documents in one batch of a cursor, as the size of a reply does when documents are large.
func (s *Server) SetReply(n int) {
	s.mu.Lock()
	s.reply = n
	s.mu.Unlock()
}

type cursor struct {
	ns   string
	rest []bson.D
	size int
}

func Start() (*Server, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &Server{ln: ln, conns: map[net.Conn]bool{}, colls: map[string]*coll{}, cursors: map[int64]*cursor{}}
	go s.accept(ln, false)
	return s, nil
}

// StartReplicaSet starts a primary and a secondary. Reads by id on the secondary can be made to miss messages (SetLag).
func StartReplicaSet() (*Server, error) {
	s, err := Start()
	if err != nil {
		return nil, err
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		s.Close()
		return nil, err
	}
	s.mu.Lock()
	s.sec = ln
	s.mu.Unlock()
	go s.accept(s.sec, true)
	return s, nil
}

func (s *Server) accept(ln net.Listener, sec bool) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.done {
			s.mu.Unlock()
			_ = c.Close()
			return
		}
		if s.lost && !sec {
			s.mu.Unlock()
			_ = c.Close()
			continue
		}
		s.conns[c] = !sec
		s.mu.Unlock()
		go s.serve(c, sec)
	}
}

func (s *Server) URI() string {
	u := "mongodb://" + s.ln.Addr().String()
	if s.sec != nil {
		u += "," + s.sec.Addr().String() + "/?replicaSet=rs"
	} else {
		u += "/"
	}
	return u
}

// SetLag makes the secondary miss, in reads by id, the messages f tells.
func (s *Server) SetLag(f func(id string) bool) { s.mu.Lock(); s.lag = f; s.mu.Unlock() }

// LosePrimary makes the primary unreachable, or reachable again.
func (s *Server) LosePrimary(lost bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.lost = lost
	for c, pri := range s.conns {
		if pri && lost {
			_ = c.Close()
		}
	}
}

// Freeze stops the replication to the secondary, or lets it catch up.
func (s *Server) Freeze(on bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.old = nil
	if !on {
		return
	}
	s.old = map[string]*coll{}
	for ns, c := range s.colls {
		o := s.copyTo(ns)
		for _, d := range c.docs {
			if !d.dead {
				o.insert(s, clone(d.d))
			}
		}
	}
}

func (s *Server) copyTo(ns string) *coll {
	cur := s.colls
	s.colls = s.old
	c := s.coll(ns)
	s.colls = cur
	return c
}

// SecondaryReads returns how many reads the secondary served.
func (s *Server) SecondaryReads() int64 { s.mu.Lock(); defer s.mu.Unlock(); return s.secN }

// Replicated tells whether the server is a replica set.
func (s *Server) Replicated() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.sec != nil }

func (s *Server) Close() {
	s.mu.Lock()
	s.done = true
	_ = s.ln.Close()
	if s.sec != nil {
		_ = s.sec.Close()
	}
	for c := range s.conns {
		_ = c.Close()
	}
	s.mu.Unlock()
}

// SetPing installs what is called at every ping and decides whether it is answered with an error.
func (s *Server) SetPing(f func() bool)               { s.ping.Store(&f) }
func (s *Server) SetFault(f func(c *Command) Action)  { s.mu.Lock(); s.fault = f; s.mu.Unlock() }
func (s *Server) SetWatch(f func(c *Command, b bool)) { s.mu.Lock(); s.watch = f; s.mu.Unlock() }
func (s *Server) SetLatency(f func(c *Command))       { s.mu.Lock(); s.latency = f; s.mu.Unlock() }

// SetUpsertGap makes the server do what a real one without a unique index may: between the search of an upsert that
// found nothing and the insertion, others can insert the same.
func (s *Server) SetUpsertGap(f func()) { s.mu.Lock(); s.gap = f; s.mu.Unlock() }

func (s *Server) Commands() int64                     { s.mu.Lock(); defer s.mu.Unlock(); return s.n }

// Held is the number of open connections, of open cursors and of stored documents.
func (s *Server) Held() (conns, cursors, docs int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.colls {
		docs += len(c.pk)
	}
	return len(s.conns), len(s.cursors), docs
}

// Docs returns copies of the documents of a collection ("db.coll").
func (s *Server) Docs(ns string) (out []bson.D) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if c := s.colls[ns]; c != nil {
		for _, d := range c.docs {
			if !d.dead {
				out = append(out, clone(d.d))
			}
		}
	}
	return
}

// Wipe drops everything.
func (s *Server) Wipe() { s.mu.Lock(); s.colls = map[string]*coll{}; s.mu.Unlock() }

// Put inserts a document directly.
func (s *Server) Put(ns string, d bson.D) {
	s.mu.Lock()
	s.coll(ns).insert(s, clone(d))
	s.mu.Unlock()
}

// Drop removes the documents f selects, behind the back of the clients.
func (s *Server) Drop(ns string, f func(bson.D) bool) (n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := s.coll(ns)
	for _, d := range append([]*doc(nil), c.docs...) {
		if !d.dead && f(d.d) {
			c.remove(d)
			n++
		}
	}
	return
}

func (s *Server) coll(ns string) *coll {
	c := s.colls[ns]
	if c == nil {
		c = &coll{byID: map[string]*doc{}, pk: map[string]*doc{}}
		s.colls[ns] = c
	}
	return c
}

// ---- wire ----

const (
	opReply = 1
	opQuery = 2004
	opMsg   = 2013
)

func (s *Server) serve(c net.Conn, sec bool) {
	defer func() {
		_ = c.Close()
		s.mu.Lock()
		delete(s.conns, c)
		s.mu.Unlock()
	}()
	for {
		var h [16]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		n := int(binary.LittleEndian.Uint32(h[0:]))
		id := binary.LittleEndian.Uint32(h[4:])
		op := binary.LittleEndian.Uint32(h[12:])
		if n < 16 || n > 64<<20 {
			return
		}
		b := make([]byte, n-16)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		var out []byte
		switch op {
		case opQuery:
			i := bytes.IndexByte(b[4:], 0)
			var q bson.D
			if i < 0 || bson.Unmarshal(b[4+i+1+8:], &q) != nil {
				return
			}
			rep, drop := s.command(q, sec)
			if drop {
				return
			}
			rb, _ := bson.Marshal(rep)
			out = make([]byte, 16+20, 16+20+len(rb))
			binary.LittleEndian.PutUint32(out[12:], opReply)
			binary.LittleEndian.PutUint32(out[16:], 8)
			binary.LittleEndian.PutUint32(out[32:], 1)
			out = append(out, rb...)
		case opMsg:
			flags := binary.LittleEndian.Uint32(b)
			end := len(b)
			if flags&1 != 0 {
				end -= 4
			}
			var q bson.D
			var extra []bson.E
			p := 4
			for p < end {
				k := b[p]
				p++
				l := int(binary.LittleEndian.Uint32(b[p:]))
				if k == 0 {
					if bson.Unmarshal(b[p:p+l], &q) != nil {
						return
					}
				} else {
					seq := b[p+4 : p+l]
					i := bytes.IndexByte(seq, 0)
					name := string(seq[:i])
					seq = seq[i+1:]
					var arr bson.A
					for len(seq) > 0 {
						dl := int(binary.LittleEndian.Uint32(seq))
						var d bson.D
						if bson.Unmarshal(seq[:dl], &d) != nil {
							return
						}
						arr = append(arr, d)
						seq = seq[dl:]
					}
					extra = append(extra, bson.E{Key: name, Value: arr})
				}
				p += l
			}
			q = append(q, extra...)
			rep, drop := s.command(q, sec)
			if drop {
				return
			}
			if flags&2 != 0 { // moreToCome: no reply wanted
				continue
			}
			rb, err := bson.Marshal(rep)
			if err != nil {
				return
			}
			out = make([]byte, 16+5, 16+5+len(rb))
			binary.LittleEndian.PutUint32(out[12:], opMsg)
			out = append(out, rb...)
		default:
			return
		}
		binary.LittleEndian.PutUint32(out[0:], uint32(len(out)))
		binary.LittleEndian.PutUint32(out[4:], id+1)
		binary.LittleEndian.PutUint32(out[8:], id)
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func val(d bson.D, k string) any {
	for _, e := range d {
		if e.Key == k {
			return e.Value
		}
	}
	return nil
}

func str(d bson.D, k string) string { s, _ := val(d, k).(string); return s }

func num(v any) int64 {
	switch x := v.(type) {
	case int32:
		return int64(x)
	case int64:
		return x
	case float64:
		return int64(x)
	case bool:
		if x {
			return 1
		}
	}
	return 0
}

func errDoc(code int, msg string) bson.D {
	return bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: msg}, {Key: "code", Value: int32(code)}, {Key: "codeName", Value: "InternalError"}}
}

type cmdErr struct {
	code int
	msg  string
}

func (e cmdErr) Error() string { return e.msg }

func fail(code int, f string, a ...any) { panic(cmdErr{code, fmt.Sprintf(f, a...)}) }

func (s *Server) command(q bson.D, sec bool) (rep bson.D, drop bool) {
	if len(q) == 0 {
		return errDoc(9, "empty command"), false
	}
	name := q[0].Key
	switch strings.ToLower(name) {
	case "hello", "ismaster":
		rep = bson.D{{Key: "ismaster", Value: !sec}, {Key: "isWritablePrimary", Value: !sec}, {Key: "helloOk", Value: true},
			{Key: "maxBsonObjectSize", Value: int32(16777216)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)}, {Key: "maxWriteBatchSize", Value: int32(100000)},
			{Key: "localTime", Value: bson.NewDateTimeFromTime(time.Now())},
			{Key: "connectionId", Value: int32(1)}, {Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(21)}, {Key: "readOnly", Value: false}}
		if s.sec == nil {
			rep = append(rep, bson.E{Key: "logicalSessionTimeoutMinutes", Value: int32(30)})
		} else {
			// without sessions: no retried writes, so that faults stay visible
			me := s.ln
			if sec {
				me = s.sec
			}
			rep = append(rep, bson.E{Key: "setName", Value: "rs"}, bson.E{Key: "setVersion", Value: int32(1)}, bson.E{Key: "secondary", Value: sec},
				bson.E{Key: "hosts", Value: bson.A{s.ln.Addr().String(), s.sec.Addr().String()}}, bson.E{Key: "primary", Value: s.ln.Addr().String()},
				bson.E{Key: "me", Value: me.Addr().String()})
		}
		return append(rep, bson.E{Key: "ok", Value: 1.0}), false
	case "ping", "endsessions", "aborttransaction", "killsessions":
		if f := s.ping.Load(); f != nil && strings.EqualFold(name, "ping") && (*f)() {
			return errDoc(1, "injected fault"), false
		}
		return bson.D{{Key: "ok", Value: 1.0}}, false
	case "buildinfo":
		return bson.D{{Key: "version", Value: "7.0.0"}, {Key: "ok", Value: 1.0}}, false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	c := &Command{N: s.n, Name: name, Doc: q, Sec: sec}
	if nm, ok := q[0].Value.(string); ok {
		c.Coll = str(q, "$db") + "." + nm
	}
	s.n++
	if s.latency != nil {
		f := s.latency
		s.mu.Unlock()
		f(c)
		s.mu.Lock()
	}
	act := Pass
	if s.fault != nil {
		act = s.fault(c)
	}
	if s.watch != nil {
		s.watch(c, true)
	}
	switch act {
	case FailErr:
		return errDoc(8000, "injected fault"), false
	case DropReq:
		return nil, true
	}
	if sec {
		switch name {
		case "find", "getMore", "aggregate", "distinct", "count", "killCursors":
			s.secN++
		default:
			return errDoc(10107, "not primary"), false
		}
	}
	if cur := s.colls; sec && s.old != nil {
		s.colls = s.old
		rep = s.run(c, act == PartErr)
		s.colls = cur
	} else {
		rep = s.run(c, act == PartErr)
	}
	if s.watch != nil {
		s.watch(c, false)
	}
	switch act {
	case DoneErr:
		return errDoc(8000, "injected fault"), false
	case DropDone:
		return nil, true
	}
	return rep, false
}

func (s *Server) run(c *Command, part bool) (rep bson.D) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(cmdErr); ok {
				rep = errDoc(e.code, e.msg)
				return
			}
			panic(r)
		}
	}()
	q := c.Doc
	co := s.coll(c.Coll)
	ok := bson.E{Key: "ok", Value: 1.0}
	switch c.Name {
	case "insert":
		n := 0
		for _, x := range arr(val(q, "documents")) {
			co.insert(s, x.(bson.D))
			n++
		}
		return bson.D{{Key: "n", Value: int32(n)}, ok}
	case "update":
		st := arr(val(q, "updates"))
		limit := len(st)
		if part {
			limit = len(st) / 2
		}
		n, mod := 0, 0
		var ups, werrs bson.A
		for i, x := range st {
			u := x.(bson.D)
			if i >= limit {
				werrs = append(werrs, bson.D{{Key: "index", Value: int32(i)}, {Key: "code", Value: int32(8000)}, {Key: "errmsg", Value: "injected fault"}})
				continue
			}
			a, b, up, err := s.update(co, u)
			if err != nil {
				werrs = append(werrs, bson.D{{Key: "index", Value: int32(i)}, {Key: "code", Value: int32(err.code)}, {Key: "errmsg", Value: err.msg}})
				if o, isB := val(q, "ordered").(bool); !isB || o {
					break
				}
				continue
			}
			n += a
			mod += b
			if up != nil {
				ups = append(ups, bson.D{{Key: "index", Value: int32(i)}, {Key: "_id", Value: up}})
			}
		}
		rep = bson.D{{Key: "n", Value: int32(n)}, {Key: "nModified", Value: int32(mod)}}
		if ups != nil {
			rep = append(rep, bson.E{Key: "upserted", Value: ups})
		}
		if werrs != nil {
			rep = append(rep, bson.E{Key: "writeErrors", Value: werrs})
		}
		return append(rep, ok)
	case "delete":
		n := 0
		for _, x := range arr(val(q, "deletes")) {
			dl := x.(bson.D)
			lim := num(val(dl, "limit"))
			for _, d := range co.match(asDoc(val(dl, "q"))) {
				co.remove(d)
				n++
				if lim == 1 {
					break
				}
			}
			co.compact()
		}
		return bson.D{{Key: "n", Value: int32(n)}, ok}
	case "find":
		ds := co.match(asDoc(val(q, "filter")))
		// documents that the sort does not order come in any order
		sort.Slice(ds, func(i, j int) bool { return ds[i].h < ds[j].h })
		ds = sortDocs(ds, asDoc(val(q, "sort")))
		if sk := num(val(q, "skip")); sk > 0 {
			ds = ds[min(int(sk), len(ds)):]
		}
		lim := num(val(q, "limit"))
		if lim < 0 {
			lim = -lim
		}
		if lim > 0 && int(lim) < len(ds) {
			ds = ds[:lim]
		}
		proj := asDoc(val(q, "projection"))
		byID := val(asDoc(val(q, "filter")), "id") != nil
		var out []bson.D
		for _, d := range ds {
			if id, isS := val(d.d, "id").(string); c.Sec && s.lag != nil && isS && byID && s.lag(id) {
				continue
			}
			out = append(out, project(d.d, proj))
		}
		size := 101
		if v := val(q, "batchSize"); v != nil {
			size = int(num(v))
		}
		if b, isB := val(q, "singleBatch").(bool); isB && b {
			return s.page(c.Coll, out, size, true, ok)
		}
		return s.page(c.Coll, out, size, false, ok)
	case "getMore":
		id := num(q[0].Value)
		ns := str(q, "$db") + "." + str(q, "collection")
		cu := s.cursors[id]
		if cu == nil || cu.ns != ns {
			return errDoc(43, "cursor id not found")
		}
		delete(s.cursors, id)
		size := len(cu.rest)
		if v := val(q, "batchSize"); v != nil && num(v) > 0 {
			size = int(num(v))
		}
		r := s.page(ns, cu.rest, size, false, ok)
		cd := r[0].Value.(bson.D)
		cd[0].Key = "nextBatch"
		return r
	case "killCursors":
		for _, x := range arr(val(q, "cursors")) {
			delete(s.cursors, num(x))
		}
		return bson.D{ok}
	case "distinct":
		k := str(q, "key")
		var out bson.A
		seen := map[string]bool{}
		for _, d := range co.match(asDoc(val(q, "query"))) {
			v, has := getPath(d.d, k)
			if !has {
				continue
			}
			key := ser(v)
			if !seen[key] {
				seen[key] = true
				out = append(out, v)
			}
		}
		if out == nil {
			out = bson.A{}
		}
		return bson.D{{Key: "values", Value: out}, ok}
	case "count":
		return bson.D{{Key: "n", Value: int32(len(co.match(asDoc(val(q, "query")))))}, ok}
	case "aggregate":
		ds := co.match(nil)
		var out []bson.D
		for _, x := range arr(val(q, "pipeline")) {
			st := x.(bson.D)
			switch st[0].Key {
			case "$match":
				var keep []*doc
				f := asDoc(st[0].Value)
				for _, d := range ds {
					if matches(d.d, f) {
						keep = append(keep, d)
					}
				}
				ds = keep
			case "$skip":
				ds = ds[min(int(num(st[0].Value)), len(ds)):]
			case "$limit":
				ds = ds[:min(int(num(st[0].Value)), len(ds))]
			case "$sort":
				ds = sortDocs(ds, asDoc(st[0].Value))
			case "$project":
				var to []*doc
				for _, d := range ds {
					to = append(to, &doc{d: project(d.d, asDoc(st[0].Value))})
				}
				ds = to
			case "$count":
				if len(ds) > 0 {
					ds = []*doc{{d: bson.D{{Key: fmt.Sprint(st[0].Value), Value: int32(len(ds))}}}}
				}
			case "$group":
				ds = group(ds, asDoc(st[0].Value))
			default:
				fail(40324, "Unrecognized pipeline stage name: '%s'", st[0].Key)
			}
		}
		for _, d := range ds {
			out = append(out, clone(d.d))
		}
		return s.page(c.Coll, out, 1<<30, false, ok)
	case "findAndModify", "findandmodify":
		ds := sortDocs(co.match(asDoc(val(q, "query"))), asDoc(val(q, "sort")))
		var had, got any
		if len(ds) > 0 {
			had = project(ds[0].d, asDoc(val(q, "fields")))
		}
		le := bson.D{{Key: "n", Value: int32(min(len(ds), 1))}}
		if b, _ := val(q, "remove").(bool); b {
			if len(ds) > 0 {
				co.remove(ds[0])
				co.compact()
			}
			return bson.D{{Key: "lastErrorObject", Value: le}, {Key: "value", Value: had}, ok}
		}
		f := asDoc(val(q, "query"))
		if len(ds) > 0 {
			id, _ := getPath(ds[0].d, "_id")
			f = bson.D{{Key: "_id", Value: id}}
		}
		_, _, up, err := s.update(co, bson.D{{Key: "q", Value: f}, {Key: "u", Value: val(q, "update")}, {Key: "upsert", Value: val(q, "upsert")}})
		if err != nil {
			panic(*err)
		}
		if b, _ := val(q, "new").(bool); b {
			if up != nil {
				f = bson.D{{Key: "_id", Value: up}}
			}
			if ds = co.match(f); len(ds) > 0 {
				got = project(ds[0].d, asDoc(val(q, "fields")))
			}
		} else {
			got = had
		}
		return bson.D{{Key: "lastErrorObject", Value: le}, {Key: "value", Value: got}, ok}
	case "createIndexes":
		for _, x := range arr(val(q, "indexes")) {
			if u, _ := val(x.(bson.D), "unique").(bool); u {
				var ks []string
				for _, k := range asDoc(val(x.(bson.D), "key")) {
					ks = append(ks, k.Key)
				}
				if s.unique == nil {
					s.unique = map[string][][]string{}
				}
				s.unique[c.Coll] = append(s.unique[c.Coll], ks)
			}
		}
		return bson.D{ok}
	case "drop", "dropDatabase":
		return bson.D{ok}
	}
	fail(59, "no such command: '%s'", c.Name)
	return nil
}

// group is the $group stage with the accumulators $sum, $count, $first, $min and $max.
func group(ds []*doc, g bson.D) []*doc {
	of := func(d *doc, e any) any {
		if p, ok := e.(string); ok && strings.HasPrefix(p, "$") {
			v, _ := getPath(d.d, p[1:])
			return v
		}
		return e
	}
	sets := map[string][]*doc{}
	var order []string
	for _, d := range ds {
		k := ser(of(d, val(g, "_id")))
		if sets[k] == nil {
			order = append(order, k)
		}
		sets[k] = append(sets[k], d)
	}
	var out []*doc
	for _, k := range order {
		l := sets[k]
		o := bson.D{{Key: "_id", Value: of(l[0], val(g, "_id"))}}
		for _, e := range g {
			if e.Key == "_id" {
				continue
			}
			acc, isD := e.Value.(bson.D)
			if !isD || len(acc) != 1 {
				fail(40234, "The field '%s' must be an accumulator object", e.Key)
			}
			var v any
			switch acc[0].Key {
			case "$count":
				v = int32(len(l))
			case "$sum":
				n, f, whole := int64(0), 0.0, true
				for _, d := range l {
					switch x := of(d, acc[0].Value).(type) {
					case int32:
						n += int64(x)
					case int64:
						n += x
					case float64:
						f, whole = f+x, false
					}
				}
				switch {
				case !whole:
					v = f + float64(n)
				case int64(int32(n)) == n:
					v = int32(n)
				default:
					v = n
				}
			case "$first":
				v = of(l[0], acc[0].Value)
			case "$min", "$max":
				for _, d := range l {
					x := of(d, acc[0].Value)
					if x != nil && (v == nil || (compare(x, v) < 0) == (acc[0].Key == "$min")) {
						v = x
					}
				}
			default:
				fail(15952, "unknown group operator '%s'", acc[0].Key)
			}
			o = append(o, bson.E{Key: e.Key, Value: v})
		}
		out = append(out, &doc{d: o})
	}
	return out
}

func (s *Server) page(ns string, out []bson.D, size int, single bool, ok bson.E) bson.D {
	if size <= 0 {
		size = 0
	}
	first := out[:min(size, len(out))]
	rest := out[len(first):]
	b := bson.A{}
	bytesN := 0
	for i, d := range first {
		raw, _ := bson.Marshal(d)
		bytesN += len(raw)
		if (bytesN > 16<<20 || s.reply > 0 && i >= s.reply) && i > 0 {
			rest = out[i:]
			break
		}
		b = append(b, bson.Raw(raw))
	}
	id := int64(0)
	if len(rest) > 0 && !single {
		s.nextCur++
		id = s.nextCur
		s.cursors[id] = &cursor{ns: ns, rest: rest}
	}
	return bson.D{{Key: "cursor", Value: bson.D{{Key: "firstBatch", Value: b}, {Key: "id", Value: id}, {Key: "ns", Value: ns}}}, ok}
}

// ---- documents ----

func arr(v any) bson.A {
	a, _ := v.(bson.A)
	return a
}

func asDoc(v any) bson.D {
	d, _ := v.(bson.D)
	return d
}

func clone(d bson.D) bson.D {
	b, err := bson.Marshal(d)
	if err != nil {
		fail(2, "%v", err)
	}
	var o bson.D
	if err := bson.Unmarshal(b, &o); err != nil {
		fail(2, "%v", err)
	}
	return o
}

func ser(v any) string {
	t, b, err := bson.MarshalValue(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(rune(t)) + string(b)
}

func docKey(d bson.D) (string, bool) {
	q, ok1 := val(d, "queue").(string)
	i, ok2 := val(d, "id").(string)
	return q + "\x00" + i, ok1 && ok2
}

func (c *coll) insert(s *Server, d bson.D) any {
	id := val(d, "_id")
	if id == nil {
		id = s.newID()
		d = append(bson.D{{Key: "_id", Value: id}}, d...)
	} else if d[0].Key != "_id" {
		o := bson.D{{Key: "_id", Value: id}}
		for _, e := range d {
			if e.Key != "_id" {
				o = append(o, e)
			}
		}
		d = o
	}
	k := ser(id)
	if c.pk[k] != nil {
		fail(11000, "E11000 duplicate key error")
	}
	x := &doc{d: d, h: scatter(k)}
	c.pk[k] = x
	c.docs = append(c.docs, x)
	if dk, ok := docKey(d); ok && c.byID[dk] == nil {
		c.byID[dk] = x
	}
	return id
}

// newID gives increasing object ids.
func (s *Server) newID() bson.ObjectID {
	s.oid++
	var o bson.ObjectID
	binary.BigEndian.PutUint32(o[:4], 0x65000000+uint32(s.oid>>20))
	binary.BigEndian.PutUint64(o[4:], s.oid*7+3)
	return o
}

func (c *coll) remove(d *doc) {
	if d.dead {
		return
	}
	d.dead = true
	delete(c.pk, ser(val(d.d, "_id")))
	if k, ok := docKey(d.d); ok && c.byID[k] == d {
		delete(c.byID, k)
		for _, o := range c.docs { // a duplicate, should there be one
			if !o.dead {
				if k2, ok := docKey(o.d); ok && k2 == k {
					c.byID[k] = o
					break
				}
			}
		}
	}
}

func (c *coll) compact() {
	dead := 0
	for _, d := range c.docs {
		if d.dead {
			dead++
		}
	}
	if dead == 0 {
		return
	}
	keep := make([]*doc, 0, len(c.docs)-dead)
	for _, d := range c.docs {
		if !d.dead {
			keep = append(keep, d)
		}
	}
	c.docs = keep
}

func (c *coll) match(f bson.D) (out []*doc) {
	// the index on (queue, id), unless duplicates exist
	q, okQ := val(f, "queue").(string)
	if okQ && len(c.byID) == len(c.docs) {
		if id, ok := val(f, "id").(string); ok {
			if d := c.byID[q+"\x00"+id]; d != nil && matches(d.d, f) {
				return []*doc{d}
			}
			return nil
		}
		if in, ok := val(f, "id").(bson.D); ok && len(in) == 1 && in[0].Key == "$in" {
			seen := map[*doc]bool{}
			for _, x := range arr(in[0].Value) {
				if id, ok := x.(string); ok {
					if d := c.byID[q+"\x00"+id]; d != nil && !seen[d] && matches(d.d, f) {
						seen[d] = true
						out = append(out, d)
					}
				}
			}
			return
		}
	}
	for _, d := range c.docs {
		if !d.dead && matches(d.d, f) {
			out = append(out, d)
		}
	}
	return
}

func getPath(d bson.D, p string) (any, bool) {
	for _, e := range d {
		if e.Key == p {
			return e.Value, true
		}
	}
	if i := strings.IndexByte(p, '.'); i > 0 {
		if sub, ok := val(d, p[:i]).(bson.D); ok {
			return getPath(sub, p[i+1:])
		}
	}
	return nil, false
}

func isOps(v any) (bson.D, bool) {
	d, ok := v.(bson.D)
	return d, ok && len(d) > 0 && strings.HasPrefix(d[0].Key, "$")
}

func matches(d bson.D, f bson.D) bool {
	for _, e := range f {
		switch e.Key {
		case "$and", "$or", "$nor":
			any1, all := false, true
			for _, x := range arr(e.Value) {
				if matches(d, x.(bson.D)) {
					any1 = true
				} else {
					all = false
				}
			}
			if e.Key == "$and" && !all || e.Key == "$or" && !any1 || e.Key == "$nor" && any1 {
				return false
			}
			continue
		case "$comment":
			continue
		}
		if strings.HasPrefix(e.Key, "$") {
			fail(2, "unknown top level operator: %s", e.Key)
		}
		v, has := getPath(d, e.Key)
		ops, isO := isOps(e.Value)
		if !isO {
			if rx, ok := e.Value.(bson.Regex); ok {
				if !has || !rxMatch(v, rx.Pattern, rx.Options) {
					return false
				}
				continue
			}
			if !has && e.Value == nil {
				continue
			}
			if !has || !equal(v, e.Value) {
				return false
			}
			continue
		}
		if !opsMatch(ops, v, has) {
			return false
		}
	}
	return true
}

func opsMatch(ops bson.D, v any, has bool) bool {
	for _, o := range ops {
		switch o.Key {
		case "$regex":
			pat, opt := "", ""
			switch x := o.Value.(type) {
			case bson.Regex:
				pat, opt = x.Pattern, x.Options
			case string:
				pat = x
			}
			if x, ok := val(ops, "$options").(string); ok {
				opt = x
			}
			if !has || !rxMatch(v, pat, opt) {
				return false
			}
		case "$options":
		case "$not":
			if d, ok := isOps(o.Value); ok && opsMatch(d, v, has) {
				return false
			}
		default:
			if !opMatch(o.Key, v, has, o.Value) {
				return false
			}
		}
	}
	return true
}

func rxMatch(v any, pat, opt string) bool {
	x, ok := v.(string)
	if !ok {
		return false
	}
	if opt != "" {
		pat = "(?" + strings.ReplaceAll(opt, "x", "") + ")" + pat
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		fail(51091, "Regular expression is invalid: %v", err)
	}
	return re.MatchString(x)
}

func opMatch(op string, v any, has bool, w any) bool {
	switch op {
	case "$eq":
		return has && equal(v, w)
	case "$ne":
		return !has || !equal(v, w)
	case "$exists":
		return has == (num(w) != 0)
	case "$in", "$nin":
		in := false
		for _, x := range arr(w) {
			if has && equal(v, x) {
				in = true
			}
		}
		return in == (op == "$in")
	case "$gt", "$gte", "$lt", "$lte":
		if !has || bracket(v) != bracket(w) {
			return false
		}
		c := compare(v, w)
		switch op {
		case "$gt":
			return c > 0
		case "$gte":
			return c >= 0
		case "$lt":
			return c < 0
		}
		return c <= 0
	}
	fail(2, "unknown operator: %s", op)
	return false
}

func isNum(v any) (float64, bool) {
	switch x := v.(type) {
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

// bracket is the BSON comparison order of types.
func bracket(v any) int {
	switch v.(type) {
	case nil, bson.Null:
		return 1
	case int32, int64, float64:
		return 2
	case string:
		return 3
	case bson.D:
		return 4
	case bson.A:
		return 5
	case bson.Binary:
		return 6
	case bson.ObjectID:
		return 7
	case bool:
		return 8
	case bson.DateTime, time.Time:
		return 9
	}
	return 10
}

func compare(a, b any) int {
	x, y := bracket(a), bracket(b)
	if x != y {
		return x - y
	}
	cmp := func(l, g bool) int {
		switch {
		case l:
			return -1
		case g:
			return 1
		}
		return 0
	}
	switch p := a.(type) {
	case int32, int64, float64:
		i, ok1 := a.(int64)
		j, ok2 := b.(int64)
		if ok1 && ok2 {
			return cmp(i < j, i > j)
		}
		f, _ := isNum(a)
		g, _ := isNum(b)
		if math.IsNaN(f) || math.IsNaN(g) {
			return cmp(math.IsNaN(f) && !math.IsNaN(g), math.IsNaN(g) && !math.IsNaN(f))
		}
		return cmp(f < g, f > g)
	case string:
		return strings.Compare(p, b.(string))
	case bson.ObjectID:
		q := b.(bson.ObjectID)
		return bytes.Compare(p[:], q[:])
	case bool:
		return cmp(!p && b.(bool), p && !b.(bool))
	case bson.DateTime:
		q, ok := b.(bson.DateTime)
		if !ok {
			return 0
		}
		return cmp(p < q, p > q)
	}
	return strings.Compare(ser(a), ser(b))
}

func equal(a, b any) bool { return compare(a, b) == 0 }

// scatter is where a document lies in the natural order.
func scatter(id string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(id))
	x := h.Sum64()
	x ^= x >> 31
	x *= 0x9e3779b97f4a7c15
	return x ^ x>>29
}

func sortDocs(ds []*doc, by bson.D) []*doc {
	if len(by) == 0 {
		return ds
	}
	for _, e := range by {
		if n := num(e.Value); n != 1 && n != -1 {
			fail(15975, "$sort key ordering must be 1 (for ascending) or -1 (for descending)")
		}
	}
	out := append([]*doc(nil), ds...)
	sort.SliceStable(out, func(i, j int) bool {
		for _, e := range by {
			a, _ := getPath(out[i].d, e.Key)
			b, _ := getPath(out[j].d, e.Key)
			if c := compare(a, b); c != 0 {
				return (c < 0) == (num(e.Value) >= 0)
			}
		}
		return false
	})
	return out
}

func project(d, p bson.D) bson.D {
	if len(p) == 0 {
		return clone(d)
	}
	incl := false
	idOff := false
	for _, e := range p {
		on := num(e.Value) != 0
		if e.Key == "_id" {
			idOff = !on
			if on && len(p) == 1 {
				incl = true
			}
			continue
		}
		if on {
			incl = true
		} else if incl {
			fail(31254, "Cannot do exclusion on field %s in inclusion projection", e.Key)
		}
	}
	var out bson.D
	c := clone(d)
	if !incl {
		out = c
		for _, e := range p {
			if num(e.Value) == 0 {
				out = unset(out, e.Key)
			}
		}
		return out
	}
	for _, e := range c {
		if e.Key == "_id" {
			if !idOff {
				out = append(out, e)
			}
			continue
		}
		for _, f := range p {
			if num(f.Value) == 0 {
				continue
			}
			if f.Key == e.Key {
				out = append(out, e)
				break
			}
			if strings.HasPrefix(f.Key, e.Key+".") {
				if v, ok := getPath(c, f.Key); ok {
					out = setPath(out, f.Key, v)
				}
			}
		}
	}
	if out == nil {
		out = bson.D{}
	}
	return out
}

func setPath(d bson.D, p string, v any) bson.D {
	i := strings.IndexByte(p, '.')
	k := p
	if i >= 0 {
		k = p[:i]
	}
	for j := range d {
		if d[j].Key == k {
			if i < 0 {
				d[j].Value = v
				return d
			}
			sub, ok := d[j].Value.(bson.D)
			if !ok {
				fail(28, "Cannot create field '%s' in element {%s: %v}", p[i+1:], k, d[j].Value)
			}
			d[j].Value = setPath(sub, p[i+1:], v)
			return d
		}
	}
	if i < 0 {
		return append(d, bson.E{Key: k, Value: v})
	}
	return append(d, bson.E{Key: k, Value: setPath(bson.D{}, p[i+1:], v)})
}

func unset(d bson.D, p string) bson.D {
	i := strings.IndexByte(p, '.')
	k := p
	if i >= 0 {
		k = p[:i]
	}
	var out bson.D
	for _, e := range d {
		if e.Key == k {
			if i < 0 {
				continue
			}
			if sub, ok := e.Value.(bson.D); ok {
				e.Value = unset(sub, p[i+1:])
			}
		}
		out = append(out, e)
	}
	return out
}

func apply(d, u bson.D, inserting bool) bson.D {
	if len(u) > 0 && !strings.HasPrefix(u[0].Key, "$") {
		fail(9, "update document requires atomic operators")
	}
	paths := map[string]bool{}
	for _, op := range u {
		fs := asDoc(op.Value)
		for _, f := range fs {
			for p := range paths {
				if p == f.Key || strings.HasPrefix(p, f.Key+".") || strings.HasPrefix(f.Key, p+".") {
					fail(40, "Updating the path '%s' would create a conflict at '%s'", f.Key, p)
				}
			}
			paths[f.Key] = true
		}
		for _, f := range fs {
			switch op.Key {
			case "$set":
				d = setPath(d, f.Key, f.Value)
			case "$setOnInsert":
				if inserting {
					d = setPath(d, f.Key, f.Value)
				}
			case "$unset":
				d = unset(d, f.Key)
			case "$min", "$max":
				old, has := getPath(d, f.Key)
				if !has || (compare(f.Value, old) < 0) == (op.Key == "$min") && compare(f.Value, old) != 0 {
					d = setPath(d, f.Key, f.Value)
				}
			case "$inc":
				old, has := getPath(d, f.Key)
				if !has {
					d = setPath(d, f.Key, f.Value)
					continue
				}
				d = setPath(d, f.Key, addNum(old, f.Value, f.Key))
			default:
				fail(9, "Unknown modifier: %s", op.Key)
			}
		}
	}
	return d
}

func addNum(a, b any, k string) any {
	x, ok1 := isNum(a)
	y, ok2 := isNum(b)
	if !ok1 || !ok2 {
		fail(14, "Cannot apply $inc to a value of non-numeric type: {%s}", k)
	}
	_, f1 := a.(float64)
	_, f2 := b.(float64)
	if f1 || f2 {
		return x + y
	}
	s := num(a) + num(b)
	_, i1 := a.(int32)
	_, i2 := b.(int32)
	if i1 && i2 && s <= math.MaxInt32 && s >= math.MinInt32 {
		return int32(s)
	}
	return s
}

func (s *Server) update(c *coll, u bson.D) (n, mod int, upserted any, err *cmdErr) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(cmdErr); ok {
				err = &e
				return
			}
			panic(r)
		}
	}()
	f := asDoc(val(u, "q"))
	up := asDoc(val(u, "u"))
	multi, _ := val(u, "multi").(bool)
	ups, _ := val(u, "upsert").(bool)
	ds := c.match(f)
	if len(ds) == 0 {
		if !ups {
			return
		}
		d := bson.D{}
		for _, e := range f {
			if _, isO := isOps(e.Value); !isO && !strings.HasPrefix(e.Key, "$") {
				d = setPath(d, e.Key, e.Value)
			}
		}
		d = apply(d, up, true)
		if gap := s.gap; gap != nil {
			s.mu.Unlock()
			gap()
			s.mu.Lock()
			uniq := val(d, "_id") != nil
			for ns := range s.unique {
				uniq = uniq || s.coll(ns) == c
			}
			if uniq && len(c.match(f)) > 0 { // the server tries again
				return s.update(c, u)
			}
		}
		upserted = c.insert(s, clone(d))
		return 1, 0, upserted, nil
	}
	for _, d := range ds {
		before, _ := bson.Marshal(d.d)
		nd := apply(clone(d.d), up, false)
		after, e := bson.Marshal(nd)
		if e != nil {
			fail(2, "%v", e)
		}
		n++
		if !bytes.Equal(before, after) {
			mod++
			d.d = clone(nd)
		}
		if !multi {
			break
		}
	}
	return
}

var _ = errors.New
