// Package fakeredis is an in-process stand-in for Redis (one node or a
// cluster): it speaks the wire protocol, executes Deckard's own Lua scripts,
// records every command and can fail any of them.
package fakeredis

import (
	"bufio"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

// Action is what happens to a command.
type Action int

const (
	Pass     Action = iota
	FailErr         // not executed, error reply
	DropReq         // not executed, connection closed
	DoneErr         // executed, error reply
	DropDone        // executed, connection closed
)

// Command is one command received, with the keys it touched.
type Command struct {
	N      int64 // running number of data commands
	Node   int
	Name   string
	Args   []string
	Keys   []string // declared or touched keys
	Script bool
	Bad    string // what is wrong with it, if anything
	Err    string // error reply
}

// Cluster is a set of nodes; a single node is a cluster of one without cluster mode.
type Cluster struct {
	ping  atomic.Pointer[func() bool]
	mu    sync.Mutex
	nodes []*node
	isCl  bool
	n     int64
	conns map[net.Conn]bool
	done  bool
	// Fault decides about data command n (scripts, keys, scans); nil passes all.
	fault func(c *Command) Action
	// onCmd sees every data command after it was decided.
	onCmd func(c *Command)
	// ScanPage bounds the keys of one SCAN reply and makes some replies empty or repeated (0: no).
	ScanPage int
	latency  func(c *Command)
}

type node struct {
	id      int
	c       *Cluster
	ln      net.Listener
	keys    map[string]any // *zset or string
	scripts map[string]*chunk
	srcs    map[string]string
	lo, hi  int
}

// Start runs a stand-in with the given number of nodes (1: no cluster mode).
func Start(nodes int) (*Cluster, error) {
	c := &Cluster{isCl: nodes > 1, conns: map[net.Conn]bool{}}
	for i := 0; i < nodes; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Close()
			return nil, err
		}
		n := &node{id: i, c: c, ln: ln, keys: map[string]any{}, scripts: map[string]*chunk{}, srcs: map[string]string{}, lo: i * 16384 / nodes, hi: (i+1)*16384/nodes - 1}
		c.nodes = append(c.nodes, n)
	}
	for _, n := range c.nodes {
		go n.accept()
	}
	return c, nil
}

// URI is the connection string for Deckard's configuration.
func (c *Cluster) URI() string {
	u := "redis://" + c.nodes[0].ln.Addr().String()
	if c.isCl {
		for i, n := range c.nodes[1:] {
			sep := "&"
			if i == 0 {
				sep = "?"
			}
			u += sep + "addr=" + n.ln.Addr().String()
		}
	}
	return u
}

func (c *Cluster) Close() {
	c.mu.Lock()
	c.done = true
	for _, n := range c.nodes {
		_ = n.ln.Close()
	}
	for k := range c.conns {
		_ = k.Close()
	}
	c.mu.Unlock()
}

// DropConns closes every client connection.
func (c *Cluster) DropConns() {
	c.mu.Lock()
	for k := range c.conns {
		_ = k.Close()
	}
	c.mu.Unlock()
}

// Wipe forgets all keys (a restart without persistence), scripts included.
func (c *Cluster) Wipe() {
	c.mu.Lock()
	for _, n := range c.nodes {
		n.keys = map[string]any{}
		n.scripts = map[string]*chunk{}
	}
	c.mu.Unlock()
}

// ForgetScripts empties the script caches.
func (c *Cluster) ForgetScripts() {
	c.mu.Lock()
	for _, n := range c.nodes {
		n.scripts = map[string]*chunk{}
	}
	c.mu.Unlock()
}

// SetPing installs what is called at every ping and decides whether it is answered with an error.
func (c *Cluster) SetPing(f func() bool)              { c.ping.Store(&f) }
func (c *Cluster) SetFault(f func(c *Command) Action) { c.mu.Lock(); c.fault = f; c.mu.Unlock() }
func (c *Cluster) SetWatch(f func(c *Command))        { c.mu.Lock(); c.onCmd = f; c.mu.Unlock() }
func (c *Cluster) SetLatency(f func(c *Command))      { c.mu.Lock(); c.latency = f; c.mu.Unlock() }

// Commands is the number of data commands so far.
func (c *Cluster) Commands() int64 { c.mu.Lock(); defer c.mu.Unlock(); return c.n }

// Held is the number of open connections, of keys and of members and bytes in them.
func (c *Cluster) Held() (conns, keys, size int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, n := range c.nodes {
		for _, v := range n.keys {
			keys++
			if z, ok := v.(*zset); ok {
				size += len(z.m)
			} else {
				size += len(fmt.Sprint(v))
			}
		}
	}
	return len(c.conns), keys, size
}

// Keys lists every key with its type.
func (c *Cluster) Keys() map[string]string {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := map[string]string{}
	for _, n := range c.nodes {
		for k, v := range n.keys {
			if _, ok := v.(*zset); ok {
				out[k] = "zset"
			} else {
				out[k] = "string"
			}
		}
	}
	return out
}

// Get reads a string key.
func (c *Cluster) Get(k string) (string, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, n := range c.nodes {
		if s, ok := n.keys[k].(string); ok {
			return s, true
		}
	}
	return "", false
}

// Zset reads a sorted set.
func (c *Cluster) Zset(k string) map[string]float64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := map[string]float64{}
	for _, n := range c.nodes {
		if z, ok := n.keys[k].(*zset); ok {
			for m, s := range z.m {
				out[m] = s
			}
		}
	}
	return out
}

// PutString and PutZset write foreign keys directly.
func (c *Cluster) PutString(k, v string) {
	c.mu.Lock()
	c.owner(k).keys[k] = v
	c.mu.Unlock()
}

func (c *Cluster) PutZset(k, m string, s float64) {
	c.mu.Lock()
	n := c.owner(k)
	z, _ := n.keys[k].(*zset)
	if z == nil {
		z = newZset()
		n.keys[k] = z
	}
	z.add(m, s)
	c.mu.Unlock()
}

func (c *Cluster) owner(k string) *node {
	s := Slot(k)
	for _, n := range c.nodes {
		if s >= n.lo && s <= n.hi {
			return n
		}
	}
	return c.nodes[0]
}

func (n *node) accept() {
	for {
		cn, err := n.ln.Accept()
		if err != nil {
			return
		}
		n.c.mu.Lock()
		if n.c.done {
			n.c.mu.Unlock()
			_ = cn.Close()
			return
		}
		n.c.conns[cn] = true
		n.c.mu.Unlock()
		go n.serve(cn)
	}
}

type session struct {
	n     *node
	w     *bufio.Writer
	resp3 bool
	ro    bool

	multi bool // between MULTI and EXEC
	bad   bool
	queue [][]string
}

var errProto = errors.New("protocol error")

func readCmd(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if line == "" {
		return nil, nil
	}
	if line[0] != '*' {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil || n > 1<<20 {
		return nil, errProto
	}
	out := make([]string, 0, max(n, 0))
	for i := 0; i < n; i++ {
		l, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l = strings.TrimRight(l, "\r\n")
		if l == "" || l[0] != '$' {
			return nil, errProto
		}
		k, err := strconv.Atoi(l[1:])
		if err != nil || k < 0 || k > 512<<20 {
			return nil, errProto
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}

func (n *node) serve(cn net.Conn) {
	defer func() {
		_ = cn.Close()
		n.c.mu.Lock()
		delete(n.c.conns, cn)
		n.c.mu.Unlock()
	}()
	r := bufio.NewReaderSize(cn, 32<<10)
	s := &session{n: n, w: bufio.NewWriterSize(cn, 32<<10)}
	for {
		args, err := readCmd(r)
		if err != nil {
			return
		}
		if len(args) == 0 {
			continue
		}
		rep, drop := s.handle(args)
		if drop {
			return
		}
		s.write(rep)
		if r.Buffered() == 0 {
			if s.w.Flush() != nil {
				return
			}
		}
	}
}

type mapReply []reply

func (s *session) write(r reply) {
	w := s.w
	switch x := r.(type) {
	case nil:
		if s.resp3 {
			_, _ = w.WriteString("_\r\n")
		} else {
			_, _ = w.WriteString("$-1\r\n")
		}
	case int64:
		fmt.Fprintf(w, ":%d\r\n", x)
	case string:
		fmt.Fprintf(w, "$%d\r\n%s\r\n", len(x), x)
	case statusReply:
		fmt.Fprintf(w, "+%s\r\n", string(x))
	case errReply:
		e := strings.NewReplacer("\r", " ", "\n", " ").Replace(string(x))
		fmt.Fprintf(w, "-%s\r\n", e)
	case dbl:
		if s.resp3 {
			fmt.Fprintf(w, ",%s\r\n", fmtScore(float64(x)))
		} else {
			s.write(fmtScore(float64(x)))
		}
	case mapReply:
		if s.resp3 {
			fmt.Fprintf(w, "%%%d\r\n", len(x)/2)
		} else {
			fmt.Fprintf(w, "*%d\r\n", len(x))
		}
		for _, e := range x {
			s.write(e)
		}
	case []reply:
		fmt.Fprintf(w, "*%d\r\n", len(x))
		for _, e := range x {
			s.write(e)
		}
	default:
		panic(fmt.Sprintf("reply %T", r))
	}
}

func (s *session) handle(args []string) (rep reply, drop bool) {
	name := strings.ToLower(args[0])
	c := s.n.c
	switch name {
	case "hello":
		if len(args) > 1 {
			switch args[1] {
			case "2":
				s.resp3 = false
			case "3":
				s.resp3 = true
			default:
				return errReply("NOPROTO unsupported protocol version"), false
			}
		}
		mode := "standalone"
		if c.isCl {
			mode = "cluster"
		}
		return mapReply{"server", "redis", "version", "7.2.4", "proto", int64(map[bool]int{false: 2, true: 3}[s.resp3]), "id", int64(1), "mode", mode, "role", "master", "modules", []reply{}}, false
	case "client":
		if len(args) > 1 {
			switch strings.ToLower(args[1]) {
			case "setinfo", "setname", "no-evict", "no-touch":
				return statusReply("OK"), false
			case "id":
				return int64(1), false
			}
		}
		return errReply("ERR unknown subcommand '" + args[min(1, len(args)-1)] + "'. Try CLIENT HELP."), false
	case "ping":
		if f := s.n.c.ping.Load(); f != nil && (*f)() {
			return errReply("ERR injected fault"), false
		}
		if len(args) > 1 {
			return args[1], false
		}
		return statusReply("PONG"), false
	case "select", "readonly", "readwrite", "auth":
		return statusReply("OK"), false
	case "echo":
		return args[len(args)-1], false
	case "quit":
		return statusReply("OK"), false
	case "command":
		return []reply{}, false
	case "cluster":
		if !c.isCl {
			return errReply("ERR This instance has cluster support disabled"), false
		}
		if len(args) > 1 && strings.ToLower(args[1]) == "slots" {
			var out []reply
			for _, n := range c.nodes {
				h, p, _ := net.SplitHostPort(n.ln.Addr().String())
				pi, _ := strconv.Atoi(p)
				out = append(out, []reply{int64(n.lo), int64(n.hi), []reply{h, int64(pi), fmt.Sprintf("%040x", n.id+1), []reply{}}})
			}
			return out, false
		}
		return errReply("ERR unknown subcommand"), false
	}
	switch name {
	case "watch", "unwatch":
		return statusReply("OK"), false
	case "multi":
		s.multi, s.bad, s.queue = true, false, nil
		return statusReply("OK"), false
	case "discard":
		s.multi = false
		return statusReply("OK"), false
	case "exec":
		if !s.multi {
			return errReply("ERR EXEC without MULTI"), false
		}
		s.multi = false
		if s.bad {
			return errReply("EXECABORT Transaction discarded because of previous errors."), false
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		out := []reply{}
		for _, q := range s.queue {
			r, d := s.one(strings.ToLower(q[0]), q[1:])
			if d {
				return nil, true
			}
			out = append(out, r)
		}
		return out, false
	}
	if s.multi {
		if ks := keysOf(name, args[1:]); c.isCl && len(ks) > 0 && c.owner(ks[0]) != s.n {
			s.bad = true
			return errReply(fmt.Sprintf("MOVED %d %s", Slot(ks[0]), c.owner(ks[0]).ln.Addr())), false
		}
		s.queue = append(s.queue, args)
		return statusReply("QUEUED"), false
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return s.one(name, args[1:])
}

// one runs a data command with the lock held.
func (s *session) one(name string, a []string) (rep reply, drop bool) {
	c := s.n.c
	cmd := &Command{N: c.n, Node: s.n.id, Name: name, Args: a}
	c.n++
	if c.latency != nil {
		f := c.latency
		c.mu.Unlock()
		f(cmd)
		c.mu.Lock()
	}
	act := Pass
	if c.fault != nil {
		act = c.fault(cmd)
	}
	switch act {
	case FailErr:
		cmd.Err = "ERR injected fault"
		if c.onCmd != nil {
			c.onCmd(cmd)
		}
		return errReply("ERR injected fault"), false
	case DropReq:
		return nil, true
	}
	rep = s.n.exec(cmd)
	if e, ok := rep.(errReply); ok {
		cmd.Err = string(e)
	}
	if c.onCmd != nil {
		c.onCmd(cmd)
	}
	switch act {
	case DoneErr:
		return errReply("ERR injected fault"), false
	case DropDone:
		return nil, true
	}
	return rep, false
}

func wrongArgs(n string) reply {
	return errReply("ERR wrong number of arguments for '" + n + "' command")
}

const (
	errWrongType = errReply("WRONGTYPE Operation against a key holding the wrong kind of value")
	errNotFloat  = errReply("ERR value is not a valid float")
	errMinMax    = errReply("ERR min or max is not a float")
	errNotInt    = errReply("ERR value is not an integer or out of range")
	errSyntax    = errReply("ERR syntax error")
)

// keysOf gives the keys a command names (nil for keyless).
func keysOf(name string, a []string) []string {
	switch name {
	case "del", "unlink", "exists", "mget", "touch":
		return a
	case "get", "set", "zadd", "zrem", "zscore", "zrange", "zrangebyscore", "zrevrangebyscore", "zcard", "zcount", "zmscore", "zpopmin", "type", "expire", "setnx", "zrevrange", "zrank", "ttl", "incr", "decr", "zincrby", "zremrangebyscore":
		if len(a) > 0 {
			return a[:1]
		}
	case "eval", "evalsha":
		if len(a) >= 2 {
			n, err := strconv.Atoi(a[1])
			if err == nil && n >= 0 && n <= len(a)-2 {
				return a[2 : 2+n]
			}
		}
	}
	return nil
}

// exec runs with the lock held.
func (n *node) exec(cmd *Command) reply {
	name, a := cmd.Name, cmd.Args
	cmd.Keys = append([]string(nil), keysOf(name, a)...)
	if len(cmd.Keys) > 0 {
		s0 := Slot(cmd.Keys[0])
		for _, k := range cmd.Keys {
			if Slot(k) != s0 {
				cmd.Bad = "keys in several slots"
				if n.c.isCl {
					return errReply("CROSSSLOT Keys in request don't hash to the same slot")
				}
				break
			}
		}
		if n.c.isCl && (s0 < n.lo || s0 > n.hi) {
			return errReply(fmt.Sprintf("MOVED %d %s", s0, n.c.owner(cmd.Keys[0]).ln.Addr()))
		}
	}
	switch name {
	case "eval", "evalsha":
		cmd.Script = true
		if len(a) < 2 {
			return wrongArgs(name)
		}
		k, err := strconv.Atoi(a[1])
		if err != nil {
			return errNotInt
		}
		if k < 0 || k > len(a)-2 {
			return errReply("ERR Number of keys can't be greater than number of args")
		}
		var ch *chunk
		if name == "eval" {
			sum := sha1.Sum([]byte(a[0]))
			h := hex.EncodeToString(sum[:])
			ch = n.scripts[h]
			if ch == nil {
				var err error
				ch, err = compile(a[0])
				if err != nil {
					return errReply("ERR Error compiling script (new function): " + err.Error())
				}
				n.scripts[h] = ch
			}
		} else {
			ch = n.scripts[strings.ToLower(a[0])]
			if ch == nil {
				return errReply("NOSCRIPT No matching script. Please use EVAL.")
			}
		}
		keys, argv := a[2:2+k], a[2+k:]
		declared := map[string]bool{}
		for _, x := range keys {
			declared[x] = true
		}
		out, err := ch.run(keys, argv, func(ss []string) reply {
			nm := strings.ToLower(ss[0])
			switch nm {
			case "eval", "evalsha", "scan", "script", "multi", "exec":
				if nm != "scan" {
					return errReply("ERR This Redis command is not allowed from script")
				}
			}
			for _, x := range keysOf(nm, ss[1:]) {
				if !declared[x] {
					cmd.Bad = "script touches undeclared key " + x
					cmd.Keys = append(cmd.Keys, x)
					if n.c.isCl && (Slot(x) < n.lo || Slot(x) > n.hi) {
						return errReply("ERR Script attempted to access a non local key in a cluster node")
					}
				}
			}
			return n.data(nm, ss[1:])
		})
		if err != nil {
			m := err.Error()
			if !strings.HasPrefix(m, "ERR") && !strings.HasPrefix(m, "WRONGTYPE") && !strings.HasPrefix(m, "CROSSSLOT") {
				m = "ERR " + m
			}
			return errReply(m + " script: f_")
		}
		return fromLua(out)
	case "script":
		if len(a) >= 1 {
			switch strings.ToLower(a[0]) {
			case "load":
				sum := sha1.Sum([]byte(a[1]))
				h := hex.EncodeToString(sum[:])
				ch, err := compile(a[1])
				if err != nil {
					return errReply("ERR Error compiling script (new function): " + err.Error())
				}
				n.scripts[h] = ch
				return h
			case "exists":
				var out []reply
				for _, h := range a[1:] {
					if n.scripts[strings.ToLower(h)] != nil {
						out = append(out, int64(1))
					} else {
						out = append(out, int64(0))
					}
				}
				return out
			case "flush":
				n.scripts = map[string]*chunk{}
				return statusReply("OK")
			}
		}
		return errReply("ERR unknown subcommand")
	}
	return n.data(name, a)
}

func (n *node) z(k string, create bool) (*zset, bool) {
	v, ok := n.keys[k]
	if !ok {
		if !create {
			return nil, true
		}
		z := newZset()
		n.keys[k] = z
		return z, true
	}
	z, ok := v.(*zset)
	return z, ok
}

func strs(e []zent, withScores bool) []reply {
	out := []reply{}
	for _, x := range e {
		out = append(out, x.m)
		if withScores {
			out = append(out, fmtScore(x.s))
		}
	}
	return out
}

func (n *node) data(name string, a []string) reply {
	need := func(k int) bool { return len(a) >= k }
	switch name {
	case "zadd":
		if !need(3) {
			return wrongArgs(name)
		}
		i := 1
		nx, xx, ch, gt, lt, incr := false, false, false, false, false, false
	flags:
		for i < len(a) {
			switch strings.ToLower(a[i]) {
			case "nx":
				nx = true
			case "xx":
				xx = true
			case "ch":
				ch = true
			case "gt":
				gt = true
			case "lt":
				lt = true
			case "incr":
				incr = true
			default:
				break flags
			}
			i++
		}
		if incr {
			return errReply("ERR not supported by the stand-in")
		}
		rest := a[i:]
		if len(rest) == 0 || len(rest)%2 != 0 {
			return errSyntax
		}
		sc := make([]float64, len(rest)/2)
		for j := range sc {
			v, ok := parseScore(rest[2*j])
			if !ok {
				return errNotFloat
			}
			sc[j] = v
		}
		z, ok := n.z(a[0], true)
		if !ok {
			return errWrongType
		}
		added, changed := int64(0), int64(0)
		for j, s := range sc {
			m := rest[2*j+1]
			old, has := z.m[m]
			if has && (nx || gt && s <= old || lt && s >= old) || !has && xx {
				continue
			}
			if has && old != s {
				changed++
			}
			if z.add(m, s) {
				added++
			}
		}
		if len(z.m) == 0 {
			delete(n.keys, a[0])
		}
		if ch {
			return added + changed
		}
		return added
	case "zrem":
		if !need(2) {
			return wrongArgs(name)
		}
		z, ok := n.z(a[0], false)
		if !ok {
			return errWrongType
		}
		if z == nil {
			return int64(0)
		}
		c := int64(0)
		for _, m := range a[1:] {
			if z.rem(m) {
				c++
			}
		}
		if len(z.m) == 0 {
			delete(n.keys, a[0])
		}
		return c
	case "zscore":
		if len(a) != 2 {
			return wrongArgs(name)
		}
		z, ok := n.z(a[0], false)
		if !ok {
			return errWrongType
		}
		if z == nil {
			return nil
		}
		if s, ok := z.m[a[1]]; ok {
			return dbl(s)
		}
		return nil
	case "zmscore":
		if !need(2) {
			return wrongArgs(name)
		}
		z, ok := n.z(a[0], false)
		if !ok {
			return errWrongType
		}
		out := []reply{}
		for _, m := range a[1:] {
			if z != nil {
				if s, ok := z.m[m]; ok {
					out = append(out, dbl(s))
					continue
				}
			}
			out = append(out, nil)
		}
		return out
	case "zcard":
		if len(a) != 1 {
			return wrongArgs(name)
		}
		z, ok := n.z(a[0], false)
		if !ok {
			return errWrongType
		}
		if z == nil {
			return int64(0)
		}
		return int64(len(z.m))
	case "zrange", "zrevrange":
		if !need(3) {
			return wrongArgs(name)
		}
		ws := false
		byScore, rev := false, name == "zrevrange"
		off, cnt := 0, -1
		for i := 3; i < len(a); i++ {
			switch strings.ToLower(a[i]) {
			case "withscores":
				ws = true
			case "byscore":
				byScore = true
			case "rev":
				rev = true
			case "limit":
				if i+2 >= len(a) {
					return errSyntax
				}
				var e1, e2 error
				off, e1 = strconv.Atoi(a[i+1])
				cnt, e2 = strconv.Atoi(a[i+2])
				if e1 != nil || e2 != nil {
					return errNotInt
				}
				i += 2
			default:
				return errSyntax
			}
		}
		z, ok := n.z(a[0], false)
		if !ok {
			return errWrongType
		}
		if byScore {
			return n.byScore(z, a[1], a[2], rev, off, cnt, ws)
		}
		x, e1 := strconv.Atoi(a[1])
		y, e2 := strconv.Atoi(a[2])
		if e1 != nil || e2 != nil {
			return errNotInt
		}
		if z == nil {
			return []reply{}
		}
		L := len(z.l)
		if x < 0 {
			x = max(L+x, 0)
		}
		if y < 0 {
			y = L + y
		}
		y = min(y, L-1)
		if x > y {
			return []reply{}
		}
		if rev {
			var e []zent
			for i := L - 1 - x; i >= L-1-y; i-- {
				e = append(e, z.l[i])
			}
			return strs(e, ws)
		}
		return strs(z.l[x:y+1], ws)
	case "zrangebyscore", "zrevrangebyscore":
		if !need(3) {
			return wrongArgs(name)
		}
		off, cnt := 0, -1
		ws := false
		for i := 3; i < len(a); i++ {
			switch strings.ToLower(a[i]) {
			case "withscores":
				ws = true
			case "limit":
				if i+2 >= len(a) {
					return errSyntax
				}
				var e1, e2 error
				off, e1 = strconv.Atoi(a[i+1])
				cnt, e2 = strconv.Atoi(a[i+2])
				if e1 != nil || e2 != nil {
					return errNotInt
				}
				i += 2
			default:
				return errSyntax
			}
		}
		z, ok := n.z(a[0], false)
		if !ok {
			return errWrongType
		}
		return n.byScore(z, a[1], a[2], name == "zrevrangebyscore", off, cnt, ws)
	case "zcount":
		if len(a) != 3 {
			return wrongArgs(name)
		}
		z, ok := n.z(a[0], false)
		if !ok {
			return errWrongType
		}
		r := n.byScore(z, a[1], a[2], false, 0, -1, false)
		if l, ok := r.([]reply); ok {
			return int64(len(l))
		}
		return r
	case "zremrangebyscore":
		if len(a) != 3 {
			return wrongArgs(name)
		}
		z, ok := n.z(a[0], false)
		if !ok {
			return errWrongType
		}
		r := n.byScore(z, a[1], a[2], false, 0, -1, false)
		l, ok := r.([]reply)
		if !ok {
			return r
		}
		for _, m := range l {
			z.rem(m.(string))
		}
		if z != nil && len(z.m) == 0 {
			delete(n.keys, a[0])
		}
		return int64(len(l))
	case "zincrby":
		if len(a) != 3 {
			return wrongArgs(name)
		}
		v, ok := parseScore(a[1])
		if !ok {
			return errNotFloat
		}
		z, ok := n.z(a[0], true)
		if !ok {
			return errWrongType
		}
		z.add(a[2], z.m[a[2]]+v)
		return dbl(z.m[a[2]])
	case "zrank":
		if len(a) != 2 {
			return wrongArgs(name)
		}
		z, ok := n.z(a[0], false)
		if !ok {
			return errWrongType
		}
		if z != nil {
			for i, e := range z.l {
				if e.m == a[1] {
					return int64(i)
				}
			}
		}
		return nil
	case "incr", "decr":
		if len(a) != 1 {
			return wrongArgs(name)
		}
		x, _ := n.keys[a[0]].(string)
		v, err := strconv.ParseInt("0"+x, 10, 64)
		if err != nil {
			return errNotInt
		}
		v += map[bool]int64{true: 1, false: -1}[name == "incr"]
		n.keys[a[0]] = strconv.FormatInt(v, 10)
		return v
	case "zpopmin":
		if !need(1) {
			return wrongArgs(name)
		}
		k := 1
		if len(a) > 1 {
			v, err := strconv.Atoi(a[1])
			if err != nil || v < 0 {
				return errNotInt
			}
			k = v
		}
		z, ok := n.z(a[0], false)
		if !ok {
			return errWrongType
		}
		out := []reply{}
		for z != nil && k > 0 && len(z.l) > 0 {
			e := z.l[0]
			z.rem(e.m)
			out = append(out, e.m, fmtScore(e.s))
			k--
		}
		if z != nil && len(z.m) == 0 {
			delete(n.keys, a[0])
		}
		return out
	case "get":
		if len(a) != 1 {
			return wrongArgs(name)
		}
		v, ok := n.keys[a[0]]
		if !ok {
			return nil
		}
		s, ok := v.(string)
		if !ok {
			return errWrongType
		}
		return s
	case "set":
		if !need(2) {
			return wrongArgs(name)
		}
		nx, xx := false, false
		for _, o := range a[2:] {
			switch strings.ToLower(o) {
			case "nx":
				nx = true
			case "xx":
				xx = true
			case "keepttl":
			default:
				return errReply("ERR option not supported by the stand-in")
			}
		}
		_, has := n.keys[a[0]]
		if nx && has || xx && !has {
			return nil
		}
		n.keys[a[0]] = a[1]
		return statusReply("OK")
	case "setnx":
		if len(a) != 2 {
			return wrongArgs(name)
		}
		if _, has := n.keys[a[0]]; has {
			return int64(0)
		}
		n.keys[a[0]] = a[1]
		return int64(1)
	case "mget":
		out := []reply{}
		for _, k := range a {
			if s, ok := n.keys[k].(string); ok {
				out = append(out, s)
			} else {
				out = append(out, nil)
			}
		}
		return out
	case "del", "unlink":
		if !need(1) {
			return wrongArgs(name)
		}
		c := int64(0)
		for _, k := range a {
			if _, ok := n.keys[k]; ok {
				delete(n.keys, k)
				c++
			}
		}
		return c
	case "exists":
		c := int64(0)
		for _, k := range a {
			if _, ok := n.keys[k]; ok {
				c++
			}
		}
		return c
	case "type":
		if len(a) != 1 {
			return wrongArgs(name)
		}
		switch n.keys[a[0]].(type) {
		case string:
			return statusReply("string")
		case *zset:
			return statusReply("zset")
		}
		return statusReply("none")
	case "dbsize":
		return int64(len(n.keys))
	case "flushdb", "flushall":
		n.keys = map[string]any{}
		return statusReply("OK")
	case "keys":
		if len(a) != 1 {
			return wrongArgs(name)
		}
		out := []reply{}
		for k := range n.keys {
			if glob(a[0], k) {
				out = append(out, k)
			}
		}
		return out
	case "scan":
		return n.scan(a)
	}
	return errReply("ERR unknown command '" + name + "', with args beginning with: ")
}

func (n *node) byScore(z *zset, lo, hi string, rev bool, off, cnt int, ws bool) reply {
	if rev {
		lo, hi = hi, lo
	}
	l, le, ok1 := bound(lo)
	h, he, ok2 := bound(hi)
	if !ok1 || !ok2 {
		return errMinMax
	}
	if z == nil || off < 0 {
		return []reply{}
	}
	i := sort.Search(len(z.l), func(i int) bool { return z.l[i].s > l || !le && z.l[i].s == l })
	j := sort.Search(len(z.l), func(i int) bool { return z.l[i].s > h || he && z.l[i].s == h })
	var e []zent
	if rev {
		for k := j - 1; k >= i; k-- {
			e = append(e, z.l[k])
		}
	} else if i < j {
		e = z.l[i:j]
	}
	if off >= len(e) {
		return []reply{}
	}
	e = e[off:]
	if cnt >= 0 && cnt < len(e) {
		e = e[:cnt]
	}
	return strs(e, ws)
}

func khash(k string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(k))
	return h.Sum64()>>16 | 1 // never 0
}

// scan walks the keys in hash order; the cursor is the hash reached.
func (n *node) scan(a []string) reply {
	if len(a) < 1 {
		return wrongArgs("scan")
	}
	cur, err := strconv.ParseUint(a[0], 10, 64)
	if err != nil {
		return errReply("ERR invalid cursor")
	}
	match, count, typ := "*", 10, ""
	for i := 1; i < len(a); i += 2 {
		if i+1 >= len(a) {
			return errSyntax
		}
		switch strings.ToLower(a[i]) {
		case "match":
			match = a[i+1]
		case "count":
			count, err = strconv.Atoi(a[i+1])
			if err != nil || count < 1 {
				return errSyntax
			}
		case "type":
			typ = a[i+1]
		default:
			return errSyntax
		}
	}
	hostile := n.c.ScanPage > 0
	if hostile {
		count = min(count, n.c.ScanPage)
	}
	type hk struct {
		h uint64
		k string
	}
	var all []hk
	for k := range n.keys {
		h := khash(k)
		if h > cur {
			all = append(all, hk{h, k})
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].h < all[j].h || all[i].h == all[j].h && all[i].k < all[j].k })
	next := uint64(0)
	end := len(all)
	if count < len(all) {
		end = count
		for end < len(all) && all[end].h == all[end-1].h {
			end++
		}
		if end < len(all) {
			next = all[end-1].h
		}
	}
	out := []reply{}
	for i, x := range all[:end] {
		if typ != "" {
			_, isZ := n.keys[x.k].(*zset)
			if isZ != (typ == "zset") {
				continue
			}
		}
		if glob(match, x.k) {
			out = append(out, x.k)
			if hostile && i == 0 { // SCAN may return an element several times
				out = append(out, x.k)
			}
		}
	}
	return []reply{strconv.FormatUint(next, 10), out}
}
