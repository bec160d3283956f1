package fakeredis

// A tree-walking interpreter for the part of Lua 5.1 that Redis scripts use.

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
)

type luaErr struct{ msg string }

func lerr(f string, a ...any) { panic(luaErr{fmt.Sprintf(f, a...)}) }

// ---- lexer ----

type tok struct {
	k string // "name", "num", "str", "eof", or the operator/keyword itself
	s string
	n float64
	l int
}

var luaKw = map[string]bool{"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true, "false": true, "for": true, "function": true, "if": true, "in": true, "local": true, "nil": true, "not": true, "or": true, "repeat": true, "return": true, "then": true, "true": true, "until": true, "while": true}

func isAl(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDi(c byte) bool { return c >= '0' && c <= '9' }

func longBracket(s string, i int) int { // "[==[" at i: number of = or -1
	if i >= len(s) || s[i] != '[' {
		return -1
	}
	j := i + 1
	for j < len(s) && s[j] == '=' {
		j++
	}
	if j < len(s) && s[j] == '[' {
		return j - i - 1
	}
	return -1
}

func lex(s string) (out []tok) {
	line := 1
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--"):
			if n := longBracket(s, i+2); n >= 0 {
				end := strings.Index(s[i:], "]"+strings.Repeat("=", n)+"]")
				if end < 0 {
					lerr("unfinished long comment")
				}
				line += strings.Count(s[i:i+end], "\n")
				i += end + n + 2
				continue
			}
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case isAl(c):
			j := i
			for j < len(s) && (isAl(s[j]) || isDi(s[j])) {
				j++
			}
			w := s[i:j]
			if luaKw[w] {
				out = append(out, tok{k: w, l: line})
			} else {
				out = append(out, tok{k: "name", s: w, l: line})
			}
			i = j
		case isDi(c) || c == '.' && i+1 < len(s) && isDi(s[i+1]):
			j := i
			if strings.HasPrefix(s[i:], "0x") || strings.HasPrefix(s[i:], "0X") {
				j += 2
				for j < len(s) && (isDi(s[j]) || isAl(s[j])) {
					j++
				}
				v, err := strconv.ParseUint(s[i+2:j], 16, 64)
				if err != nil {
					lerr("malformed number near '%s'", s[i:j])
				}
				out = append(out, tok{k: "num", n: float64(v), l: line})
				i = j
				continue
			}
			for j < len(s) && (isDi(s[j]) || s[j] == '.' || s[j] == 'e' || s[j] == 'E' || (s[j] == '-' || s[j] == '+') && (s[j-1] == 'e' || s[j-1] == 'E')) {
				j++
			}
			v, err := strconv.ParseFloat(s[i:j], 64)
			if err != nil {
				lerr("malformed number near '%s'", s[i:j])
			}
			out = append(out, tok{k: "num", n: v, l: line})
			i = j
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(s) || s[j] == '\n' {
					lerr("unfinished string at line %d", line)
				}
				if s[j] == c {
					break
				}
				if s[j] == '\\' {
					j++
					if j >= len(s) {
						lerr("unfinished string")
					}
					switch e := s[j]; {
					case e == 'n':
						b.WriteByte('\n')
					case e == 't':
						b.WriteByte('\t')
					case e == 'r':
						b.WriteByte('\r')
					case e == 'a':
						b.WriteByte(7)
					case e == 'b':
						b.WriteByte(8)
					case e == 'f':
						b.WriteByte(12)
					case e == 'v':
						b.WriteByte(11)
					case e == '\n':
						b.WriteByte('\n')
						line++
					case isDi(e):
						n := 0
						k := 0
						for ; k < 3 && j < len(s) && isDi(s[j]); k++ {
							n = n*10 + int(s[j]-'0')
							j++
						}
						b.WriteByte(byte(n))
						j--
					default:
						b.WriteByte(e)
					}
					j++
					continue
				}
				b.WriteByte(s[j])
				j++
			}
			out = append(out, tok{k: "str", s: b.String(), l: line})
			i = j + 1
		case c == '[' && longBracket(s, i) >= 0:
			n := longBracket(s, i)
			cl := "]" + strings.Repeat("=", n) + "]"
			st := i + n + 2
			end := strings.Index(s[st:], cl)
			if end < 0 {
				lerr("unfinished long string")
			}
			body := s[st : st+end]
			line += strings.Count(body, "\n")
			body = strings.TrimPrefix(body, "\n")
			out = append(out, tok{k: "str", s: body, l: line})
			i = st + end + len(cl)
		default:
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">="} {
				if strings.HasPrefix(s[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				if !strings.ContainsRune("+-*/%^#<>=(){}[];:,.", rune(c)) {
					lerr("unexpected symbol near '%c'", c)
				}
				op = string(c)
			}
			out = append(out, tok{k: op, l: line})
			i += len(op)
		}
	}
	return append(out, tok{k: "eof", l: line})
}

// ---- values ----

type table struct {
	arr  []any // 1..n, no nil
	m    map[any]any
	keys []any // insertion order of m, may hold deleted keys
}

type luaFn func(args []any) []any

func (t *table) get(k any) any {
	if f, ok := k.(float64); ok {
		if f >= 1 && f <= float64(len(t.arr)) && f == math.Floor(f) {
			return t.arr[int(f)-1]
		}
	}
	return t.m[k]
}

func (t *table) set(k, v any) {
	if f, ok := k.(float64); ok {
		if math.IsNaN(f) {
			lerr("table index is NaN")
		}
		if f == math.Floor(f) && f >= 1 {
			n := len(t.arr)
			if f <= float64(n) {
				if v == nil {
					i := int(f) - 1
					if i == n-1 {
						t.arr = t.arr[:i]
						return
					}
					for j := i + 1; j < n; j++ { // keep a border somewhere sensible
						t.put(float64(j+1), t.arr[j])
					}
					t.arr = t.arr[:i]
					return
				}
				t.arr[int(f)-1] = v
				return
			}
			if f == float64(n+1) && v != nil {
				t.arr = append(t.arr, v)
				delete(t.m, k)
				for {
					nk := float64(len(t.arr) + 1)
					nv, ok := t.m[nk]
					if !ok {
						return
					}
					t.arr = append(t.arr, nv)
					delete(t.m, nk)
				}
			}
		}
	}
	if k == nil {
		lerr("table index is nil")
	}
	t.put(k, v)
}

func (t *table) put(k, v any) {
	if v == nil {
		delete(t.m, k)
		return
	}
	if t.m == nil {
		t.m = map[any]any{}
	}
	if _, ok := t.m[k]; !ok {
		t.keys = append(t.keys, k)
	}
	t.m[k] = v
}

// next in iteration order: array part, then hash part.
func (t *table) next(k any) (any, any) {
	i := 0
	if k != nil {
		if f, ok := k.(float64); ok && f >= 1 && f <= float64(len(t.arr)) && f == math.Floor(f) {
			i = int(f)
		} else {
			i = len(t.arr)
		}
	}
	if i < len(t.arr) {
		return float64(i + 1), t.arr[i]
	}
	start := 0
	if k != nil {
		if f, ok := k.(float64); !ok || !(f >= 1 && f <= float64(len(t.arr)) && f == math.Floor(f)) {
			start = len(t.keys)
			for j, kk := range t.keys {
				if kk == k {
					start = j + 1
				}
			}
		}
	}
	for j := start; j < len(t.keys); j++ {
		if v, ok := t.m[t.keys[j]]; ok {
			return t.keys[j], v
		}
	}
	return nil, nil
}

func truthy(v any) bool {
	if v == nil {
		return false
	}
	b, ok := v.(bool)
	return !ok || b
}

func typeName(v any) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *table:
		return "table"
	}
	return "function"
}

func fmtG(f float64, prec int) string {
	switch {
	case math.IsInf(f, 1):
		return "inf"
	case math.IsInf(f, -1):
		return "-inf"
	case math.IsNaN(f):
		return "nan"
	}
	// C's %.{prec}g
	if f == 0 {
		if math.Signbit(f) {
			return "-0"
		}
		return "0"
	}
	e := strconv.FormatFloat(f, 'e', prec-1, 64)
	x, _ := strconv.Atoi(e[strings.IndexByte(e, 'e')+1:])
	if x < -4 || x >= prec {
		m := e[:strings.IndexByte(e, 'e')]
		if strings.Contains(m, ".") {
			m = strings.TrimRight(strings.TrimRight(m, "0"), ".")
		}
		sg := "+"
		if x < 0 {
			sg = "-"
			x = -x
		}
		return fmt.Sprintf("%se%s%02d", m, sg, x)
	}
	r := strconv.FormatFloat(f, 'f', prec-1-x, 64)
	if strings.Contains(r, ".") {
		r = strings.TrimRight(strings.TrimRight(r, "0"), ".")
	}
	return r
}

func toStr(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return fmtG(x, 14)
	case string:
		return x
	}
	return fmt.Sprintf("%s: %p", typeName(v), v)
}

func strToNum(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	if s == "" {
		return 0, false
	}
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return float64(v), err == nil
	}
	l := strings.ToLower(s)
	switch l {
	case "inf", "+inf", "infinity":
		return math.Inf(1), true
	case "-inf":
		return math.Inf(-1), true
	}
	if strings.Contains(l, "_") || strings.Contains(l, "nan") || strings.Contains(l, "p") {
		return 0, false
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
			return v, true
		}
		return 0, false
	}
	return v, true
}

func toNum(v any) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case string:
		return strToNum(x)
	}
	return 0, false
}

// ---- parser: compiles to closures ----

type env struct {
	vars   map[string]*any
	parent *env
}

func (e *env) find(n string) *any {
	for ; e != nil; e = e.parent {
		if p, ok := e.vars[n]; ok {
			return p
		}
	}
	return nil
}

func (e *env) decl(n string, v any) {
	if e.vars == nil {
		e.vars = map[string]*any{}
	}
	p := new(any)
	*p = v
	e.vars[n] = p
}

type interp struct {
	globals map[string]any
	steps   int
}

const (
	ctlNone = iota
	ctlBreak
	ctlReturn
)

type stmt func(in *interp, e *env) (int, []any)
type expr func(in *interp, e *env) []any // may give several values

type parser struct {
	t []tok
	i int
}

func (p *parser) peek() string { return p.t[p.i].k }
func (p *parser) line() int    { return p.t[p.i].l }
func (p *parser) adv() tok     { t := p.t[p.i]; p.i++; return t }
func (p *parser) accept(k string) bool {
	if p.peek() == k {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(k string) tok {
	if p.peek() != k {
		lerr("user_script:%d: '%s' expected near '%s'", p.line(), k, p.desc())
	}
	return p.adv()
}
func (p *parser) desc() string {
	t := p.t[p.i]
	if t.s != "" {
		return t.s
	}
	return t.k
}

type chunk struct{ body stmt }

func compile(src string) (c *chunk, err error) {
	defer func() {
		if r := recover(); r != nil {
			if le, ok := r.(luaErr); ok {
				err = fmt.Errorf("%s", le.msg)
				return
			}
			panic(r)
		}
	}()
	p := &parser{t: lex(src)}
	b := p.block()
	p.expect("eof")
	return &chunk{b}, nil
}

func first(v []any) any {
	if len(v) == 0 {
		return nil
	}
	return v[0]
}

func (in *interp) tick() {
	in.steps++
	if in.steps > 50_000_000 {
		lerr("script runs too long")
	}
}

func (p *parser) block() stmt {
	var ss []stmt
	for {
		switch p.peek() {
		case "eof", "end", "else", "elseif", "until":
			goto done
		case "return":
			p.adv()
			var es []expr
			switch p.peek() {
			case "eof", "end", "else", "elseif", "until", ";":
			default:
				es = p.exprList()
			}
			p.accept(";")
			ss = append(ss, func(in *interp, e *env) (int, []any) { return ctlReturn, evalList(in, e, es) })
			switch p.peek() {
			case "eof", "end", "else", "elseif", "until":
			default:
				lerr("user_script:%d: '<eof>' expected near '%s'", p.line(), p.desc())
			}
			goto done
		case "break":
			p.adv()
			p.accept(";")
			ss = append(ss, func(*interp, *env) (int, []any) { return ctlBreak, nil })
		default:
			ss = append(ss, p.stmt())
			p.accept(";")
		}
	}
done:
	return func(in *interp, e *env) (int, []any) {
		for _, s := range ss {
			in.tick()
			if c, v := s(in, e); c != ctlNone {
				return c, v
			}
		}
		return ctlNone, nil
	}
}

func evalList(in *interp, e *env, es []expr) (out []any) {
	for i, x := range es {
		v := x(in, e)
		if i == len(es)-1 {
			out = append(out, v...)
		} else {
			out = append(out, first(v))
		}
	}
	return
}

func (p *parser) exprList() (es []expr) {
	es = append(es, p.expr(0))
	for p.accept(",") {
		es = append(es, p.expr(0))
	}
	return
}

func (p *parser) stmt() stmt {
	ln := p.line()
	switch p.peek() {
	case "if":
		p.adv()
		var conds []expr
		var bodies []stmt
		var els stmt
		conds = append(conds, p.expr(0))
		p.expect("then")
		bodies = append(bodies, p.block())
		for {
			if p.accept("elseif") {
				conds = append(conds, p.expr(0))
				p.expect("then")
				bodies = append(bodies, p.block())
				continue
			}
			if p.accept("else") {
				els = p.block()
			}
			p.expect("end")
			break
		}
		return func(in *interp, e *env) (int, []any) {
			for i, c := range conds {
				if truthy(first(c(in, e))) {
					return bodies[i](in, &env{parent: e})
				}
			}
			if els != nil {
				return els(in, &env{parent: e})
			}
			return ctlNone, nil
		}
	case "while":
		p.adv()
		c := p.expr(0)
		p.expect("do")
		b := p.block()
		p.expect("end")
		return func(in *interp, e *env) (int, []any) {
			for truthy(first(c(in, e))) {
				in.tick()
				if ct, v := b(in, &env{parent: e}); ct == ctlBreak {
					break
				} else if ct == ctlReturn {
					return ct, v
				}
			}
			return ctlNone, nil
		}
	case "repeat":
		p.adv()
		b := p.block()
		p.expect("until")
		c := p.expr(0)
		return func(in *interp, e *env) (int, []any) {
			for {
				in.tick()
				ne := &env{parent: e}
				if ct, v := b(in, ne); ct == ctlBreak {
					break
				} else if ct == ctlReturn {
					return ct, v
				}
				if truthy(first(c(in, ne))) {
					break
				}
			}
			return ctlNone, nil
		}
	case "do":
		p.adv()
		b := p.block()
		p.expect("end")
		return func(in *interp, e *env) (int, []any) { return b(in, &env{parent: e}) }
	case "for":
		p.adv()
		n := p.expect("name").s
		if p.accept("=") {
			a := p.expr(0)
			p.expect(",")
			b := p.expr(0)
			var st expr
			if p.accept(",") {
				st = p.expr(0)
			}
			p.expect("do")
			body := p.block()
			p.expect("end")
			return func(in *interp, e *env) (int, []any) {
				x, ok1 := toNum(first(a(in, e)))
				y, ok2 := toNum(first(b(in, e)))
				s, ok3 := 1.0, true
				if st != nil {
					s, ok3 = toNum(first(st(in, e)))
				}
				if !ok1 || !ok2 || !ok3 {
					lerr("user_script:%d: 'for' limit must be a number", ln)
				}
				for ; s > 0 && x <= y || s <= 0 && x >= y; x += s {
					in.tick()
					ne := &env{parent: e}
					ne.decl(n, x)
					if ct, v := body(in, ne); ct == ctlBreak {
						break
					} else if ct == ctlReturn {
						return ct, v
					}
				}
				return ctlNone, nil
			}
		}
		ns := []string{n}
		for p.accept(",") {
			ns = append(ns, p.expect("name").s)
		}
		p.expect("in")
		es := p.exprList()
		p.expect("do")
		body := p.block()
		p.expect("end")
		return func(in *interp, e *env) (int, []any) {
			vs := evalList(in, e, es)
			for len(vs) < 3 {
				vs = append(vs, nil)
			}
			f, s, c := vs[0], vs[1], vs[2]
			for {
				in.tick()
				r := in.call(f, []any{s, c}, ln)
				if first(r) == nil {
					break
				}
				c = r[0]
				ne := &env{parent: e}
				for i, n := range ns {
					if i < len(r) {
						ne.decl(n, r[i])
					} else {
						ne.decl(n, nil)
					}
				}
				if ct, v := body(in, ne); ct == ctlBreak {
					break
				} else if ct == ctlReturn {
					return ct, v
				}
			}
			return ctlNone, nil
		}
	case "function":
		p.adv()
		lerr("user_script:%d: Script attempted to create global variable '%s'", ln, p.desc())
	case "local":
		p.adv()
		if p.accept("function") {
			n := p.expect("name").s
			f := p.funcBody(n)
			return func(in *interp, e *env) (int, []any) {
				e.decl(n, nil)
				*e.find(n) = first(f(in, e))
				return ctlNone, nil
			}
		}
		ns := []string{p.expect("name").s}
		for p.accept(",") {
			ns = append(ns, p.expect("name").s)
		}
		var es []expr
		if p.accept("=") {
			es = p.exprList()
		}
		return func(in *interp, e *env) (int, []any) {
			vs := evalList(in, e, es)
			for i, n := range ns {
				if i < len(vs) {
					e.decl(n, vs[i])
				} else {
					e.decl(n, nil)
				}
			}
			return ctlNone, nil
		}
	}
	// expression statement or assignment
	type target struct {
		name     string
		obj, key expr
	}
	parseTarget := func() (target, expr, bool) {
		return target{}, nil, false
	}
	_ = parseTarget
	pe := p.primary()
	if p.peek() != "=" && p.peek() != "," {
		if !pe.call {
			lerr("user_script:%d: syntax error near '%s'", ln, p.desc())
		}
		f := pe.eval
		return func(in *interp, e *env) (int, []any) { f(in, e); return ctlNone, nil }
	}
	targets := []prim{pe}
	for p.accept(",") {
		targets = append(targets, p.primary())
	}
	p.expect("=")
	es := p.exprList()
	return func(in *interp, e *env) (int, []any) {
		vs := evalList(in, e, es)
		for i, t := range targets {
			var v any
			if i < len(vs) {
				v = vs[i]
			}
			if t.name != "" {
				if q := e.find(t.name); q != nil {
					*q = v
				} else {
					lerr("user_script:%d: Script attempted to create global variable '%s'", ln, t.name)
				}
				continue
			}
			if t.obj == nil {
				lerr("user_script:%d: cannot assign", ln)
			}
			o, ok := first(t.obj(in, e)).(*table)
			if !ok {
				lerr("user_script:%d: attempt to index a %s value", ln, typeName(first(t.obj(in, e))))
			}
			o.set(first(t.key(in, e)), v)
		}
		return ctlNone, nil
	}
}

type prim struct {
	name     string
	obj, key expr
	call     bool
	eval     expr
}

func (in *interp) call(f any, args []any, ln int) []any {
	g, ok := f.(luaFn)
	if !ok {
		lerr("user_script:%d: attempt to call a %s value", ln, typeName(f))
	}
	return g(args)
}

func (in *interp) index(o, k any, ln int) any {
	switch t := o.(type) {
	case *table:
		return t.get(k)
	case string:
		if s, ok := in.globals["string"].(*table); ok {
			return s.get(k)
		}
	}
	lerr("user_script:%d: attempt to index a %s value", ln, typeName(o))
	return nil
}

func (p *parser) primary() prim {
	ln := p.line()
	var cur prim
	switch p.peek() {
	case "name":
		n := p.adv().s
		cur = prim{name: n, eval: func(in *interp, e *env) []any {
			if q := e.find(n); q != nil {
				return []any{*q}
			}
			v, ok := in.globals[n]
			if !ok {
				lerr("user_script:%d: Script attempted to access nonexistent global variable '%s'", ln, n)
			}
			return []any{v}
		}}
	case "(":
		p.adv()
		x := p.expr(0)
		p.expect(")")
		cur = prim{eval: func(in *interp, e *env) []any { return []any{first(x(in, e))} }}
	default:
		lerr("user_script:%d: unexpected symbol near '%s'", ln, p.desc())
	}
	for {
		ln := p.line()
		prev := cur.eval
		switch p.peek() {
		case ".":
			p.adv()
			n := p.expect("name").s
			k := expr(func(*interp, *env) []any { return []any{n} })
			cur = prim{obj: prev, key: k, eval: func(in *interp, e *env) []any { return []any{in.index(first(prev(in, e)), n, ln)} }}
		case "[":
			p.adv()
			k := p.expr(0)
			p.expect("]")
			cur = prim{obj: prev, key: k, eval: func(in *interp, e *env) []any {
				return []any{in.index(first(prev(in, e)), first(k(in, e)), ln)}
			}}
		case ":":
			p.adv()
			n := p.expect("name").s
			as := p.args()
			cur = prim{call: true, eval: func(in *interp, e *env) []any {
				o := first(prev(in, e))
				return in.call(in.index(o, n, ln), append([]any{o}, evalList(in, e, as)...), ln)
			}}
		case "(", "str", "{":
			as := p.args()
			cur = prim{call: true, eval: func(in *interp, e *env) []any {
				f := first(prev(in, e))
				in.tick()
				return in.call(f, evalList(in, e, as), ln)
			}}
		default:
			return cur
		}
	}
}

func (p *parser) args() []expr {
	switch p.peek() {
	case "str":
		s := p.adv().s
		return []expr{func(*interp, *env) []any { return []any{s} }}
	case "{":
		return []expr{p.tableCons()}
	}
	p.expect("(")
	if p.accept(")") {
		return nil
	}
	es := p.exprList()
	p.expect(")")
	return es
}

func (p *parser) tableCons() expr {
	p.expect("{")
	type item struct{ k, v expr }
	var items []item
	for p.peek() != "}" {
		if p.peek() == "[" {
			p.adv()
			k := p.expr(0)
			p.expect("]")
			p.expect("=")
			items = append(items, item{k, p.expr(0)})
		} else if p.peek() == "name" && p.t[p.i+1].k == "=" {
			n := p.adv().s
			p.adv()
			items = append(items, item{func(*interp, *env) []any { return []any{n} }, p.expr(0)})
		} else {
			items = append(items, item{nil, p.expr(0)})
		}
		if !p.accept(",") && !p.accept(";") {
			break
		}
	}
	p.expect("}")
	return func(in *interp, e *env) []any {
		t := &table{}
		n := 0
		for i, it := range items {
			if it.k != nil {
				t.set(first(it.k(in, e)), first(it.v(in, e)))
				continue
			}
			vs := it.v(in, e)
			if i < len(items)-1 {
				vs = []any{first(vs)}
			}
			for _, v := range vs {
				n++
				t.set(float64(n), v)
			}
		}
		return []any{t}
	}
}

func (p *parser) funcBody(name string) expr {
	p.expect("(")
	var ps []string
	va := false
	for p.peek() != ")" {
		if p.accept("...") {
			va = true
			break
		}
		ps = append(ps, p.expect("name").s)
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	b := p.block()
	p.expect("end")
	return func(in *interp, e *env) []any {
		depth := 0
		return []any{luaFn(func(args []any) []any {
			depth++
			if depth > 190 {
				lerr("stack overflow")
			}
			defer func() { depth-- }()
			ne := &env{parent: e}
			for i, n := range ps {
				if i < len(args) {
					ne.decl(n, args[i])
				} else {
					ne.decl(n, nil)
				}
			}
			if va {
				var rest []any
				if len(args) > len(ps) {
					rest = args[len(ps):]
				}
				ne.decl("...", rest)
			}
			_, v := b(in, ne)
			return v
		})}
	}
}

var binPrec = map[string][2]int{"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3}, "..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9}}

const unaryPrec = 8

func (p *parser) expr(limit int) expr {
	var l expr
	ln := p.line()
	switch p.peek() {
	case "not":
		p.adv()
		x := p.expr(unaryPrec)
		l = func(in *interp, e *env) []any { return []any{!truthy(first(x(in, e)))} }
	case "-":
		p.adv()
		x := p.expr(unaryPrec)
		l = func(in *interp, e *env) []any {
			n, ok := toNum(first(x(in, e)))
			if !ok {
				lerr("user_script:%d: attempt to perform arithmetic on a %s value", ln, typeName(first(x(in, e))))
			}
			return []any{-n}
		}
	case "#":
		p.adv()
		x := p.expr(unaryPrec)
		l = func(in *interp, e *env) []any {
			switch v := first(x(in, e)).(type) {
			case string:
				return []any{float64(len(v))}
			case *table:
				return []any{float64(len(v.arr))}
			default:
				lerr("user_script:%d: attempt to get length of a %s value", ln, typeName(v))
			}
			return nil
		}
	case "nil":
		p.adv()
		l = func(*interp, *env) []any { return []any{nil} }
	case "true":
		p.adv()
		l = func(*interp, *env) []any { return []any{true} }
	case "false":
		p.adv()
		l = func(*interp, *env) []any { return []any{false} }
	case "num":
		n := p.adv().n
		l = func(*interp, *env) []any { return []any{n} }
	case "str":
		s := p.adv().s
		l = func(*interp, *env) []any { return []any{s} }
	case "...":
		p.adv()
		l = func(in *interp, e *env) []any {
			if q := e.find("..."); q != nil {
				r, _ := (*q).([]any)
				return r
			}
			return nil
		}
	case "{":
		l = p.tableCons()
	case "function":
		p.adv()
		l = p.funcBody("")
	default:
		l = p.primary().eval
	}
	for {
		op := p.peek()
		pr, ok := binPrec[op]
		if !ok || pr[0] <= limit {
			return l
		}
		ln := p.line()
		p.adv()
		r := p.expr(pr[1])
		a := l
		switch op {
		case "and":
			l = func(in *interp, e *env) []any {
				v := first(a(in, e))
				if !truthy(v) {
					return []any{v}
				}
				return []any{first(r(in, e))}
			}
		case "or":
			l = func(in *interp, e *env) []any {
				v := first(a(in, e))
				if truthy(v) {
					return []any{v}
				}
				return []any{first(r(in, e))}
			}
		default:
			l = func(in *interp, e *env) []any { return []any{binop(op, first(a(in, e)), first(r(in, e)), ln)} }
		}
	}
}

func binop(op string, x, y any, ln int) any {
	switch op {
	case "==":
		return x == y
	case "~=":
		return x != y
	case "..":
		for _, v := range []any{x, y} {
			if t := typeName(v); t != "string" && t != "number" {
				lerr("user_script:%d: attempt to concatenate a %s value", ln, t)
			}
		}
		return toStr(x) + toStr(y)
	case "<", ">", "<=", ">=":
		if a, ok := x.(string); ok {
			if b, ok := y.(string); ok {
				switch op {
				case "<":
					return a < b
				case ">":
					return a > b
				case "<=":
					return a <= b
				}
				return a >= b
			}
		}
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if !ok1 || !ok2 {
			lerr("user_script:%d: attempt to compare %s with %s", ln, typeName(x), typeName(y))
		}
		switch op {
		case "<":
			return a < b
		case ">":
			return a > b
		case "<=":
			return a <= b
		}
		return a >= b
	}
	a, ok1 := toNum(x)
	b, ok2 := toNum(y)
	if !ok1 || !ok2 {
		lerr("user_script:%d: attempt to perform arithmetic on a %s value", ln, typeName(map[bool]any{true: x, false: y}[!ok1]))
	}
	switch op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		return a / b
	case "%":
		return a - math.Floor(a/b)*b
	}
	return math.Pow(a, b)
}

const maxUnpack = 7990 // LUAI_MAXCSTACK less what the call itself uses

func tbl(kv ...any) *table {
	t := &table{}
	for i := 0; i+1 < len(kv); i += 2 {
		t.set(kv[i], kv[i+1])
	}
	return t
}

func arg(a []any, i int) any {
	if i < len(a) {
		return a[i]
	}
	return nil
}

func argT(a []any, i int, fn string) *table {
	t, ok := arg(a, i).(*table)
	if !ok {
		lerr("bad argument #%d to '%s' (table expected, got %s)", i+1, fn, typeName(arg(a, i)))
	}
	return t
}

func argN(a []any, i int, fn string) float64 {
	n, ok := toNum(arg(a, i))
	if !ok {
		lerr("bad argument #%d to '%s' (number expected, got %s)", i+1, fn, typeName(arg(a, i)))
	}
	return n
}

func argS(a []any, i int, fn string) string {
	switch v := arg(a, i).(type) {
	case string:
		return v
	case float64:
		return toStr(v)
	}
	lerr("bad argument #%d to '%s' (string expected, got %s)", i+1, fn, typeName(arg(a, i)))
	return ""
}

func stdlib() map[string]any {
	g := map[string]any{}
	ipairsIter := luaFn(func(a []any) []any {
		i := a[1].(float64) + 1
		v := a[0].(*table).get(i)
		if v == nil {
			return []any{nil}
		}
		return []any{i, v}
	})
	next := luaFn(func(a []any) []any {
		k, v := argT(a, 0, "next").next(arg(a, 1))
		if k == nil {
			return []any{nil}
		}
		return []any{k, v}
	})
	unpack := luaFn(func(a []any) []any {
		t := argT(a, 0, "unpack")
		i, j := 1, len(t.arr)
		if len(a) > 1 {
			i = int(argN(a, 1, "unpack"))
		}
		if len(a) > 2 {
			j = int(argN(a, 2, "unpack"))
		}
		if j-i+1 > maxUnpack {
			lerr("too many results to unpack")
		}
		var out []any
		for ; i <= j; i++ {
			out = append(out, t.get(float64(i)))
		}
		return out
	})
	g["ipairs"] = luaFn(func(a []any) []any { return []any{ipairsIter, argT(a, 0, "ipairs"), 0.0} })
	g["pairs"] = luaFn(func(a []any) []any { return []any{next, argT(a, 0, "pairs"), nil} })
	g["next"] = next
	g["unpack"] = unpack
	g["tostring"] = luaFn(func(a []any) []any { return []any{toStr(arg(a, 0))} })
	g["type"] = luaFn(func(a []any) []any { return []any{typeName(arg(a, 0))} })
	g["tonumber"] = luaFn(func(a []any) []any {
		if len(a) > 1 {
			b := int(argN(a, 1, "tonumber"))
			if b != 10 {
				v, err := strconv.ParseInt(strings.TrimSpace(argS(a, 0, "tonumber")), b, 64)
				if err != nil {
					return []any{nil}
				}
				return []any{float64(v)}
			}
		}
		if n, ok := toNum(arg(a, 0)); ok {
			return []any{n}
		}
		return []any{nil}
	})
	g["error"] = luaFn(func(a []any) []any { lerr("%s", toStr(arg(a, 0))); return nil })
	g["assert"] = luaFn(func(a []any) []any {
		if !truthy(arg(a, 0)) {
			m := "assertion failed!"
			if len(a) > 1 {
				m = toStr(a[1])
			}
			lerr("%s", m)
		}
		return a
	})
	g["select"] = luaFn(func(a []any) []any {
		if s, ok := arg(a, 0).(string); ok && s == "#" {
			return []any{float64(len(a) - 1)}
		}
		n := int(argN(a, 0, "select"))
		if n >= len(a) {
			return nil
		}
		return a[n:]
	})
	g["pcall"] = luaFn(func(a []any) (out []any) {
		defer func() {
			if r := recover(); r != nil {
				if le, ok := r.(luaErr); ok {
					out = []any{false, le.msg}
					return
				}
				panic(r)
			}
		}()
		f, ok := arg(a, 0).(luaFn)
		if !ok {
			lerr("attempt to call a %s value", typeName(arg(a, 0)))
		}
		return append([]any{true}, f(a[1:])...)
	})
	g["table"] = tbl(
		"insert", luaFn(func(a []any) []any {
			t := argT(a, 0, "insert")
			switch len(a) {
			case 2:
				t.set(float64(len(t.arr)+1), a[1])
			case 3:
				pos := int(argN(a, 1, "insert"))
				if pos < 1 || pos > len(t.arr)+1 {
					t.set(float64(pos), a[2])
					return nil
				}
				t.arr = append(t.arr, nil)
				copy(t.arr[pos:], t.arr[pos-1:])
				t.arr[pos-1] = a[2]
			default:
				lerr("wrong number of arguments to 'insert'")
			}
			return nil
		}),
		"remove", luaFn(func(a []any) []any {
			t := argT(a, 0, "remove")
			pos := len(t.arr)
			if len(a) > 1 {
				pos = int(argN(a, 1, "remove"))
			}
			if pos < 1 || pos > len(t.arr) {
				return []any{nil}
			}
			v := t.arr[pos-1]
			t.arr = append(t.arr[:pos-1], t.arr[pos:]...)
			return []any{v}
		}),
		"getn", luaFn(func(a []any) []any { return []any{float64(len(argT(a, 0, "getn").arr))} }),
		"concat", luaFn(func(a []any) []any {
			t := argT(a, 0, "concat")
			sep := ""
			if len(a) > 1 {
				sep = argS(a, 1, "concat")
			}
			var ss []string
			i, j := 1, len(t.arr)
			if len(a) > 2 {
				i = int(argN(a, 2, "concat"))
			}
			if len(a) > 3 {
				j = int(argN(a, 3, "concat"))
			}
			for ; i <= j; i++ {
				switch v := t.get(float64(i)).(type) {
				case string, float64:
					ss = append(ss, toStr(v))
				default:
					lerr("invalid value (%s) at index %d in table for 'concat'", typeName(v), i)
				}
			}
			return []any{strings.Join(ss, sep)}
		}),
		"sort", luaFn(func(a []any) []any {
			t := argT(a, 0, "sort")
			less := func(x, y any) bool { return binop("<", x, y, 0).(bool) }
			if f, ok := arg(a, 1).(luaFn); ok {
				less = func(x, y any) bool { return truthy(first(f([]any{x, y}))) }
			}
			sort.SliceStable(t.arr, func(i, j int) bool { return less(t.arr[i], t.arr[j]) })
			return nil
		}),
		"foreach", luaFn(func(a []any) []any {
			t := argT(a, 0, "foreach")
			f, ok := arg(a, 1).(luaFn)
			if !ok {
				lerr("bad argument #2 to 'foreach' (function expected)")
			}
			for k, v := t.next(nil); k != nil; k, v = t.next(k) {
				if r := f([]any{k, v}); len(r) > 0 && r[0] != nil {
					return r[:1]
				}
			}
			return nil
		}),
		"foreachi", luaFn(func(a []any) []any {
			t := argT(a, 0, "foreachi")
			f, ok := arg(a, 1).(luaFn)
			if !ok {
				lerr("bad argument #2 to 'foreachi' (function expected)")
			}
			for i := 0; i < len(t.arr); i++ {
				if r := f([]any{float64(i + 1), t.arr[i]}); len(r) > 0 && r[0] != nil {
					return r[:1]
				}
			}
			return nil
		}),
		"maxn", luaFn(func(a []any) []any { return []any{float64(len(argT(a, 0, "maxn").arr))} }),
	)
	g["rawget"] = luaFn(func(a []any) []any { return []any{argT(a, 0, "rawget").get(arg(a, 1))} })
	g["rawset"] = luaFn(func(a []any) []any { t := argT(a, 0, "rawset"); t.set(arg(a, 1), arg(a, 2)); return []any{t} })
	g["rawequal"] = luaFn(func(a []any) []any { return []any{binop("==", arg(a, 0), arg(a, 1), 0)} })
	one := func(f func(float64) float64, n string) luaFn {
		return func(a []any) []any { return []any{f(argN(a, 0, n))} }
	}
	g["math"] = tbl("huge", math.Inf(1), "pi", math.Pi,
		"floor", one(math.Floor, "floor"), "ceil", one(math.Ceil, "ceil"), "abs", one(math.Abs, "abs"), "sqrt", one(math.Sqrt, "sqrt"), "exp", one(math.Exp, "exp"), "log", one(math.Log, "log"),
		"fmod", luaFn(func(a []any) []any { return []any{math.Mod(argN(a, 0, "fmod"), argN(a, 1, "fmod"))} }),
		"pow", luaFn(func(a []any) []any { return []any{math.Pow(argN(a, 0, "pow"), argN(a, 1, "pow"))} }),
		"max", luaFn(func(a []any) []any {
			m := argN(a, 0, "max")
			for i := range a {
				m = math.Max(m, argN(a, i, "max"))
			}
			return []any{m}
		}),
		"min", luaFn(func(a []any) []any {
			m := argN(a, 0, "min")
			for i := range a {
				m = math.Min(m, argN(a, i, "min"))
			}
			return []any{m}
		}))
	sub := luaFn(func(a []any) []any {
		s := argS(a, 0, "sub")
		i, j := int(argN(a, 1, "sub")), -1
		if len(a) > 2 {
			j = int(argN(a, 2, "sub"))
		}
		if i < 0 {
			i = max(len(s)+i+1, 1)
		} else if i == 0 {
			i = 1
		}
		if j < 0 {
			j = len(s) + j + 1
		} else if j > len(s) {
			j = len(s)
		}
		if i > j {
			return []any{""}
		}
		return []any{s[i-1 : j]}
	})
	g["string"] = tbl("sub", sub,
		"len", luaFn(func(a []any) []any { return []any{float64(len(argS(a, 0, "len")))} }),
		"lower", luaFn(func(a []any) []any { return []any{strings.ToLower(argS(a, 0, "lower"))} }),
		"upper", luaFn(func(a []any) []any { return []any{strings.ToUpper(argS(a, 0, "upper"))} }),
		"reverse", luaFn(func(a []any) []any {
			b := []byte(argS(a, 0, "reverse"))
			slices.Reverse(b)
			return []any{string(b)}
		}),
		"byte", luaFn(func(a []any) []any {
			s, i := argS(a, 0, "byte"), 1
			if len(a) > 1 {
				i = int(argN(a, 1, "byte"))
			}
			if i < 0 {
				i += len(s) + 1
			}
			if i < 1 || i > len(s) {
				return nil
			}
			return []any{float64(s[i-1])}
		}),
		"char", luaFn(func(a []any) []any {
			b := []byte{}
			for i := range a {
				b = append(b, byte(argN(a, i, "char")))
			}
			return []any{string(b)}
		}),
		"find", luaFn(func(a []any) []any {
			s, p := argS(a, 0, "find"), argS(a, 1, "find")
			if strings.ContainsAny(p, "^$*+?.([%-") && !truthy(arg(a, 3)) {
				lerr("the stand-in knows no patterns")
			}
			if i := strings.Index(s, p); i >= 0 {
				return []any{float64(i + 1), float64(i + len(p))}
			}
			return []any{nil}
		}),
		"rep", luaFn(func(a []any) []any {
			return []any{strings.Repeat(argS(a, 0, "rep"), max(0, int(argN(a, 1, "rep"))))}
		}),
		"format", luaFn(func(a []any) []any {
			f := argS(a, 0, "format")
			var b strings.Builder
			n := 1
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					b.WriteByte(f[i])
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("-+ #0123456789.", f[j]) >= 0 {
					j++
				}
				if j >= len(f) {
					lerr("invalid format")
				}
				switch spec := f[i:j]; f[j] {
				case '%':
					b.WriteByte('%')
				case 'd', 'i':
					fmt.Fprintf(&b, spec+"d", int64(argN(a, n, "format")))
					n++
				case 's':
					fmt.Fprintf(&b, spec+"s", toStr(arg(a, n)))
					n++
				case 'f', 'e', 'x', 'X':
					if f[j] == 'x' || f[j] == 'X' {
						fmt.Fprintf(&b, f[i:j+1], int64(argN(a, n, "format")))
					} else {
						fmt.Fprintf(&b, f[i:j+1], argN(a, n, "format"))
					}
					n++
				case 'g':
					prec := 6
					if k := strings.IndexByte(spec, '.'); k >= 0 {
						prec, _ = strconv.Atoi(spec[k+1:])
					}
					b.WriteString(fmtG(argN(a, n, "format"), max(prec, 1)))
					n++
				default:
					lerr("invalid option '%%%c' to 'format'", f[j])
				}
				i = j
			}
			return []any{b.String()}
		}))
	return g
}

// run executes the chunk; call is redis.call's implementation.
func (c *chunk) run(keys, argv []string, call func(args []string) reply) (out any, err error) {
	defer func() {
		if r := recover(); r != nil {
			if le, ok := r.(luaErr); ok {
				err = fmt.Errorf("%s", le.msg)
				return
			}
			panic(r)
		}
	}()
	in := &interp{globals: stdlib()}
	list := func(ss []string) *table {
		t := &table{}
		for _, s := range ss {
			t.arr = append(t.arr, s)
		}
		return t
	}
	in.globals["KEYS"], in.globals["ARGV"] = list(keys), list(argv)
	doCall := func(a []any, protect bool) []any {
		if len(a) == 0 {
			lerr("Please specify at least one argument for this redis.call()")
		}
		ss := make([]string, len(a))
		for i, v := range a {
			switch x := v.(type) {
			case string:
				ss[i] = x
			case float64:
				ss[i] = fmtG(x, 17)
			default:
				lerr("ERR Lua redis lib command arguments must be strings or integers")
			}
		}
		r := call(ss)
		if e, ok := r.(errReply); ok {
			if protect {
				return []any{tbl("err", string(e))}
			}
			lerr("%s", string(e))
		}
		return []any{toLua(r)}
	}
	log := luaFn(func([]any) []any { return nil })
	in.globals["redis"] = tbl(
		"call", luaFn(func(a []any) []any { return doCall(a, false) }),
		"pcall", luaFn(func(a []any) []any { return doCall(a, true) }),
		"error_reply", luaFn(func(a []any) []any { return []any{tbl("err", argS(a, 0, "error_reply"))} }),
		"status_reply", luaFn(func(a []any) []any { return []any{tbl("ok", argS(a, 0, "status_reply"))} }),
		"log", log, "LOG_WARNING", 3.0, "LOG_NOTICE", 2.0, "LOG_DEBUG", 0.0, "LOG_VERBOSE", 1.0,
		"replicate_commands", luaFn(func([]any) []any { return []any{true} }))
	_, v := c.body(in, &env{})
	return first(v), nil
}

// ---- conversions between replies and Lua values ----

type reply any // nil, int64, string (bulk), statusReply, errReply, []reply, dbl
type statusReply string
type errReply string
type dbl float64

func toLua(r reply) any {
	switch x := r.(type) {
	case nil:
		return false
	case int64:
		return float64(x)
	case string:
		return x
	case dbl:
		return fmtScore(float64(x))
	case statusReply:
		return tbl("ok", string(x))
	case []reply:
		t := &table{}
		for i, e := range x {
			t.set(float64(i+1), toLua(e))
		}
		return t
	}
	return false
}

func fromLua(v any) reply {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if x {
			return int64(1)
		}
		return nil
	case float64:
		return int64(x)
	case string:
		return x
	case *table:
		if e, ok := x.get("err").(string); ok {
			return errReply(e)
		}
		if s, ok := x.get("ok").(string); ok {
			return statusReply(s)
		}
		out := []reply{}
		for i := 1; ; i++ {
			e := x.get(float64(i))
			if e == nil {
				break
			}
			out = append(out, fromLua(e))
		}
		return out
	}
	return nil
}

func fmtScore(f float64) string {
	if math.IsInf(f, 1) {
		return "inf"
	}
	if math.IsInf(f, -1) {
		return "-inf"
	}
	if f == math.Trunc(f) && math.Abs(f) < 1e17 {
		if f == 0 && math.Signbit(f) {
			return "-0"
		}
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return fmtG(f, 17)
}
