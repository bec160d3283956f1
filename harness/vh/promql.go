package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// A small evaluator for the queries of the Grafana dashboard: selectors, increase and rate between two scrapes,
// sum and max with by, histogram_quantile and division.

type series struct {
	labels map[string]string
	v      float64
}

// window is what was scraped at its beginning and at its end.
type window struct {
	from, to []sample
	seconds  float64
}

type promParser struct {
	s string
	i int
	w *window
}

func (p *promParser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t') {
		p.i++
	}
}

func (p *promParser) is(c string) bool {
	p.ws()
	if strings.HasPrefix(p.s[p.i:], c) {
		p.i += len(c)
		return true
	}
	return false
}

func (p *promParser) need(c string) {
	if !p.is(c) {
		panic(fmt.Errorf("expected %q at %q", c, p.s[p.i:]))
	}
}

func (p *promParser) word() string {
	p.ws()
	j := p.i
	for j < len(p.s) && (p.s[j] == '_' || p.s[j] == ':' || unicode.IsLetter(rune(p.s[j])) || unicode.IsDigit(rune(p.s[j]))) {
		j++
	}
	w := p.s[p.i:j]
	p.i = j
	return w
}

func (p *promParser) number() float64 {
	p.ws()
	j := p.i
	for j < len(p.s) && strings.ContainsRune("0123456789.+-e", rune(p.s[j])) {
		j++
	}
	f, err := strconv.ParseFloat(p.s[p.i:j], 64)
	if err != nil {
		panic(err)
	}
	p.i = j
	return f
}

func labelKey(l map[string]string) string {
	var ks []string
	for k, v := range l {
		ks = append(ks, k+"="+strconv.Quote(v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (p *promParser) by() (out []string, ok bool) {
	p.ws()
	at := p.i
	if p.word() != "by" {
		p.i = at
		return nil, false
	}
	p.need("(")
	for {
		out = append(out, p.word())
		if p.is(")") {
			return out, true
		}
		p.need(",")
	}
}

// selector reads NAME{...}[range] and returns its values at both ends.
func (p *promParser) selector(name string) (from, to []series) {
	var ms []func(map[string]string) bool
	if p.is("{") {
		for !p.is("}") {
			l := p.word()
			op := ""
			for _, o := range []string{"=~", "!~", "!=", "="} {
				if p.is(o) {
					op = o
					break
				}
			}
			p.need(`"`)
			j := strings.IndexByte(p.s[p.i:], '"')
			val := p.s[p.i : p.i+j]
			p.i += j + 1
			p.is(",")
			re := regexp.MustCompile("^(?:" + map[bool]string{true: val, false: regexp.QuoteMeta(val)}[strings.HasSuffix(op, "~")] + ")$")
			ms = append(ms, func(m map[string]string) bool { return re.MatchString(m[l]) != (op[0] == '!') })
		}
	}
	if p.is("[") {
		for !p.is("]") {
			p.i++
		}
	}
	pick := func(ss []sample) (out []series) {
	next:
		for _, s := range ss {
			if s.name != name {
				continue
			}
			for _, m := range ms {
				if !m(s.labels) {
					continue next
				}
			}
			out = append(out, series{s.labels, s.value})
		}
		return
	}
	return pick(p.w.from), pick(p.w.to)
}

func (p *promParser) expr() []series {
	l := p.term()
	for p.is("/") {
		r := map[string]float64{}
		for _, s := range p.term() {
			r[labelKey(s.labels)] = s.v
		}
		var out []series
		for _, s := range l {
			if d, ok := r[labelKey(s.labels)]; ok {
				out = append(out, series{s.labels, s.v / d})
			}
		}
		l = out
	}
	return l
}

func (p *promParser) term() []series {
	if p.is("(") {
		v := p.expr()
		p.need(")")
		return v
	}
	name := p.word()
	switch name {
	case "sum", "max", "min", "avg":
		by, ok := p.by()
		p.need("(")
		v := p.expr()
		p.need(")")
		if !ok {
			by, _ = p.by()
		}
		out, n, at := []series{}, []float64{}, map[string]int{}
		for _, s := range v {
			l := map[string]string{}
			for _, k := range by {
				if s.labels[k] != "" {
					l[k] = s.labels[k]
				}
			}
			k := labelKey(l)
			i, ok := at[k]
			if !ok {
				at[k] = len(out)
				out, n = append(out, series{l, s.v}), append(n, 1)
				continue
			}
			n[i]++
			switch name {
			case "max":
				out[i].v = math.Max(out[i].v, s.v)
			case "min":
				out[i].v = math.Min(out[i].v, s.v)
			default:
				out[i].v += s.v
			}
		}
		if name == "avg" {
			for i := range out {
				out[i].v /= n[i]
			}
		}
		return out
	case "increase", "rate", "irate":
		p.need("(")
		from, to := p.selector(p.word())
		p.need(")")
		was := map[string]float64{}
		for _, s := range from {
			was[labelKey(s.labels)] = s.v
		}
		var out []series
		for _, s := range to {
			v := s.v - was[labelKey(s.labels)]
			if name != "increase" {
				v /= p.w.seconds
			}
			out = append(out, series{s.labels, v})
		}
		return out
	case "histogram_quantile":
		p.need("(")
		q := p.number()
		p.need(",")
		v := p.expr()
		p.need(")")
		type bucket struct{ le, n float64 }
		groups, ls := map[string][]bucket{}, map[string]map[string]string{}
		for _, s := range v {
			le, err := strconv.ParseFloat(s.labels["le"], 64)
			if err != nil {
				continue
			}
			l := map[string]string{}
			for k, x := range s.labels {
				if k != "le" {
					l[k] = x
				}
			}
			groups[labelKey(l)] = append(groups[labelKey(l)], bucket{le, s.v})
			ls[labelKey(l)] = l
		}
		var out []series
		for k, b := range groups {
			sort.Slice(b, func(i, j int) bool { return b[i].le < b[j].le })
			total := b[len(b)-1].n
			if !math.IsInf(b[len(b)-1].le, 1) || total == 0 || len(b) < 2 {
				continue // nothing to show
			}
			rank := q * total
			i := sort.Search(len(b)-1, func(i int) bool { return b[i].n >= rank })
			var r float64
			switch {
			case i == len(b)-1:
				r = b[i-1].le
			case i == 0 && b[0].le <= 0:
				r = b[0].le
			default:
				lo, n := 0.0, 0.0
				if i > 0 {
					lo, n = b[i-1].le, b[i-1].n
				}
				r = lo + (b[i].le-lo)*(rank-n)/(b[i].n-n)
			}
			out = append(out, series{ls[k], r})
		}
		return out
	}
	_, to := p.selector(name)
	return to
}

// promEval evaluates a query over a window.
func promEval(q string, w *window) (out []series, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	p := &promParser{s: q, w: w}
	out = p.expr()
	p.ws()
	if p.i != len(q) {
		return nil, fmt.Errorf("unexpected %q", q[p.i:])
	}
	return out, nil
}

var legendLabel = regexp.MustCompile(`{{\s*(\w+)\s*}}`)

func legend(format string, l map[string]string) string {
	return strings.TrimSpace(legendLabel.ReplaceAllStringFunc(format, func(s string) string { return l[strings.Trim(s, "{} ")] }))
}
