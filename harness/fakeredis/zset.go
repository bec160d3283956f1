package fakeredis

import (
	"math"
	"sort"
	"strings"
)

type zent struct {
	m string
	s float64
}

func zless(a, b zent) bool { return a.s < b.s || a.s == b.s && a.m < b.m }

type zset struct {
	m map[string]float64
	l []zent
}

func newZset() *zset { return &zset{m: map[string]float64{}} }

func (z *zset) pos(e zent) int {
	return sort.Search(len(z.l), func(i int) bool { return !zless(z.l[i], e) })
}

func (z *zset) add(m string, s float64) bool {
	old, ok := z.m[m]
	if ok {
		if old == s {
			return false
		}
		z.cut(zent{m, old})
	}
	z.m[m] = s
	e := zent{m, s}
	i := z.pos(e)
	z.l = append(z.l, zent{})
	copy(z.l[i+1:], z.l[i:])
	z.l[i] = e
	return !ok
}

func (z *zset) cut(e zent) {
	i := z.pos(e)
	if i == 0 { // pulls take from the front
		z.l = z.l[1:]
		return
	}
	z.l = append(z.l[:i], z.l[i+1:]...)
}

func (z *zset) rem(m string) bool {
	s, ok := z.m[m]
	if !ok {
		return false
	}
	delete(z.m, m)
	z.cut(zent{m, s})
	return true
}

// bound parses a score range end.
func bound(s string) (v float64, excl, ok bool) {
	if strings.HasPrefix(s, "(") {
		excl = true
		s = s[1:]
	}
	v, ok = parseScore(s)
	return
}

func parseScore(s string) (float64, bool) {
	if s == "" || s[0] == ' ' {
		return 0, false
	}
	v, ok := strToNum(s)
	if !ok || math.IsNaN(v) {
		return 0, false
	}
	return v, true
}

// glob is Redis's stringmatchlen.
func glob(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if glob(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if len(p) >= 2 && p[0] == '\\' {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if len(p) == 0 {
					break
				} else if p[0] == ']' {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					a, b := p[0], p[2]
					if a > b {
						a, b = b, a
					}
					p = p[2:]
					if s[0] >= a && s[0] <= b {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if match == not {
				return false
			}
			s = s[1:]
			if len(p) == 0 {
				return len(s) == 0
			}
		default:
			if p[0] == '\\' && len(p) >= 2 {
				p = p[1:]
			}
			if len(s) == 0 || p[0] != s[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
		if len(s) == 0 {
			for len(p) > 0 && p[0] == '*' {
				p = p[1:]
			}
			break
		}
	}
	return len(p) == 0 && len(s) == 0
}

var crcTab = func() (t [256]uint16) {
	for i := range t {
		c := uint16(i) << 8
		for j := 0; j < 8; j++ {
			if c&0x8000 != 0 {
				c = c<<1 ^ 0x1021
			} else {
				c <<= 1
			}
		}
		t[i] = c
	}
	return
}()

// Slot is the cluster slot of a key.
func Slot(key string) int {
	if i := strings.IndexByte(key, '{'); i >= 0 {
		if j := strings.IndexByte(key[i+1:], '}'); j > 0 {
			key = key[i+1 : i+1+j]
		}
	}
	c := uint16(0)
	for i := 0; i < len(key); i++ {
		c = c<<8 ^ crcTab[byte(c>>8)^key[i]]
	}
	return int(c) & 16383
}
