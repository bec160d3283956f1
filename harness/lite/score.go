package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"time"

	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue/score"
	"github.com/takenet/deckard/internal/queue/utils"
	"github.com/takenet/deckard/internal/zverif/vk"
)

const maxScore = 9007199254740992.0

func init() {
	vk.Register(&vk.Check{
		Prop: "C23",
		Rule: "a case is one generated value (boundary-biased doubles and instants, random magnitudes) pushed through the real score and time conversions and compared with exact arithmetic; non-trivial: not one of the literal constants 0, 1, -1; distinct by value",
		Assumptions: []string{
			"instants are within the representable range of 64-bit nanoseconds (years 1678-2262)",
		},
		QuickS: 8, ThoroughS: 90,
		Run: runScore,
	})
}

func genFloat(r *rand.Rand) float64 {
	special := []float64{0, math.Copysign(0, -1), 1, -1, -0.5, 0.5, 1e-300, -1e-300, maxScore, maxScore + 2, maxScore - 1, -maxScore, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN(), math.SmallestNonzeroFloat64, math.MaxFloat64, 4503599627370496.5, 1.5e12, 1700000000000}
	switch r.IntN(6) {
	case 0:
		return special[r.IntN(len(special))]
	case 1:
		return math.Float64frombits(r.Uint64())
	case 2:
		return float64(r.Int64N(1 << 53))
	case 3:
		return -float64(r.Int64N(1 << 53))
	case 4:
		f := special[r.IntN(len(special))]
		if r.IntN(2) == 0 {
			return math.Nextafter(f, math.Inf(1))
		}
		return math.Nextafter(f, math.Inf(-1))
	}
	return (r.Float64() - 0.5) * math.Pow(10, float64(r.IntN(20)))
}

func clamp(f float64) float64 {
	if f < 0 {
		return 0
	}
	if f > maxScore {
		return maxScore
	}
	return f
}

func runScore(c *vk.Ctx) {
	if score.Max != maxScore || score.Min != 0 || score.Undefined != -1 {
		c.Violation("constants", nil, "score range is [%v, %v], undefined %v", score.Min, score.Max, score.Undefined)
	}
	r := c.Rand(1)
	epoch := time.Date(2024, 5, 6, 7, 8, 9, 123456789, time.UTC)
	now := epoch
	reset := dtime.SetNowProvider(func() time.Time { return now })
	n := c.N(1500000, 20000000)
	var prevIn, prevOut float64 = 0.5, 0.5
	for i := 0; i < n && !c.Over(); i++ {
		c.Eval(1)
		f := genFloat(r)
		now = epoch.Add(time.Duration(r.Int64N(1 << 55)))
		nowMs := float64(now.UnixNano() / 1e6)
		got := score.GetAddScore(f)
		want := clamp(f)
		if f == 0 || math.IsNaN(f) {
			want = nowMs
		}
		if got != want {
			c.Violation("add-score", f, "adding with score %v gives priority %v, want %v (now %v)", f, got, want, nowMs)
			break
		}
		if f != 0 && !math.IsNaN(f) { // order preserving
			if (f < prevIn && got > prevOut) || (f > prevIn && got < prevOut) {
				c.Violation("add-order", f, "scores %v and %v map to %v and %v", prevIn, f, prevOut, got)
				break
			}
			prevIn, prevOut = f, got
		}
		for _, max := range []bool{true, false} {
			var p *float64
			if max {
				p = score.GetPullMaxScore(f)
			} else {
				p = score.GetPullMinScore(f)
			}
			if f == 0 || math.IsNaN(f) {
				if p != nil {
					c.Violation("pull-filter-unset", f, "pull bound %v (max=%v) is %v, want none", f, max, *p)
				}
			} else if p == nil || *p != clamp(f) {
				c.Violation("pull-filter", f, "pull bound %v (max=%v) is %v, want %v", f, max, show(p), clamp(f))
			}
		}
		if score.IsUndefined(f) != (f == -1) {
			c.Violation("undefined", f, "IsUndefined(%v) = %v", f, score.IsUndefined(f))
		}
		if d := score.GetScoreByDefaultAlgorithm(); d != nowMs {
			c.Violation("default-score", now, "default score at %v is %v, want %v", now, d, nowMs)
		}
		if dtime.NowMs() != int64(nowMs) || !dtime.Now().Equal(now) {
			c.Violation("now", now, "now is %v / %d, want %v", dtime.Now(), dtime.NowMs(), now)
		}
		// instants
		ms := r.Int64N(18e12) - 9e12
		switch r.IntN(5) {
		case 0:
			ms = int64(r.IntN(4001)) - 2000
		case 1:
			ms = ms / 1000 * 1000
		}
		t := dtime.MsToTime(ms)
		if !t.Equal(time.UnixMilli(ms)) {
			c.Violation("ms-to-time", ms, "%d ms is %v, want %v", ms, t, time.UnixMilli(ms))
		}
		if back := dtime.TimeToMs(&t); back != ms {
			c.Violation("round-trip", ms, "%d ms -> %v -> %d ms", ms, t, back)
		}
		ns := r.Int64N(999999)
		u := time.UnixMilli(abs(ms)).Add(time.Duration(ns))
		if got := dtime.TimeToMs(&u); got != abs(ms) {
			c.Violation("time-to-ms", u, "%v is %d ms, want %d", u, got, abs(ms))
		}
		p := dtime.MsPrecision(&u)
		if !p.Equal(time.UnixMilli(abs(ms))) {
			c.Violation("ms-precision", u, "%v at millisecond precision is %v", u, p)
		}
		if s := score.GetScoreFromTime(&u); s != float64(abs(ms)) {
			c.Violation("score-from-time", u, "score of %v is %v, want %d", u, s, abs(ms))
		}
		// number conversions used for breakpoints and configured buckets
		if v, err := utils.StrToInt64(strconv.FormatInt(ms, 10)); err != nil || v != ms {
			c.Violation("str-int", ms, "%d parses as %v, %v", ms, v, err)
		}
		if !math.IsNaN(f) {
			if v, err := utils.StrToFloat64(strconv.FormatFloat(f, 'g', -1, 64)); err != nil || v != f {
				c.Violation("str-float", f, "%v parses as %v, %v", f, v, err)
			}
		}
		a, b := r.Int64()-r.Int64(), r.Int64()-r.Int64()
		if r.IntN(4) == 0 {
			b = a + int64(r.IntN(3)) - 1
		}
		if m := utils.MinInt64(a, b); (m != a && m != b) || m > a || m > b {
			c.Violation("min", []int64{a, b}, "min(%d, %d) = %d", a, b, m)
		}
		if q := utils.Int64Ptr(a); q == nil || *q != a || q == utils.Int64Ptr(a) {
			c.Violation("ptr", a, "Int64Ptr(%d) wrong or shared", a)
		}
		if i%16 == 0 {
			c.Distinct(strconv.FormatUint(math.Float64bits(f), 16) + strconv.FormatInt(ms, 16))
		}
		if i < 3 {
			c.Sample(map[string]any{"score": fmt.Sprint(f), "now": now, "ms": ms})
		}
	}
	// the value of the shared limits is not disturbed by anything above
	if score.Max != maxScore || score.Min != 0 || score.Undefined != -1 {
		c.Violation("constants-changed", nil, "score range became [%v, %v], undefined %v", score.Min, score.Max, score.Undefined)
	}
	reset()
	d := time.Since(dtime.Now())
	if d > time.Minute || d < -time.Minute {
		c.Violation("provider-reset", nil, "after a reset of the time source now is off by %v", d)
	}
	for k := 0; k < 200; k++ {
		back := time.Duration(r.Int64N(int64(1000 * time.Hour)))
		e := time.Duration(dtime.ElapsedTime(time.Now().Add(-back))) * time.Millisecond
		if e < back-time.Millisecond || e > back+time.Minute {
			c.Violation("elapsed", back, "elapsed time since %v ago is %v", back, e)
		}
	}
	for k := 0; k < c.N(200, 2000); k++ { // scripted time source
		vals := make([]time.Time, r.IntN(6)+1)
		for j := range vals {
			vals[j] = epoch.Add(time.Duration(r.Int64N(1 << 50)))
		}
		keep := append([]time.Time(nil), vals...)
		rs := dtime.SetNowProviderValues(vals...)
		for j := 0; j < len(keep)+2; j++ {
			want := keep[min(j, len(keep)-1)]
			if g := dtime.Now(); !g.Equal(want) {
				c.Violation("scripted", keep, "reading %d of the scripted source is %v, want %v", j, g, want)
			}
		}
		rs()
	}
	c.Note("evaluated %d generated values", n)
}

func show(p *float64) any {
	if p == nil {
		return "none"
	}
	return *p
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}
