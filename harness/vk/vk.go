// Package vk is the common kit of the monitors: seeded randomness, verdicts,
// evidence and known findings.
package vk

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one registered property check.
type Check struct {
	Prop        string
	Level       string
	Rule        string
	Assumptions []string
	Run         func(c *Ctx)
	// Replay re-executes one recorded case (the value of the replay file's "case").
	Replay func(c *Ctx, raw json.RawMessage)
	// Budgets in seconds; 0 takes the defaults.
	QuickS, ThoroughS float64
	// Shards > 1: that many processes explore side by side (Run sees Ctx.Shard of Ctx.Shards).
	Shards int
	// ShardEnv adds environment variables for a shard with that scratch directory.
	ShardEnv func(dir string) []string
	// AfterShard inspects what a finished shard left behind; true: the crash is dealt with.
	AfterShard func(c *Ctx, dir, output string, err error) bool
}

var registry = map[string]*Check{}

func Register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	registry[c.Prop] = c
}

type violation struct {
	Key    string          `json:"key"`
	Detail any             `json:"detail"`
	Case   json.RawMessage `json:"case"`
}

// Ctx is what one run of a check accumulates.
type Ctx struct {
	Prop     string
	Tier     string
	Seed     uint64
	Start    time.Time
	Budget   time.Duration
	Dir      string // scratch directory, removed by the caller
	Replayed bool
	Shard    int
	Shards   int

	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	counts     map[string]int64
	maxima     map[string]int64
	samples    []any
	notes      []string
	viol       []violation
	known      map[string]string // key -> text
	knownHits  map[string]bool
	stop       atomic.Bool
	lastActive atomic.Int64
	activity   atomic.Value
	activeCase atomic.Value
}

func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// N scales a case count with the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Quick() {
		return quick
	}
	return thorough
}

func (c *Ctx) Rand(stream uint64) *rand.Rand {
	return rand.New(rand.NewPCG(c.Seed*0x9e3779b97f4a7c15+1, stream*0xbf58476d1ce4e5b9+7))
}

// Over says the exploration budget is used up or a violation has been found.
func (c *Ctx) Over() bool { return c.stop.Load() || time.Since(c.Start) > c.Budget }

// Part gives a sub-deadline: true once the given fraction of the budget is gone.
func (c *Ctx) Past(frac float64) bool {
	return c.stop.Load() || time.Since(c.Start) > time.Duration(frac*float64(c.Budget))
}

func (c *Ctx) Eval(n int) {
	c.mu.Lock()
	c.evals += int64(n)
	c.mu.Unlock()
}

func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Distinct records the signature of a non-trivial case.
func (c *Ctx) Distinct(sig string) {
	h := Hash(sig)
	c.mu.Lock()
	c.distinct[h] = struct{}{}
	c.mu.Unlock()
}

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counts[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Max(name string, n int64) {
	c.mu.Lock()
	if n > c.maxima[name] {
		c.maxima[name] = n
	}
	c.mu.Unlock()
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 4 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) Note(format string, a ...any) {
	c.mu.Lock()
	if len(c.notes) < 50 {
		c.notes = append(c.notes, fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

// Violation records that the property does not hold on a case.
func (c *Ctx) Violation(key string, kase any, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[key]; ok {
		c.knownHits[key] = true
		return
	}
	raw, err := json.Marshal(kase)
	if err != nil {
		raw, _ = json.Marshal(fmt.Sprintf("%+v", kase))
	}
	c.viol = append(c.viol, violation{Key: key, Detail: fmt.Sprintf(format, a...), Case: raw})
	c.stop.Store(true)
}

// current is the running check.
var current *Ctx

// Broken ends the check with a violation found where no Ctx is at hand.
func Broken(key string, kase any, format string, a ...any) {
	current.Violation(key, kase, format, a...)
	current.finish()
}

func (c *Ctx) Violated() bool { return c.stop.Load() }

// Active tells the watchdog what is being executed; "" means nothing that can hang.
func (c *Ctx) Active(what string, kase any) {
	c.lastActive.Store(time.Now().UnixNano())
	c.activity.Store(what)
	if kase != nil {
		c.activeCase.Store(&kase)
	}
}

const hangAfter = 90 * time.Second

func (c *Ctx) watchdog() {
	for {
		time.Sleep(time.Second)
		w, _ := c.activity.Load().(string)
		if w == "" {
			continue
		}
		if time.Since(time.Unix(0, c.lastActive.Load())) > hangAfter {
			var kase any
			if p, ok := c.activeCase.Load().(*any); ok {
				kase = *p
			}
			b := make([]byte, 1<<22)
			txt := string(b[:runtime.Stack(b, true)])
			var own []string
			for _, g := range strings.Split(txt, "\n\n") {
				if Ours(g) {
					own = append(own, trim(g, 1500))
				}
			}
			if len(own) == 0 {
				fmt.Fprintf(os.Stderr, "no progress for %s in: %s\n%s\n", hangAfter, w, trim(txt, 20000))
				os.Exit(2)
			}
			c.Violation("hang", kase, "no progress for %s in: %s\n%s", hangAfter, w, trim(strings.Join(own, "\n\n"), 8000))
			c.finish()
		}
	}
}

// Ours says that a stack passes through Deckard's own code.
func Ours(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/takenet/deckard") && !strings.Contains(l, "/zverif/") {
			return true
		}
	}
	return false
}

// Guard runs fn, turning a panic of the code under test into a violation.
func (c *Ctx) Guard(what string, kase any, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			c.Violation("panic", kase, "panic in %s: %v\n%s", what, r, trim(string(debug.Stack()), 4000))
		}
	}()
	fn()
	return true
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var (
	check     *Check
	evidence  string
	replayDir string
	finishing sync.Mutex
)

func (c *Ctx) finish() {
	finishing.Lock() // never released: the process ends here
	c.mu.Lock()
	if partial != "" {
		c.writePartial()
	}
	ev := map[string]any{}
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                check.Rule,
		"samples":             c.samples,
	}
	if len(c.samples) == 0 {
		cov["samples"] = []any{"(none)"}
	}
	obs := map[string]int64{}
	for k, v := range c.counts {
		obs[k] = v
	}
	for k, v := range c.maxima {
		obs["max "+k] = v
	}
	cov["observed"] = obs
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev["property"] = c.Prop
	ev["tier"] = c.Tier
	ev["seed"] = c.Seed
	ev["level"] = check.Level
	ev["coverage"] = cov
	if len(check.Assumptions) > 0 {
		ev["assumptions"] = check.Assumptions
	}
	ev["wall_s"] = float64(int(time.Since(c.Start).Seconds()*100)) / 100
	ev["violations"] = len(c.viol)
	if evidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Dir(evidence), 0o755)
		if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			os.Exit(2)
		}
	}
	keys := make([]string, 0, len(c.knownHits))
	for k := range c.knownHits {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, c.known[k])
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", c.Prop, c.Tier, c.Seed, c.evals, len(c.distinct), len(c.viol), time.Since(c.Start).Seconds())
	if len(c.viol) == 0 {
		os.Exit(0)
	}
	_ = os.MkdirAll(replayDir, 0o755)
	for i, v := range c.viol {
		if i >= 3 {
			break
		}
		p := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", c.Prop, i))
		b, _ := json.MarshalIndent(map[string]any{"property": c.Prop, "seed": c.Seed, "tier": c.Tier, "key": v.Key, "detail": v.Detail, "case": v.Case}, "", " ")
		_ = os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("--- %s: %s\n", v.Key, trim(fmt.Sprint(v.Detail), 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, p)
	}
	os.Exit(1)
}

// part is what one shard reports to its parent.
type part struct {
	Evals    int64
	Distinct []uint64
	Counts   map[string]int64
	Maxima   map[string]int64
	Samples  []any
	Notes    []string
	Viol     []violation
	Known    []string
}

var partial string

func (c *Ctx) writePartial() {
	p := part{Evals: c.evals, Counts: c.counts, Maxima: c.maxima, Samples: c.samples, Notes: c.notes, Viol: c.viol}
	for h := range c.distinct {
		p.Distinct = append(p.Distinct, h)
	}
	for k := range c.knownHits {
		p.Known = append(p.Known, k)
	}
	b, err := json.Marshal(p)
	if err == nil {
		err = os.WriteFile(partial, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "shard result:", err)
		os.Exit(2)
	}
	os.Exit(0)
}

// runShards explores in several processes and merges what they observed.
func (c *Ctx) runShards(n int) {
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var failed atomic.Bool // a shard ended without an answer
	var wg sync.WaitGroup
	cmds := make([]*exec.Cmd, n)
	for i := 0; i < n; i++ {
		out := filepath.Join(c.Dir, fmt.Sprintf("shard-%d.json", i))
		dir := filepath.Join(c.Dir, fmt.Sprintf("shard-%d", i))
		_ = os.MkdirAll(dir, 0o755)
		args := append(append([]string(nil), os.Args[1:]...), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n), "-partial", out, "-dir", dir)
		cmd := exec.Command(exe, args...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
		if check.ShardEnv != nil {
			cmd.Env = append(cmd.Env, check.ShardEnv(dir)...)
		}
		var stderr tail
		cmd.Stderr, cmd.Stdout = &stderr, &stderr
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		cmds[i] = cmd
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := cmd.Wait()
			dealt := false
			if check.AfterShard != nil {
				dealt = check.AfterShard(c, dir, stderr.String(), err)
			}
			b, rerr := os.ReadFile(out)
			var p part
			if err != nil || rerr != nil || json.Unmarshal(b, &p) != nil {
				txt := stderr.String()
				if dealt {
				} else if check.AfterShard == nil && (strings.Contains(txt, "fatal error:") || strings.Contains(txt, "panic:") || strings.Contains(txt, "WARNING: DATA RACE")) {
					c.Violation("crash", map[string]any{"shard": i}, "the process running the code crashed: %v\n%s", err, trim(txt, 6000))
				} else {
					fmt.Fprintf(os.Stderr, "shard %d: %v\n%s\n", i, err, trim(txt, 6000))
					failed.Store(true)
				}
				return
			}
			c.mu.Lock()
			defer c.mu.Unlock()
			c.evals += p.Evals
			for _, h := range p.Distinct {
				c.distinct[h] = struct{}{}
			}
			for k, v := range p.Counts {
				c.counts[k] += v
			}
			for k, v := range p.Maxima {
				c.maxima[k] = max(c.maxima[k], v)
			}
			for _, s := range p.Samples {
				if len(c.samples) < 4 {
					c.samples = append(c.samples, s)
				}
			}
			c.notes = append(c.notes, p.Notes...)
			if len(c.notes) > 20 {
				c.notes = c.notes[:20]
			}
			c.viol = append(c.viol, p.Viol...)
			for _, k := range p.Known {
				c.knownHits[k] = true
			}
		}()
	}
	wg.Wait()
	if failed.Load() && len(c.viol) == 0 {
		os.Exit(2)
	}
	c.counts["processes"] = int64(n)
}

// tail keeps the head and the end of a stream.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append(t.b[:1<<18:1<<18], t.b[len(t.b)-(1<<18):]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func readKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(line, "known: "), " ", 3)
		if len(f) < 3 || f[0] != "property="+prop || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		m[strings.TrimPrefix(f[1], "key=")] = f[2]
	}
	return m
}

// Main runs the check named on the command line.
func Main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	known := flag.String("known", "", "known findings file")
	replay := flag.String("replay", "", "replay file")
	dir := flag.String("dir", "", "scratch directory")
	budget := flag.Float64("budget", 0, "seconds to explore")
	shard := flag.Int("shard", 0, "index of this process")
	shards := flag.Int("shards", 0, "number of processes")
	flag.StringVar(&partial, "partial", "", "where a shard writes its result")
	flag.StringVar(&evidence, "evidence", "", "evidence file")
	flag.StringVar(&replayDir, "replaydir", os.TempDir(), "where replay files go")
	flag.Parse()
	check = registry[*prop]
	if check == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	c := &Ctx{Prop: *prop, Tier: *tier, Seed: *seed, Start: time.Now(), Dir: *dir,
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, maxima: map[string]int64{}, knownHits: map[string]bool{}}
	current = c
	c.known = readKnown(*known, *prop)
	c.Shard, c.Shards = *shard, max(*shards, 1)
	b := check.QuickS
	if b == 0 {
		b = 25
	}
	if c.Tier == "thorough" {
		b = check.ThoroughS
		if b == 0 {
			b = 420
		}
	}
	if *budget > 0 {
		b = *budget
	}
	c.Budget = time.Duration(b * float64(time.Second))
	c.activity.Store("")
	go c.watchdog()
	if *replay != "" {
		raw, err := os.ReadFile(*replay)
		var f struct {
			Case json.RawMessage `json:"case"`
			Seed uint64          `json:"seed"`
			Tier string          `json:"tier"`
		}
		if err == nil {
			err = json.Unmarshal(raw, &f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			os.Exit(2)
		}
		c.Replayed = true
		evidence = ""
		if check.Replay != nil {
			check.Replay(c, f.Case)
		} else {
			c.Seed, c.Tier = f.Seed, f.Tier
			check.Run(c)
		}
		c.finish()
	}
	if check.Shards > 1 && *shards == 0 {
		c.runShards(check.Shards)
		c.finish()
	}
	check.Run(c)
	c.finish()
}
