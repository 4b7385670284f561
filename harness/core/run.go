package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"
)

// Prop is one property check.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Quick       int // how many times the quick tier repeats its workload (0: once)
	Run         func(r *Run)
}

// Violation is a refutation, with everything needed to reproduce it.
type Violation struct {
	Property string      `json:"property"`
	Seed     uint64      `json:"seed"`
	Tier     string      `json:"tier"`
	Stage    string      `json:"stage"`
	Case     int         `json:"case"`
	Kind     string      `json:"kind"`
	Message  string      `json:"message"`
	Detail   interface{} `json:"detail,omitempty"`
	Replay   string      `json:"how_to_replay"`
}

// Run collects what one check observes.
type Run struct {
	Prop     *Prop
	Seed     uint64
	Tier     string
	Repo     string
	Work     string // scratch directory, removed by the wrapper
	EvDir    string
	Harness  string
	OnlyCase int // replay: -1 for all
	OnlyStg  string

	mu         sync.Mutex
	counters   map[string]int64
	distinct   map[uint64]struct{}
	evals      int64
	nontrivial int64
	samples    []interface{}
	nsamples   map[string]int
	violations []Violation
	known      []string
	errors     []string
	stages     []string
	stop       atomic.Bool
}

func NewRun(p *Prop) *Run {
	return &Run{Prop: p, OnlyCase: -1, counters: map[string]int64{}, distinct: map[uint64]struct{}{}, nsamples: map[string]int{}}
}

// Light is set if only a part of the quick workload is to be run.
func Light() int {
	k, _ := strconv.Atoi(os.Getenv("VERIF_LIGHT"))
	return k
}

// N picks the number of cases for this tier.
func (r *Run) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	if k := Light(); k > 0 {
		return max(quick/k, 1)
	}
	if k := r.Prop.Quick; k > 1 {
		return min(quick*k, thorough)
	}
	return quick
}

// Case is one generated execution.
type Case struct {
	R     *Run
	Rng   *Rng
	Stage string
	Idx   int
	start atomic.Int64
}

// printable makes text out of anything: what is not a character of valid
// UTF-8, or is a control character, is escaped.
func printable(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case c == '\n' || c == '\t' || unicode.IsPrint(c) && !(c == utf8.RuneError && n == 1):
			b.WriteString(s[i : i+n])
		default:
			q := strconv.QuoteToASCII(s[i : i+n])
			b.WriteString(q[1 : len(q)-1])
		}
		i += n
	}
	return b.String()
}

// MaxViolations stops a run early: one witness is enough.
const MaxViolations = 3

func (r *Run) addViolation(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violations = append(r.violations, v)
	if len(r.violations) >= MaxViolations {
		r.stop.Store(true)
	}
}

// Fail reports an error of the check itself (exit status 2).
func (r *Run) Fail(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.errors = append(r.errors, fmt.Sprintf(format, a...))
	if len(r.errors) > 5 {
		r.stop.Store(true)
	}
}

// Known reports a listed finding that still fails.
func (r *Run) Known(what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.known = append(r.known, what)
}

// Count adds to a counter of observed events.
func (r *Run) Count(key string, n int) {
	r.mu.Lock()
	r.counters[key] += int64(n)
	r.mu.Unlock()
}

// Violate reports a refutation.
func (c *Case) Violate(kind, format string, a ...interface{}) {
	c.ViolateD(kind, nil, format, a...)
}

// ViolateD is Violate with machine-readable detail.
func (c *Case) ViolateD(kind string, detail interface{}, format string, a ...interface{}) {
	c.R.addViolation(Violation{
		Property: c.R.Prop.ID, Seed: c.R.Seed, Tier: c.R.Tier, Stage: c.Stage, Case: c.Idx,
		Kind: kind, Message: fmt.Sprintf(format, a...), Detail: detail,
		Replay: fmt.Sprintf("VERIF_SEED=%d /verif/run.sh %s %s -stage %s -case %d", c.R.Seed, c.R.Prop.ID, c.R.Tier, c.Stage, c.Idx),
	})
}

// Eval records one judged execution; key identifies it for counting the
// distinct non-trivial ones ("" = trivial).
func (c *Case) Eval(key string) {
	atomic.AddInt64(&c.R.evals, 1)
	if key == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	k := h.Sum64()
	c.R.mu.Lock()
	c.R.distinct[k] = struct{}{}
	c.R.nontrivial++
	c.R.mu.Unlock()
}

// Count adds to a counter of observed events.
func (c *Case) Count(key string, n int) { c.R.Count(key, n) }

// Sample keeps a few actual cases per stage.
func (c *Case) Sample(v interface{}) {
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	if c.R.nsamples[c.Stage] >= 3 {
		return
	}
	c.R.nsamples[c.Stage]++
	c.R.samples = append(c.R.samples, map[string]interface{}{"stage": c.Stage, "case": c.Idx, "what": v})
}

// Try runs code under test and reports a panic as (true, message, stack).
func Try(f func()) (panicked bool, msg string, stack string) {
	defer func() {
		if e := recover(); e != nil {
			panicked = true
			msg = fmt.Sprint(e)
			stack = string(debug.Stack())
		}
	}()
	f()
	return
}

// Try is Try under the stuck-call monitor.
func (c *Case) Try(f func()) (panicked bool, msg string, stack string) {
	c.start.Store(time.Now().UnixNano())
	defer c.start.Store(0)
	return Try(f)
}

// Call runs code under test; a panic is a violation, and false is returned.
func (c *Case) Call(what string, f func()) bool {
	p, msg, stack := c.Try(f)
	if p {
		c.ViolateD("panic", map[string]interface{}{"stack": trimStack(stack)}, "%s panicked: %s", what, msg)
		return false
	}
	return true
}

func trimStack(s string) []string {
	l := strings.Split(s, "\n")
	if len(l) > 60 {
		l = l[:60]
	}
	return l
}

// StuckAfter is the time after which a single call, normally microseconds
// long, counts as hanging.
var StuckAfter = 150 * time.Second

// Cases runs n independent cases on all cores.
func (r *Run) Cases(stage string, n int, f func(c *Case)) { r.CasesN(stage, n, runtime.NumCPU(), f) }

// CasesN is Cases with a given number of workers.
func (r *Run) CasesN(stage string, n, workers int, f func(c *Case)) {
	if r.OnlyStg != "" && r.OnlyStg != stage {
		return
	}
	r.mu.Lock()
	r.stages = append(r.stages, stage)
	r.mu.Unlock()
	t0 := time.Now()
	var next int64 = -1
	var cur = make([]atomic.Pointer[Case], workers)
	done := make(chan struct{})
	go func() { // stuck-call monitor
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
			}
			for i := range cur {
				c := cur[i].Load()
				if c == nil {
					continue
				}
				if s := c.start.Load(); s != 0 && time.Since(time.Unix(0, s)) > StuckAfter {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					c.ViolateD("hang", map[string]interface{}{"goroutines": strings.Split(string(buf), "\n")}, "a call did not return within %s", StuckAfter)
					r.Finish()
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || r.stop.Load() {
					return
				}
				if r.OnlyCase >= 0 && i != r.OnlyCase {
					continue
				}
				c := &Case{R: r, Stage: stage, Idx: i, Rng: NewRng(r.Seed, r.Prop.ID, stage, i)}
				cur[w].Store(c)
				t1 := time.Now()
				if p, msg, stack := Try(func() { f(c) }); p && libraryPanic(stack) {
					c.ViolateD("panic", map[string]interface{}{"stack": trimStack(stack)}, "the library panicked: %s", msg)
				} else if p {
					r.Fail("harness panic in stage %s case %d: %s\n%s", stage, i, msg, stack)
				}
				cur[w].Store(nil)
				if d := time.Since(t1); d > 5*time.Second && os.Getenv("VERIF_SLOW") != "" {
					fmt.Fprintf(os.Stderr, "slow: %s %d %s\n", stage, i, d)
				}
			}
		}(w)
	}
	wg.Wait()
	close(done)
	r.Count("stage_ms:"+stage, int(time.Since(t0).Milliseconds()))
}

// libraryPanic tells whether the code that panicked is the library's.
func libraryPanic(stack string) bool {
	i := strings.Index(stack, "\npanic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i+1:], "\n")[2:] {
		switch {
		case strings.HasPrefix(l, "\t"), l == "":
		case strings.HasPrefix(l, "github.com/lestrrat-go/jsval"):
			return true
		case strings.HasPrefix(l, "verif/"), strings.HasPrefix(l, "main."):
			return false
		}
	}
	return false
}

// Watch ends the run when it has its answer but some case does not end.
func (r *Run) Watch() {
	go func() {
		var since time.Time
		for range time.Tick(time.Second) {
			r.mu.Lock()
			n := len(r.violations)
			r.mu.Unlock()
			if since.IsZero() && r.stop.Load() {
				since = time.Now()
			}
			if n > 0 && (!since.IsZero() && time.Since(since) > 20*time.Second || time.Since(startTime) > 600*time.Second) {
				r.Finish()
			}
		}
	}()
}

// Beat restarts the stuck-call clock within a long case.
func (c *Case) Beat() { c.start.Store(time.Now().UnixNano()) }

// Stopped is true once enough violations were found.
func (r *Run) Stopped() bool { return r.stop.Load() }

var startTime = time.Now()

// Finish writes evidence and replay files, prints the verdict and exits.
func (r *Run) Finish() {
	r.mu.Lock()
	os.MkdirAll(filepath.Join(r.EvDir, "replay"), 0755)
	keys := make([]string, 0, len(r.counters))
	for k := range r.counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	events := map[string]int64{}
	for _, k := range keys {
		events[k] = r.counters[k]
	}
	cov := map[string]interface{}{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.Prop.Rule,
		"samples":             r.samples,
		"observed_events":     events,
		"stages":              r.stages,
	}
	if r.Prop.Level == "translation_validation" {
		cov["programs"] = r.counters["programs"]
		cov["disagreements_checked"] = r.counters["disagreements_checked"]
	}
	ev := map[string]interface{}{
		"property": r.Prop.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Prop.Level,
		"coverage": cov, "assumptions": r.Prop.Assumptions,
		"wall_s": time.Since(startTime).Seconds(), "violations": len(r.violations),
	}
	if r.Prop.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(r.EvDir, r.Prop.ID+".json"), append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	for _, k := range r.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop.ID, k)
	}
	if len(r.violations) > 0 {
		for i, v := range r.violations {
			p := filepath.Join(r.EvDir, "replay", fmt.Sprintf("%s-%d.json", r.Prop.ID, i))
			b, err := json.MarshalIndent(v, "", " ")
			if err != nil {
				v.Detail = fmt.Sprintf("%+v", v.Detail)
				b, _ = json.MarshalIndent(v, "", " ")
			}
			os.WriteFile(p, append(b, '\n'), 0644)
			msg := v.Message
			if len(msg) > 3000 {
				msg = msg[:3000] + "..."
			}
			fmt.Printf("%s: stage %s case %d: %s: %s\n", v.Property, v.Stage, v.Case, v.Kind, printable(msg))
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, p)
		}
		os.Exit(1)
	}
	if len(r.errors) > 0 {
		for _, e := range r.errors {
			fmt.Fprintln(os.Stderr, "CHECK ERROR:", e)
		}
		os.Exit(2)
	}
	if (r.evals == 0 || len(r.distinct) == 0) && r.OnlyCase < 0 && r.OnlyStg == "" {
		fmt.Fprintln(os.Stderr, "CHECK INCONCLUSIVE: nothing was observed")
		os.Exit(2)
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", r.Prop.ID, r.Tier, r.Seed, r.evals, len(r.distinct), time.Since(startTime).Seconds())
	os.Exit(0)
}

// Stub writes an evidence file for a run that the process did not survive.
func (r *Run) Stub() {
	ev := map[string]interface{}{
		"property": r.Prop.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Prop.Level,
		"coverage":    map[string]interface{}{"evaluations": 1, "distinct_nontrivial": 1, "rule": r.Prop.Rule, "samples": []interface{}{"the monitored process crashed; see the log"}},
		"assumptions": []string{}, "wall_s": time.Since(startTime).Seconds(), "violations": 1,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(r.EvDir, r.Prop.ID+".json"), append(b, '\n'), 0644)
}
