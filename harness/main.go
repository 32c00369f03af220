// Command zzverif is the verification harness. It is compiled *inside* the
// module under test through a build overlay, so that it always exercises the
// current working tree.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Ctx is what a check's enumerator works with. The enumerator visits the same
// cases in the same order in every worker process; Case decides whether this
// worker is the one that executes it.
type Ctx struct {
	ID       string
	Tier     string
	Quick    bool
	Verif    string
	shard, n int
	idx      int64
	only     string
	deadline time.Time
	stopped  bool

	res shardResult
	// sets used to measure distinct states / outcomes
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	known    map[string]string
	nnew     int
	curKey   string
	curStart time.Time
	mu       sync.Mutex
}

type violation struct {
	Key   string `json:"key"`
	What  string `json:"what"`
	Repro string `json:"repro,omitempty"`
}

type shardResult struct {
	Cases       int64            `json:"cases"`      // model traces executed on the implementation and compared
	Calls       int64            `json:"calls"`      // implementation steps
	Enumerated  int64            `json:"enumerated"` // size of the enumerated space seen so far
	Stopped     bool             `json:"stopped"`    // internal deadline hit
	Violations  []violation      `json:"violations"`
	NViolations int64            `json:"nviolations"`
	Samples     []string         `json:"samples"`
	Extra       map[string]int64 `json:"extra"`
	Max         map[string]int64 `json:"max"`
	Notes       []string         `json:"notes"`
	States      []uint64         `json:"states"`
	Outcomes    []uint64         `json:"outcomes"`
	Error       string           `json:"error,omitempty"`
}

// Check is one property's decision procedure.
type Check struct {
	ID         string
	Statement  string // one line: what is enumerated
	Run        func(c *Ctx)
	Prep       func() any // computed once, given to the workers by loadPrep
	Procs      int        // 0: number of cores
	QuickSecs  int        // internal deadline
	DeepSecs   int
	Assume     []string
	Bounds     map[string]string // what the tier covers
	BoundsDeep map[string]string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func h64(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

var maxViol = envInt("VERIF_MAXVIOL", 40)

var slowest = envInt("VERIF_SLOW", 0)

var maxPrint = envInt("VERIF_MAXPRINT", 12)

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

// Case runs fn if this worker owns the case. fn returns "" if the case
// satisfies the property or an explanation of the violation.
func (c *Ctx) Case(key string, fn func() string) {
	if c.stopped {
		return
	}
	i := c.idx
	c.idx++
	if c.only != "" {
		if key != c.only {
			return
		}
	} else if int(i%int64(c.n)) != c.shard {
		return
	}
	if c.only == "" && c.res.Cases&15 == 15 && time.Now().After(c.deadline) {
		c.stopped = true
		c.res.Stopped = true
		return
	}
	c.mu.Lock()
	c.curKey, c.curStart = key, time.Now()
	c.mu.Unlock()
	what := c.guard(fn)
	if d := time.Since(c.curStart); slowest > 0 && d > time.Duration(slowest)*time.Millisecond {
		fmt.Fprintln(os.Stderr, "SLOW", d.Milliseconds(), key[:min(len(key), 80)])
	}
	c.mu.Lock()
	c.curKey = ""
	c.mu.Unlock()
	c.res.Cases++
	c.states[h64(key)] = struct{}{}
	if c.res.Cases == 1 || (c.res.Cases&(c.res.Cases-1) == 0 && len(c.res.Samples) < 12) {
		c.res.Samples = append(c.res.Samples, key)
	}
	if what != "" {
		c.Fail(key, what)
	}
}

func (c *Ctx) guard(fn func() string) (what string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			lines := strings.Split(st, "\n")
			var keep []string
			for _, l := range lines {
				if strings.Contains(l, ".go:") && !strings.Contains(l, "/zzverif/") && !strings.Contains(l, "runtime/") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 3 {
				keep = keep[:3]
			}
			what = fmt.Sprintf("panic: %v at %s", r, strings.Join(keep, " <- "))
		}
	}()
	return fn()
}

// Fail records a violation.
func (c *Ctx) Fail(key, what string) {
	c.res.NViolations++
	if c.known == nil {
		c.known = loadKnown(filepath.Join(c.Verif, "known-findings.txt"), c.ID)
	}
	if c.known[key] != "" { // listed findings never crowd out others
		c.res.Violations = append([]violation{{Key: key, What: what}}, c.res.Violations...)
		return
	}
	if c.nnew++; c.nnew <= maxViol {
		c.res.Violations = append(c.res.Violations, violation{Key: key, What: what})
	}
}

// Call counts implementation steps, Outcome records an observed outcome.
func (c *Ctx) Call(n int)       { c.res.Calls += int64(n) }
func (c *Ctx) Outcome(s string) { c.outcomes[h64(s)] = struct{}{} }
func (c *Ctx) Add(k string, n int64) {
	if c.res.Extra == nil {
		c.res.Extra = map[string]int64{}
	}
	c.res.Extra[k] += n
}
func (c *Ctx) Max(k string, n int64) {
	if c.res.Max == nil {
		c.res.Max = map[string]int64{}
	}
	if n > c.res.Max[k] {
		c.res.Max[k] = n
	}
}
func (c *Ctx) State(s string) { c.states[h64(s)] = struct{}{} }
func (c *Ctx) Owner() bool    { return c.shard == 0 }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|worker|probe ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runMain(os.Args[2:]))
	case "worker":
		workerMain(os.Args[2:])
	default:
		if fn, ok := extraCmds[os.Args[1]]; ok {
			fn(os.Args[2:])
			return
		}
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

var extraCmds = map[string]func(args []string){}

type runOpts struct {
	id, tier, verif, only string
	seed, shard, n, secs  int
	allKeys               bool
}

func parseOpts(args []string) runOpts {
	var o runOpts
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	fs.StringVar(&o.id, "id", "", "")
	fs.StringVar(&o.tier, "tier", "quick", "")
	fs.StringVar(&o.verif, "verif", "/verif", "")
	fs.StringVar(&o.only, "only", "", "replay this single case key")
	fs.IntVar(&o.seed, "seed", 1, "")
	fs.IntVar(&o.shard, "shard", 0, "")
	fs.IntVar(&o.n, "n", 0, "")
	fs.IntVar(&o.secs, "secs", 0, "")
	fs.Parse(args)
	return o
}

func newCtx(o runOpts) *Ctx {
	return &Ctx{ID: o.id, Tier: o.tier, Quick: o.tier != "thorough", Verif: o.verif, shard: o.shard, n: o.n,
		only: o.only, deadline: time.Now().Add(time.Duration(o.secs) * time.Second),
		states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}}
}

const hangLimit = 120 * time.Second

func workerMain(args []string) {
	o := parseOpts(args)
	ck := checks[o.id]
	c := newCtx(o)
	emit := func() {
		for h := range c.states {
			c.res.States = append(c.res.States, h)
		}
		for h := range c.outcomes {
			c.res.Outcomes = append(c.res.Outcomes, h)
		}
		c.res.Enumerated = c.idx
		bt, _ := json.Marshal(c.res)
		w := bufio.NewWriter(os.Stdout)
		w.WriteString("RESULT ")
		w.Write(bt)
		w.WriteString("\n")
		w.Flush()
	}
	// Watchdog: a single case that does not return for hangLimit of wall time
	// while this process burns CPU on it is a hang of the code under test.
	go func() {
		for {
			time.Sleep(time.Second)
			c.mu.Lock()
			k, st := c.curKey, c.curStart
			c.mu.Unlock()
			if k != "" && time.Since(st) > hangLimit {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "HANG %s\n%s\n", k, buf)
				r := shardResult{Cases: c.res.Cases, Calls: c.res.Calls, Violations: []violation{{Key: k, What: "no result after " + hangLimit.String() + " (hang or unbounded blow-up)"}}, NViolations: 1}
				bt, _ := json.Marshal(r)
				fmt.Printf("RESULT %s\n", bt)
				os.Exit(0)
			}
		}
	}()
	if f := os.Getenv("VERIF_PROF"); f != "" && c.shard == 0 {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	ck.Run(c)
	emit()
}

func runMain(args []string) int {
	start := time.Now()
	o := parseOpts(args)
	ck := checks[o.id]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", o.id)
		return 2
	}
	if o.n == 0 {
		o.n = ck.Procs
		if o.n == 0 {
			o.n = runtime.NumCPU()
		}
	}
	if o.only != "" {
		o.n = 1
	}
	if o.secs == 0 {
		o.secs = ck.QuickSecs
		if o.tier == "thorough" {
			o.secs = ck.DeepSecs
		}
		if o.secs == 0 {
			o.secs = 120
		}
	}
	if ck.Prep != nil {
		f, err := os.CreateTemp("", "verif-prep")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		defer os.Remove(f.Name())
		os.Setenv("VERIF_ROOT", o.verif)
		if o.tier == "thorough" {
			os.Setenv("VERIF_DEEP", "1")
		}
		json.NewEncoder(f).Encode(ck.Prep())
		f.Close()
		os.Setenv("VERIF_PREP", f.Name())
	}
	self, _ := os.Executable()
	results := make([]shardResult, o.n)
	var wg sync.WaitGroup
	for s := 0; s < o.n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			wargs := []string{"worker", "-id", o.id, "-tier", o.tier, "-verif", o.verif, "-seed", fmt.Sprint(o.seed),
				"-shard", fmt.Sprint(s), "-n", fmt.Sprint(o.n), "-secs", fmt.Sprint(o.secs)}
			if o.only != "" {
				wargs = append(wargs, "-only", o.only)
			}
			cmd := exec.Command(self, wargs...)
			var errBuf strings.Builder
			cmd.Stderr = &limitWriter{sb: &errBuf, n: 1 << 20}
			out, err := cmd.Output()
			res := &results[s]
			ok := false
			for _, line := range strings.Split(string(out), "\n") {
				if strings.HasPrefix(line, "RESULT ") {
					if json.Unmarshal([]byte(line[7:]), res) == nil {
						ok = true
					}
				}
			}
			if !ok {
				res.Error = fmt.Sprintf("worker %d: %v\n%s", s, err, tail(errBuf.String(), 4000))
			}
		}(s)
	}
	wg.Wait()

	// merge
	var tot shardResult
	tot.Extra, tot.Max = map[string]int64{}, map[string]int64{}
	states, outcomes := map[uint64]struct{}{}, map[uint64]struct{}{}
	for _, r := range results {
		tot.Cases += r.Cases
		tot.Calls += r.Calls
		tot.NViolations += r.NViolations
		tot.Violations = append(tot.Violations, r.Violations...)
		tot.Stopped = tot.Stopped || r.Stopped
		if r.Enumerated > tot.Enumerated {
			tot.Enumerated = r.Enumerated
		}
		for k, v := range r.Extra {
			tot.Extra[k] += v
		}
		for k, v := range r.Max {
			if v > tot.Max[k] {
				tot.Max[k] = v
			}
		}
		for _, h := range r.States {
			states[h] = struct{}{}
		}
		for _, h := range r.Outcomes {
			outcomes[h] = struct{}{}
		}
		if len(tot.Samples) < 12 {
			k := min(len(r.Samples), 3)
			tot.Samples = append(tot.Samples, r.Samples[:k]...)
		}
		tot.Notes = append(tot.Notes, r.Notes...)
		if r.Error != "" {
			tot.Error += r.Error
		}
	}
	if tot.Error != "" {
		// A worker process that died (fatal error: concurrent map access, stack
		// overflow, out of memory) died inside the code under test.
		if strings.Contains(tot.Error, "fatal error:") || strings.Contains(tot.Error, "stack overflow") || strings.Contains(tot.Error, "goroutine ") {
			tot.Violations = append(tot.Violations, violation{Key: "worker-crash", What: "process crashed in the code under test: " + firstLines(tot.Error, 12)})
			tot.NViolations++
		} else {
			fmt.Fprintln(os.Stderr, "harness error:", tot.Error)
			return 2
		}
	}

	// Known findings
	known := loadKnown(filepath.Join(o.verif, "known-findings.txt"), o.id)
	var news []violation
	seenKnown := map[string]bool{}
	for _, v := range tot.Violations {
		if known[v.Key] != "" {
			if !seenKnown[v.Key] {
				seenKnown[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", o.id, v.Key, known[v.Key])
			}
			tot.NViolations--
			continue
		}
		news = append(news, v)
	}
	sort.SliceStable(news, func(a, b int) bool { return len(news[a].Key) < len(news[b].Key) })

	rdir := filepath.Join(o.verif, "replays")
	for i, v := range news {
		if i >= maxPrint {
			fmt.Printf("... and %d more violating cases\n", tot.NViolations-int64(i))
			break
		}
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%016x.json", o.id, h64(v.Key)))
		bt, _ := json.MarshalIndent(map[string]any{"property": o.id, "key": v.Key, "what": v.What, "tier": o.tier,
			"replay_cmd": fmt.Sprintf("%s/check %s --tier %s -only %q", o.verif, o.id, o.tier, v.Key)}, "", " ")
		os.WriteFile(path, append(bt, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  case: %s\n  %s\n", o.id, path, v.Key, v.What)
	}

	cov := map[string]any{
		"states":                        len(states),
		"transitions":                   tot.Calls,
		"traces_validated_against_impl": tot.Cases,
		"distinct_outcomes":             len(outcomes),
		"enumerated_space":              tot.Enumerated,
		"samples":                       tot.Samples,
		"exhaustive":                    !tot.Stopped,
		"explanation":                   ck.Statement,
	}
	b := ck.Bounds
	if o.tier == "thorough" && ck.BoundsDeep != nil {
		b = ck.BoundsDeep
	}
	if b != nil {
		cov["bounds"] = b
	}
	for k, v := range tot.Extra {
		cov[k] = v
	}
	for k, v := range tot.Max {
		cov["max_"+k] = v
	}
	if len(tot.Notes) > 0 {
		cov["notes"] = tot.Notes
	}
	if o.only == "" {
		ev := map[string]any{"property": o.id, "tier": o.tier, "seed": o.seed, "level": "model_checking",
			"coverage": cov, "assumptions": ck.Assume, "wall_s": time.Since(start).Seconds(), "violations": tot.NViolations}
		if ck.Assume == nil {
			delete(ev, "assumptions")
		}
		bt, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(o.verif, "evidence", o.id+".json"), append(bt, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v violations=%d wall=%.1fs\n", o.id, o.tier,
		len(states), tot.Calls, tot.Cases, len(outcomes), !tot.Stopped, len(news), time.Since(start).Seconds())
	if len(news) > 0 {
		return 1
	}
	if tot.Cases == 0 {
		fmt.Fprintln(os.Stderr, "harness error: nothing was explored")
		return 2
	}
	return 0
}

// loadPrep reads what Check.Prep computed.
func loadPrep(v any) {
	bt, err := os.ReadFile(os.Getenv("VERIF_PREP"))
	if err == nil {
		err = json.Unmarshal(bt, v)
	}
	if err != nil {
		panic(err)
	}
}

type limitWriter struct {
	sb *strings.Builder
	n  int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.sb.Len() < l.n {
		l.sb.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// loadKnown reads "known: property=<id> key=<key> :: what" lines.
func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	bt, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(bt), "\n") {
		pre := "known: property=" + id + " key="
		if strings.HasPrefix(line, pre) {
			rest := line[len(pre):]
			key, what, ok := strings.Cut(rest, " :: ")
			if !ok {
				what = "recorded finding"
			}
			out[key] = what
		}
	}
	return out
}
