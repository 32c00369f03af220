package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/zzvrt"
)

// concOp is one call of a concurrent program. The calls of a program share
// the two Parsers of its state.
type concOp struct {
	name string
	prev bool // records or tries previous locales: the order of the calls matters
	run  func(*histState) string
}

func concOps() []concOp {
	now := utc(2015, 7, 31, 12, 0, 0)
	var ops []concOp
	add := func(name string, prev bool, run func(*histState) string) {
		ops = append(ops, concOp{fmt.Sprintf("%d:%s", len(ops), name), prev, run})
	}
	cfg := func(langs ...string) *dps.Configuration {
		return &dps.Configuration{CurrentTime: now, Languages: langs}
	}
	add(`Parse fr`, false, func(st *histState) string { return show(st.p[0].Parse(cfg("fr"), "le 18 juin 2014 à 10h20")) })
	add(`Parse en`, false, func(st *histState) string {
		return show(st.p[0].Parse(cfg("en"), "June 18, 2014 at 10:20 pm EST"))
	})
	add(`Parse en relative`, false, func(st *histState) string { return show(st.p[0].Parse(cfg("en"), "2 days and 3 hours ago")) })
	add(`Parse any`, false, func(st *histState) string { return show(st.p[0].Parse(cfg(), "18 юни 2014")) })
	prev := func(langs ...string) *dps.Configuration {
		c := cfg(langs...)
		c.TryPreviousLocales = true
		return c
	}
	add(`Parse previous en`, true, func(st *histState) string { return show(st.p[0].Parse(prev("en", "fr"), "02/03/2014")) })
	add(`Parse previous fr`, true, func(st *histState) string { return show(st.p[0].Parse(prev("fr"), "02/03/2014")) })
	add(`Parse digits`, false, func(st *histState) string { return show(st.p[0].Parse(cfg("en"), "20140618")) })
	add(`Parse format`, false, func(st *histState) string {
		return show(st.p[0].Parse(cfg("fr"), "mercredi, 18 juin 2014", "%A, %d %B %Y"))
	})
	add(`Parse types`, false, func(st *histState) string {
		p := &st.p[1] // nobody else sets its types
		return show(p.Parse(cfg("en"), "1403086830"))
	})
	search := func(p int, l []string, text string) func(*histState) string {
		return func(st *histState) string { return showSearch(st.p[p].Search(cfg(l...), text)) }
	}
	add(`Search en fr`, false, search(0, []string{"en", "fr"}, "it was on 18 June 2014 there"))
	add(`Search fr de`, false, search(0, []string{"fr", "de"}, "le 18 juin 2014 flurb"))
	add(`Search ru zh`, false, search(0, []string{"ru", "zh"}, "было 18 июня 2014"))
	add(`SearchWithLanguage`, false, func(st *histState) string {
		r, err := st.p[0].SearchWithLanguage(cfg(), "en", "ähm 2014-06-18 and 2 days ago")
		return showSearch("en", r, err)
	})
	add(`other Parse de`, false, func(st *histState) string {
		return show(st.p[1].Parse(cfg("de"), "Mittwoch, 18. Juni 2014 um 10:20 Uhr"))
	})
	add(`other Search en fr`, false, search(1, []string{"en", "fr"}, "le 18 juin 2014 flurb"))
	add(`dps.Parse`, false, func(*histState) string { return show(dps.Parse(cfg("en"), "１８ Juñe 2014 10:20 UTC+3")) })
	add(`dps.Search`, false, func(*histState) string {
		return showSearch(dps.Search(cfg("en", "es"), "el 18 de junio de 2014 flurb"))
	})
	add(`ParseJalali`, false, func(*histState) string {
		return show(dps.ParseJalali(cfg(), "چهارشنبه ۲۸ خرداد ۱۳۹۳ ساعت ۱۰:۲۰"))
	})
	add(`ParseHijri`, false, func(*histState) string { return show(dps.ParseHijri(cfg(), "20-08-1435 هـ, 09:40 صباحاً")) })
	add(`PopTzOffset`, false, func(*histState) string {
		c, n, o := dps.PopTzOffset("10:20 à (UTC+03:00)")
		return fmt.Sprintf("%q %s %d", c, n, o)
	})
	add(`Search previous`, true, func(st *histState) string { return showSearch(st.p[0].Search(prev("en", "fr"), "on 02/03/2014 flurb")) })
	add(`Parse any of all`, false, func(st *histState) string {
		c := cfg()
		c.UseGivenOrder, c.Locales = true, []string{"fr-BE", "en-GB", "en"}
		return show(st.p[0].Parse(c, "18 mai 2014"))
	})
	return ops
}

// ops of the longer programs
var concShort = []int{0, 4, 5, 9, 10, 20}

func init() {
	register(&Check{ID: "C01", Run: runC01, Prep: prepC01, QuickSecs: 250, DeepSecs: 850,
		Statement: "every program of two (three) colliding calls, under every schedule within the preemption bound, ends without deadlock, panic or data race, and every call returns what it returns alone (with TryPreviousLocales: what it returns in some sequential order of the calls)",
		Assume: []string{
			"threads switch at function entries, lock operations and statements that touch package variables, Parser or LocaleData fields or structures with locks of the rewritten library; races inside of what runs between two such points are left to the race detector, which sees no synchronization by the scheduler",
			"code of the standard library and of golang.org/x/text runs without a switch",
		},
		Bounds:     map[string]string{"programs": "all ordered pairs of 22 calls", "switches": "one preemption, in front of up to 24 points of the first call (first and last occurrence of the sites, spread evenly); with the race detector: at the begin of up to 16 segments between lock operations that have a site of their own, and free-running"},
		BoundsDeep: map[string]string{"programs": "all ordered pairs of 22 calls, all ordered triples of 6", "switches": "one preemption at the first, second and last occurrence of every site; two preemptions at up to 20 shared sites of each call; with the race detector at the begin of every segment between lock operations that has a site of its own, and free-running"},
	})
	// c01solo I: the call alone, in this fresh process
	extraCmds["c01solo"] = func(args []string) {
		i, _ := strconv.Atoi(args[0])
		fmt.Print(safely(func() string { return concOps()[i].run(&histState{}) }))
	}
	// c01race MAX I J [K]: explores schedules under the race detector
	extraCmds["c01race"] = func(args []string) {
		runtime.GOMAXPROCS(1)
		max, _ := strconv.Atoi(args[0])
		prog := atois(args[1:])
		e := &explorer{ops: concOps(), prog: prog, solo: nil}
		e.explore(-max, 0)
		json.NewEncoder(os.Stdout).Encode(e.sum())
	}
	// c01free N I J [K]: the calls at the same time, N times
	extraCmds["c01free"] = func(args []string) {
		n, _ := strconv.Atoi(args[0])
		ops, prog := concOps(), atois(args[1:])
		var res []string
		for k := 0; k < n; k++ {
			st := &histState{}
			out := make([]string, len(prog))
			var wg sync.WaitGroup
			start := make(chan bool)
			for i, op := range prog {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					out[i] = safely(func() string { return ops[op].run(st) })
				}()
			}
			close(start)
			wg.Wait()
			if r := strings.Join(out, "\x00"); !slices.Contains(res, r) {
				res = append(res, r)
			}
		}
		json.NewEncoder(os.Stdout).Encode(res)
	}
}

func atois(args []string) (out []int) {
	for _, a := range args {
		i, _ := strconv.Atoi(a)
		out = append(out, i)
	}
	return
}

func prepC01() any {
	ops := concOps()
	solo := make([]string, len(ops))
	self, _ := os.Executable()
	var wg sync.WaitGroup
	for i := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			out, err := exec.Command(self, "c01solo", fmt.Sprint(i)).Output()
			solo[i] = string(out)
			if err != nil {
				solo[i] = "process: " + err.Error()
			}
		}()
	}
	wg.Wait()
	return solo
}

// explorer runs one program under many schedules.
type explorer struct {
	ops  []concOp
	prog []int
	solo []string // the calls' results in a process of their own

	results  map[string]string // tuple of results -> first schedule
	order    []string
	bad      string
	n, races int
	points   int
	released int
	pre      int // preemptions that happened
}

type explored struct {
	Results [][2]string // tuple, schedule
	Bad     string
	N       int
	Races   int
	Points  int
	Pre     int
}

func (e *explorer) sum() explored {
	r := explored{Bad: e.bad, N: e.n, Races: raceReports(), Points: e.points, Pre: e.pre}
	for _, o := range e.order {
		r.Results = append(r.Results, [2]string{o, e.results[o]})
	}
	return r
}

// run runs the program on one schedule.
func (e *explorer) run(plan []zzvrt.Switch, record bool) zzvrt.Outcome {
	st := &histState{}
	out := make([]string, len(e.prog))
	var fns []func()
	for i, op := range e.prog {
		fns = append(fns, func() { out[i] = e.ops[op].run(st) })
	}
	before := raceReports()
	o := zzvrt.Run(fns, plan, record)
	e.n++
	e.pre += o.Taken
	sch := fmt.Sprint(plan)
	switch {
	case o.Status == "deadlock" || o.Status == "stuck":
		e.fail(o.Status + " with switches " + sch)
		return o
	case o.Status == "released":
		e.released++
	}
	for i, p := range o.Panics {
		if p != nil {
			e.fail(fmt.Sprintf("%s panics with switches %s: %v", e.ops[e.prog[i]].name, sch, p))
			return o
		}
	}
	if n := raceReports(); n > before {
		e.fail("data race with switches " + sch)
	}
	t := strings.Join(out, "\x00")
	if e.results == nil {
		e.results = map[string]string{}
	}
	if _, ok := e.results[t]; !ok {
		e.results[t] = sch
		e.order = append(e.order, t)
	}
	return o
}

func (e *explorer) fail(what string) {
	if e.bad == "" {
		e.bad = what
	}
}

// at gives the points of a trace to switch at: the first, the second and the
// last occurrence of each site, at most max of them, spread evenly.
func at(trace []int32, shared bool, max int) []int {
	first, second, last := map[int32]int{}, map[int32]int{}, map[int32]int{}
	var sites []int32
	for i, s := range trace {
		if shared && !sharedSite(s) {
			continue
		}
		if _, ok := first[s]; !ok {
			first[s] = i
			sites = append(sites, s)
		} else if _, ok := second[s]; !ok {
			second[s] = i
		}
		last[s] = i
	}
	var out []int
	for _, s := range sites {
		out = append(out, first[s], last[s])
		if k, ok := second[s]; ok {
			out = append(out, k)
		}
	}
	slices.Sort(out)
	out = slices.Compact(out)
	if len(out) <= max {
		return out
	}
	var hot, rest []int
	for _, k := range out {
		if sharedSite(trace[k]) {
			hot = append(hot, k)
		} else {
			rest = append(rest, k)
		}
	}
	hot = spread(hot, max*2/3)
	out = append(hot, spread(rest, max-len(hot))...)
	slices.Sort(out)
	return out
}

// segments gives the points that begin the segments between two lock
// operations. In each segment the thread synchronizes with nobody, so that one
// switch at its begin shows every race of it to the detector. Segments whose
// sites are all in earlier ones are left out.
func segments(trace []int32, max int) []int {
	seen := map[int32]bool{}
	var out []int
	begin, fresh := 0, false
	end := func() {
		if fresh {
			out = append(out, begin)
		}
	}
	for i, s := range trace {
		if s == zzvrt.LockSite {
			end()
			begin, fresh = i, false
		} else if !seen[s] {
			seen[s], fresh = true, true
		}
	}
	end()
	return spread(out, max)
}

// spread takes max of the values, evenly.
func spread(v []int, max int) []int {
	if len(v) <= max || max < 2 {
		return v[:min(len(v), max)]
	}
	var out []int
	for i := 0; i < max; i++ {
		out = append(out, v[i*(len(v)-1)/(max-1)])
	}
	return slices.Compact(out)
}

var siteKinds []bool // shared or not, by site

func sharedSite(s int32) bool {
	return s == zzvrt.LockSite || int(s) < len(siteKinds) && siteKinds[s]
}

// explore runs the schedules with one preemption at up to one points of the
// first call, and with two at up to two shared points of the calls.
func (e *explorer) explore(one, two int) {
	o := e.run(nil, true)
	for i := range e.prog {
		e.points = max(e.points, o.Points[i])
	}
	if e.bad != "" {
		return
	}
	n := len(e.prog)
	points := at(o.Trace[0], false, max(one, 0))
	if one < 0 {
		points = segments(o.Trace[0], -one)
	}
	for _, k := range points {
		for to := 1; to < n && e.bad == ""; to++ {
			e.run([]zzvrt.Switch{{T: 0, N: k, To: to}}, false)
		}
	}
	if two == 0 {
		return
	}
	var pts [][]int
	for i := range e.prog {
		pts = append(pts, at(o.Trace[i], true, two))
	}
	for _, k := range pts[0] {
		for to := 1; to < n; to++ {
			for _, j := range pts[to] {
				for back := 0; back < n; back++ {
					if back == to || e.bad != "" {
						continue
					}
					e.run([]zzvrt.Switch{{T: 0, N: k, To: to}, {T: to, N: j, To: back}}, false)
				}
			}
		}
	}
}

// sequential gives the results of the program's calls in every order.
func (e *explorer) sequential() map[string]bool {
	res := map[string]bool{}
	var rec func(left []int, order []int)
	rec = func(left, order []int) {
		if len(left) == 0 {
			st := &histState{}
			out := make([]string, len(e.prog))
			for _, i := range order {
				out[i] = e.ops[e.prog[i]].run(st)
			}
			res[strings.Join(out, "\x00")] = true
			return
		}
		for k, i := range left {
			rec(append(slices.Clone(left[:k]), left[k+1:]...), append(slices.Clone(order), i))
		}
	}
	var all []int
	for i := range e.prog {
		all = append(all, i)
	}
	rec(all, nil)
	return res
}

// judge says what is wrong with a tuple of results.
func (e *explorer) judge(tuple, sch string, seq map[string]bool) string {
	out := strings.Split(tuple, "\x00")
	prev := false
	for i, op := range e.prog {
		if e.ops[op].prev {
			prev = true
		} else if out[i] != e.solo[op] {
			return fmt.Sprintf("%s: %s with switches %s, alone: %s", e.ops[op].name, out[i], sch, e.solo[op])
		}
	}
	if prev && !seq[tuple] {
		return fmt.Sprintf("%q with switches %s: the calls don't give that in any order", out, sch)
	}
	return ""
}

func runC01(c *Ctx) {
	var solo []string
	loadPrep(&solo)
	ops := concOps()
	if f := os.Getenv("VERIF_SITES"); f != "" {
		siteKinds = loadSiteKinds(f)
	}
	controlled := os.Getenv("VERIF_INSTR") != ""
	if !controlled {
		c.res.Stopped = true
	} else {
		old := runtime.GOMAXPROCS(1)
		defer runtime.GOMAXPROCS(old)
	}
	name := func(prog []int) string {
		var s []string
		for _, i := range prog {
			s = append(s, ops[i].name)
		}
		return strings.Join(s, " || ")
	}
	one, two, raced, free := 24, 0, 16, 1
	if !c.Quick {
		one, two, raced, free = 100000, 20, 1000, 10
	}
	control := func(prog []int, one, two int) {
		if !controlled {
			return
		}
		c.Case("schedules "+name(prog), func() string {
			e := &explorer{ops: ops, prog: prog, solo: solo}
			seq := e.sequential()
			e.explore(one, two)
			c.Call(e.n * len(prog))
			c.Add("schedules", int64(e.n))
			c.Add("preemptions", int64(e.pre))
			c.Add("schedules_released", int64(e.released))
			c.Max("points_in_a_call", int64(e.points))
			for _, t := range e.order {
				c.Outcome(name(prog) + t)
				if m := e.judge(t, e.results[t], seq); m != "" && e.bad == "" {
					e.bad = m
				}
			}
			return e.bad
		})
	}
	race := func(prog []int, instr bool, n int) {
		bin, cmd := os.Getenv("VERIF_ALT"), "c01free"
		if instr {
			bin, cmd = os.Getenv("VERIF_INSTR_RACE"), "c01race"
		}
		if bin == "" {
			c.res.Stopped = true
			return
		}
		c.Case(cmd+" "+name(prog), func() string {
			args := []string{cmd, fmt.Sprint(n)}
			for _, i := range prog {
				args = append(args, fmt.Sprint(i))
			}
			p := exec.Command(bin, args...)
			p.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
			var msg strings.Builder
			p.Stderr = &limitWriter{sb: &msg, n: 1 << 20}
			t := time.AfterFunc(100*time.Second, func() { p.Process.Kill() })
			out, err := p.Output()
			if !t.Stop() {
				return "no end after 100 s"
			}
			if r := raceSummary(msg.String()); r != "" {
				return r
			}
			if err != nil {
				return fmt.Sprintf("%v: %s", err, tail(msg.String(), 600))
			}
			e := &explorer{ops: ops, prog: prog, solo: solo}
			seq := e.sequential()
			var res explored
			if instr {
				json.Unmarshal(out, &res)
			} else {
				var r []string
				json.Unmarshal(out, &r)
				for _, t := range r {
					res.Results = append(res.Results, [2]string{t, "(free-running)"})
				}
				res.N = n
			}
			c.Call(res.N * len(prog))
			c.Add("schedules_with_race_detector", int64(res.N))
			if res.Bad != "" {
				return res.Bad
			}
			if len(res.Results) == 0 {
				return "no results"
			}
			for _, t := range res.Results {
				if m := e.judge(t[0], t[1], seq); m != "" {
					return m
				}
			}
			return ""
		})
	}
	pairs := func(f func(prog []int)) {
		for i := range ops {
			for j := range ops {
				f([]int{i, j})
			}
		}
	}
	pairs(func(p []int) { control(p, one, two) })
	pairs(func(p []int) {
		if c.Quick && p[0] > p[1] {
			return
		}
		if controlled {
			race(p, true, raced)
		}
		if p[0] <= p[1] && (!c.Quick || p[0] == p[1] || !controlled) {
			race(p, false, free)
		}
	})
	for _, i := range concShort {
		for _, j := range concShort {
			for _, k := range concShort {
				if c.Quick {
					if i == j && j == k {
						control([]int{i, j, k}, 6, 3)
					}
					continue
				}
				control([]int{i, j, k}, 40, 8)
				if i <= j && j <= k {
					race([]int{i, j, k}, false, free)
				}
			}
		}
	}
}

// raceSummary shortens the first report of the race detector.
func raceSummary(msg string) string {
	i := strings.Index(msg, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	var fns []string
	take := false
	for _, l := range strings.Split(msg[i:], "\n")[1:] {
		if strings.HasPrefix(l, "====") || strings.HasPrefix(l, "Goroutine") {
			break
		}
		if !strings.HasPrefix(l, "  ") && l != "" {
			fns = append(fns, strings.SplitN(l, " at ", 2)[0]+":")
			take = true
		} else if take && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "    ") {
			fns = append(fns, strings.TrimSpace(l))
			take = len(fns) < 4
		}
	}
	return "data race: " + strings.Join(fns[:min(len(fns), 6)], " ")
}

func loadSiteKinds(path string) []bool {
	bt, _ := os.ReadFile(path)
	var sites []string
	json.Unmarshal(bt, &sites)
	out := make([]bool, len(sites))
	for i, s := range sites {
		out[i] = strings.HasPrefix(s, "!")
	}
	return out
}
