package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/zzvrt"
)

func init() {
	register(&Check{ID: "C05", Run: runC05, QuickSecs: 250, DeepSecs: 850,
		Statement:  "with CurrentTime set, every call of the cross-section gives the same result under every machine clock and local zone; without it, the result is that of the call with CurrentTime set to the clock's instant in UTC, or to one of the two if the clock ticks over a boundary between any two of the library's readings",
		Assume:     []string{"the library reads the clock by time.Now, Since and Until of package time", "all readings of a call are of the clock that the rewritten library uses; the clock may tick between any two readings, once per call"},
		Bounds:     map[string]string{"clocks": "set: 4 pairs of clock and local zone; unset: the ends of 2015, of 29 February 2016, of a day and of a second", "ticks": "at the first readings and the last one", "calls": "the quick cross-section"},
		BoundsDeep: map[string]string{"clocks": "set: 10 pairs; unset: 7 boundaries", "ticks": "in front of each of the first 40 readings and the last one", "calls": "every third of the deep cross-section, all of the quick one for the ticks"},
	})
}

var rxEpoch = regexp.MustCompile(`\d{10}|%s`)

func runC05(c *Ctx) {
	controlled := os.Getenv("VERIF_INSTR") != ""
	if !controlled {
		c.res.Stopped = true // can't set the clock
	}
	loose := false
	shw := func(dt date.Date, err error) string {
		if err != nil {
			return "error"
		}
		if loose {
			dt.Time = dt.Time.UTC()
		}
		return dt.Time.Format("2006-01-02 15:04:05.999999999 -0700 MST") + " " + dt.Period.String() + " " + dt.Locale
	}
	run := func(cc corpusCall) string {
		loose = rxEpoch.MatchString(cc.key)
		c.Call(1)
		r := safely(cc.run)
		return r
	}
	var reads int
	at := func(t time.Time) { zzvrt.Clock = func() time.Time { reads++; return t }; reads = 0 }
	local := func(name string) *time.Location {
		l, err := time.LoadLocation(name)
		if err != nil {
			panic(err)
		}
		return l
	}

	// CurrentTime is set
	type machine struct {
		clock time.Time
		zone  string
	}
	machines := []machine{
		{utc(1999, 12, 31, 23, 59, 59), "Asia/Tokyo"},
		{utc(2000, 2, 29, 3, 0, 0), "America/New_York"},
		{utc(2031, 3, 30, 12, 0, 0), "UTC"},
		{utc(2015, 7, 31, 12, 0, 0), "Pacific/Kiritimati"},
	}
	if !c.Quick {
		machines = append(machines,
			machine{utc(1969, 12, 31, 23, 0, 0), "Pacific/Apia"},
			machine{utc(2100, 1, 1, 0, 0, 0), "Australia/Lord_Howe"},
			machine{utc(2024, 2, 29, 23, 30, 0), "Europe/Dublin"},
			machine{utc(2038, 1, 19, 3, 14, 8), "Asia/Kolkata"},
			machine{utc(1900, 3, 1, 0, 0, 0), "America/St_Johns"},
			machine{utc(2016, 11, 6, 5, 30, 0), "America/New_York"})
	}
	set := filterOps(corpus(corpusOpt{verif: c.Verif, deep: !c.Quick, now: corpusNow, show: shw}))
	for i, cc := range set {
		if !c.Quick && i%3 != 0 {
			continue
		}
		c.Case("set "+cc.key, func() string {
			time.Local = time.UTC
			at(utc(2015, 7, 31, 12, 0, 0))
			want := run(cc)
			c.Outcome(want)
			for j, m := range machines {
				if c.Quick && (i+j)%2 == 1 {
					continue
				}
				time.Local = local(m.zone)
				at(m.clock)
				got := run(cc)
				time.Local = time.UTC
				c.Add("machines_compared", 1)
				if got != want {
					return fmt.Sprintf("CurrentTime is set, but with the machine's clock at %s in %s: %s, else %s", m.clock.Format(time.RFC3339), m.zone, got, want)
				}
			}
			return ""
		})
	}
	// bases at and beyond the ends of the calendars' tables
	bi := 0
	for _, b := range []time.Time{utc(1900, 1, 1, 0, 0, 0), utc(1, 1, 1, 0, 0, 1), utc(-500, 2, 3, 4, 5, 6), utc(559, 3, 1, 0, 0, 0), utc(621, 3, 21, 0, 0, 0), utc(1937, 3, 13, 12, 0, 0), utc(1937, 3, 15, 0, 0, 0),
		utc(2077, 11, 16, 0, 0, 0), utc(2077, 11, 18, 0, 0, 0), utc(2100, 2, 28, 23, 59, 59), utc(3799, 1, 1, 0, 0, 0), utc(9999, 12, 31, 23, 59, 59), time.Date(2016, 2, 29, 23, 0, 0, 0, local("America/New_York"))} {
		for pi := 0; pi < 27; pi++ {
			cfg := dps.Configuration{Languages: []string{"en"}, CurrentTime: b, PreferredDateSource: dps.PreferredDateSource(pi % 3), PreferredMonthOfYear: dps.PreferredMonthOfYear(pi / 3 % 3), PreferredDayOfMonth: dps.PreferredDayOfMonth(pi / 9)}
			if pi%2 == 1 {
				cfg.DefaultTimezone = local("Asia/Kolkata")
			}
			for _, s := range []string{"12/5", "29/2", "30-12 10:20", "10:20", "10:20 UTC-12:00", "31", "1395", "1437", "2016", "june", "wednesday", "اسفند", "شنبه", "رمضان", "3 days ago", "in 2 hours", "yesterday 10:20"} {
				bi++
				if c.Quick && bi%3 != 0 {
					continue
				}
				for fi, f := range []func() (date.Date, error){
					func() (date.Date, error) { return (&dps.Parser{}).Parse(&cfg, s) },
					func() (date.Date, error) { return dps.ParseHijri(&cfg, s) },
					func() (date.Date, error) { return dps.ParseJalali(&cfg, s) },
				} {
					c.Case(fmt.Sprintf("base %s pref%d %s %d", b.Format(time.RFC3339), pi, s, fi), func() string {
						time.Local = time.UTC
						at(utc(2015, 7, 31, 12, 0, 0))
						want := shw(f())
						c.Call(2)
						c.Outcome(want)
						m := machines[(bi+fi)%len(machines)]
						time.Local = local(m.zone)
						at(m.clock)
						got := shw(f())
						time.Local = time.UTC
						c.Add("machines_compared", 1)
						if got != want {
							return fmt.Sprintf("CurrentTime is set, but with the machine's clock at %s in %s: %s, else %s", m.clock.Format(time.RFC3339), m.zone, got, want)
						}
						return ""
					})
				}
			}
		}
	}
	if !controlled {
		return
	}

	// without it, a date behind an absolute one is relative to that one
	l := c19Langs[0]
	for _, a := range l.dates {
		for _, b := range []string{"yesterday", "2 days ago", "in 3 weeks", "june", "wednesday", "10:20", "31 december", "next month", "tomorrow 10:20"} {
			for _, g := range c19Gaps[:7] {
				text := a + expand(g, "", l) + l.fill[0] + " " + b
				c.Case("base "+text, func() string {
					at(utc(1990, 1, 1, 0, 0, 0))
					rs, err := (&dps.Parser{}).SearchWithLanguage(nil, "en", text)
					c.Call(2)
					if err != nil || len(rs) != 2 || rs[0].Date.Period != date.Day {
						return ""
					}
					want, err := (&dps.Parser{}).SearchWithLanguage(&dps.Configuration{CurrentTime: rs[0].Date.Time}, "en", text)
					c.Add("dates_relative_to_the_one_before", 1)
					if x, y := showSearch("en", rs, nil), showSearch("en", want, err); x != y {
						return fmt.Sprintf("%s, with CurrentTime set to the first date %s", x, y)
					}
					return ""
				})
			}
		}
	}

	// CurrentTime is not set
	bounds := []time.Time{utc(2016, 1, 1, 0, 0, 0), utc(2016, 3, 1, 0, 0, 0), utc(2015, 6, 18, 0, 0, 0), utc(2015, 6, 18, 10, 20, 1)}
	if !c.Quick {
		bounds = append(bounds, utc(2000, 1, 1, 0, 0, 0), utc(2015, 12, 1, 0, 0, 0), utc(2015, 2, 28, 13, 0, 0))
	}
	type variant struct {
		unset         []corpusCall
		before, after []corpusCall
	}
	ny := local("America/New_York")
	var vs []variant
	for i, b := range bounds {
		z := []*time.Location{nil, ny, nil, nil, ny, nil, nil}[i]
		mk := func(t time.Time) []corpusCall {
			return corpus(corpusOpt{verif: c.Verif, now: t, zone: z, force: true, show: shw})
		}
		vs = append(vs, variant{mk(time.Time{}), filterOps(mk(b.Add(-1))), filterOps(mk(b))})
	}
	for vi, v := range vs {
		if len(v.unset) != len(v.before) {
			panic(fmt.Sprintf("%d unset calls, %d set ones", len(v.unset), len(v.before)))
		}
		b := bounds[vi]
		for i, cc := range v.unset {
			if strings.HasPrefix(cc.key, "search") && !cc.one {
				continue // the dates behind the first one are relative to it
			}
			if c.Quick && vi > 0 && (i+vi)%3 != 0 {
				continue
			}
			c.Case("unset "+b.Format("2006-01-02T15:04:05")+" "+cc.key, func() string {
				time.Local = []*time.Location{time.UTC, ny}[i%2]
				defer func() { time.Local = time.UTC }()
				at(utc(1990, 1, 1, 0, 0, 0))
				before := run(v.before[i])
				at(b.Add(-1).In(time.Local))
				got := run(cc)
				n := reads
				c.Max("readings_in_a_call", int64(n))
				c.Outcome(got)
				if got != before {
					return fmt.Sprintf("clock at %s: %s, with CurrentTime set to it %s", b.Add(-1).Format(time.RFC3339Nano), got, before)
				}
				at(utc(1990, 1, 1, 0, 0, 0))
				after := run(v.after[i])
				if after == before {
					return ""
				}
				c.Add("calls_that_depend_on_the_boundary", 1)
				for p := 1; p < n; p++ {
					if c.Quick && p > 4 && p != n-1 || p > 40 && p != n-1 {
						continue
					}
					k := 0
					zzvrt.Clock = func() time.Time {
						k++
						if k > p {
							return b.In(time.Local)
						}
						return b.Add(-1).In(time.Local)
					}
					got := run(cc)
					c.Add("ticks", 1)
					if got != before && got != after {
						return fmt.Sprintf("clock ticking over to %s after reading %d: %s, but %s before and %s after it", b.Format(time.RFC3339), p, got, before, after)
					}
				}
				return ""
			})
		}
	}
}

// filterOps drops the calls that the corpus has only if the time is set.
func filterOps(calls []corpusCall) []corpusCall {
	var out []corpusCall
	for _, c := range calls {
		if !strings.HasPrefix(c.key, "op ") {
			out = append(out, c)
		}
	}
	return out
}
