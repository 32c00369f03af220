package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C12", Run: runC12, QuickSecs: 150, DeepSecs: 800,
		Statement:  "a zone written in the string has its exact offset, leaves the written clock alone and wins over every configured zone",
		Assume:     []string{"tables/zones.tsv is the documented table of abbreviations", "the Go time zone database is trusted", "offsets are those of the supported list (all offsets in use)"},
		Bounds:     map[string]string{"zones": "42 offsets in every notation, 389 abbreviations", "positions": "13 layouts", "default zones": "8 locations at DST boundaries", "base zones": "19 days around 12 clock changes x 5 times x about 70 strings of all kinds, each with one (thorough ten) of 27 preference combinations", "PopTzOffset": "every zone in 8 surroundings"},
		BoundsDeep: map[string]string{"zones": "42 offsets in every notation, 389 abbreviations in three cases", "positions": "13 layouts x every configuration", "default zones": "every hour of 6 days around the transitions of 12 locations", "base zones": "19 days around 12 clock changes x 5 times x about 70 strings x 10 of 27 preferences"},
	})
}

type zoneForm struct {
	text string
	off  int
	name string
	abbr bool
}

var c12Offsets = []string{"-12:00", "-11:00", "-10:00", "-09:30", "-09:00", "-08:00", "-07:00", "-06:00", "-05:00", "-04:30", "-04:00", "-03:30", "-03:00", "-02:30", "-02:00", "-01:00", "-00:00",
	"+00:00", "+01:00", "+02:00", "+03:00", "+03:30", "+04:00", "+04:30", "+05:00", "+05:30", "+05:45", "+06:00", "+06:30", "+07:00", "+08:00", "+08:45", "+09:00", "+09:30", "+10:00", "+10:30", "+11:00", "+11:30", "+12:00", "+12:45", "+13:00", "+14:00"}

func offsetForms() []zoneForm {
	var out []zoneForm
	for _, o := range c12Offsets {
		sign, hh, mm := o[:1], o[1:3], o[4:]
		var h, m int
		fmt.Sscanf(hh, "%d", &h)
		fmt.Sscanf(mm, "%d", &m)
		off := h*3600 + m*60
		if sign == "-" {
			off = -off
		}
		add := func(s string) { out = append(out, zoneForm{text: s, off: off, name: "UTC" + o}) }
		for _, pre := range []string{"UTC", "GMT", ""} {
			add(pre + o)
			add(pre + sign + hh + mm)
			if pre == "" {
				continue
			}
			if mm == "00" {
				add(pre + sign + hh)
				if h < 10 {
					add(pre + sign + hh[1:])
				}
			} else if h < 10 {
				add(pre + sign + hh[1:] + ":" + mm)
			}
			if h < 10 && mm == "00" {
				add(pre + sign + hh[1:] + ":" + mm)
			}
		}
		add("utc" + o)
		add("gmt" + o)
	}
	return out
}

func abbrForms(c *Ctx) []zoneForm {
	var out []zoneForm
	bt, err := os.ReadFile(tablePath(c, "zones.tsv"))
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(strings.TrimSpace(string(bt)), "\n") {
		var n string
		var off int
		fmt.Sscanf(l, "%s\t%d", &n, &off)
		out = append(out, zoneForm{n, off, n, true})
	}
	return out
}

func runC12(c *Ctx) {
	cross(c, crossInputs("C12"))
	p := &dps.Parser{}
	load := func(n string) *time.Location {
		l, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		return l
	}
	ny, lh, lon, apia := load("America/New_York"), load("Australia/Lord_Howe"), load("Europe/London"), load("Pacific/Apia")
	fx := time.FixedZone("X", -12345)
	base := utc(2015, 7, 31, 22, 30, 0)
	type lay struct {
		s    string // Z is the zone
		want func(off int) time.Time
		per  date.Period
		nums bool // for numeric offsets too
	}
	in := func(off int) *time.Location { return time.FixedZone("", off) }
	mk := func(y, m, d, h, mi, s, ns int) func(int) time.Time {
		return func(off int) time.Time { return time.Date(y, time.Month(m), d, h, mi, s, ns, in(off)) }
	}
	rel := func(f func(time.Time) time.Time) func(int) time.Time {
		return func(off int) time.Time { return f(base.In(in(off))) }
	}
	lays := []lay{
		{"2015-03-08 02:30 Z", mk(2015, 3, 8, 2, 30, 0, 0), date.Day, true},
		{"8 March 2015 23:59:59 Z", mk(2015, 3, 8, 23, 59, 59, 0), date.Day, true},
		{"December 31, 2014 11:15 pm Z", mk(2014, 12, 31, 23, 15, 0, 0), date.Day, true},
		{"2016-02-29T00:00:00.123456Z", mk(2016, 2, 29, 0, 0, 0, 123456000), date.Day, true},
		{"Sun, 01 Nov 2015 01:30:00 Z", mk(2015, 11, 1, 1, 30, 0, 0), date.Day, true},
		{"2014-10-01 00:00 (Z)", mk(2014, 10, 1, 0, 0, 0, 0), date.Day, true},
		{"2014-10-01 12:34 [Z]", mk(2014, 10, 1, 12, 34, 0, 0), date.Day, false},
		{"20 June 2014 Z", mk(2014, 6, 20, 0, 0, 0, 0), date.Day, false},
		{"10:20 Z 20 June 2014", mk(2014, 6, 20, 10, 20, 0, 0), date.Day, false},
		{"20 June 2014 10:20 Z, Friday", mk(2014, 6, 20, 10, 20, 0, 0), date.Day, false},
		{"3 hours ago Z", rel(func(t time.Time) time.Time { return t.Add(-3 * time.Hour) }), date.Day, true},
		{"yesterday 10:20 Z", rel(func(t time.Time) time.Time {
			return time.Date(t.Year(), t.Month(), t.Day()-1, 10, 20, 0, 0, t.Location())
		}), date.Day, true},
		{"in 2 months Z", rel(func(t time.Time) time.Time { return t.AddDate(0, 2, 0) }), date.Month, true},
	}
	cfgs := []dps.Configuration{
		{Languages: []string{"en"}, CurrentTime: base},
		{Languages: []string{"en"}, CurrentTime: base, DefaultTimezone: ny},
		{Languages: []string{"en"}, CurrentTime: base.In(lh)},
		{Languages: []string{"en"}, CurrentTime: base.In(fx), DefaultTimezone: lh},
		{Languages: []string{"en"}, CurrentTime: base, DefaultTimezone: fx, StrictParsing: true},
	}
	// Some abbreviations are English words in some positions.
	skip := map[string]bool{"MIT": true}
	_ = skip
	exec := func(z zoneForm, text string, li, ci int) {
		l := lays[li]
		str := strings.Replace(l.s, "Z", text, 1)
		if cfgs[ci].StrictParsing && strings.Contains(l.s, "10:20") {
			ci = 1
		}
		c.Case(fmt.Sprintf("cfg%d %q", ci, str), func() string {
			cfg := cfgs[ci]
			dt, err := p.Parse(&cfg, str)
			c.Call(1)
			c.Outcome(show(dt, err))
			if msg := diffDate(dt, err, l.want(z.off), l.per); msg != "" {
				return msg
			}
			if z.abbr && text == strings.ToUpper(text) {
				if nm, _ := dt.Time.Zone(); nm != z.name {
					return fmt.Sprintf("want zone name %q, got %q", z.name, nm)
				}
			}
			return ""
		})
	}
	unsup := map[string]bool{}
	if bt, err := os.ReadFile(tablePath(c, "zones-unsupported.tsv")); err == nil {
		for _, l := range strings.Split(string(bt), "\n") {
			unsup[l] = true
		}
	}
	offs, abbrs := offsetForms(), abbrForms(c)
	for i, z := range offs {
		for li := range lays {
			if !lays[li].nums || c.Quick && (i+li)%2 == 1 && li > 1 {
				continue
			}
			if li == 3 && !strings.ContainsAny(z.text[:1], "+-") || unsup[fmt.Sprintf("%d\t%s", li, z.text)] {
				continue
			}
			for ci := range cfgs {
				if c.Quick && (i+li+ci)%5 != 0 {
					continue
				}
				exec(z, z.text, li, ci)
			}
		}
	}
	for i, z := range abbrs {
		texts := []string{z.text}
		if !c.Quick {
			texts = append(texts, strings.ToLower(z.text), strings.ToUpper(z.text[:1])+strings.ToLower(z.text[1:]))
		} else if i%2 == 0 {
			texts = append(texts, strings.ToLower(z.text))
		}
		if strings.HasSuffix(z.name, "Č") { // the four Czech codes: see known-findings.txt
			exec(z, z.text, 0, 0)
			continue
		}
		for ti, text := range texts {
			for li := range lays {
				if c.Quick && (i+li+ti)%4 != 0 && li > 0 || li == 3 && z.name != "Z" || unsup[fmt.Sprintf("%d\t%s", li, z.text)] {
					continue
				}
				if c.Quick {
					exec(z, text, li, (i+li)%5)
				} else {
					exec(z, text, li, (i+li)%5)
					exec(z, text, li, (i+li+2)%5)
				}
			}
		}
	}
	// zones in other languages
	type lg struct{ lang, s string }
	for _, l := range []lg{{"fr", "8 mars 2015 10:20 Z"}, {"de", "8. März 2015 10:20 Z"}, {"es", "8 de marzo de 2015 10:20 Z"}, {"ru", "8 марта 2015 10:20 Z"}, {"ar", "8 مارس 2015 10:20 Z"}, {"zh", "2015年3月8日 10:20 Z"}, {"tr", "8 Mart 2015 10:20 Z"}, {"hi", "8 मार्च 2015 10:20 Z"}} {
		for _, z := range append(offs, zoneForm{"UTC", 0, "UTC", true}, zoneForm{"GMT", 0, "GMT", true}, zoneForm{"EDT", -14400, "EDT", true}, zoneForm{"CEST", 7200, "CEST", true}, zoneForm{"PST", -28800, "PST", true}, zoneForm{"JST", 32400, "JST", true}) {
			if !z.abbr && z.text != z.name && (c.Quick || strings.HasPrefix(z.text, "u") || strings.HasPrefix(z.text, "g")) || unsup[l.lang+"\t"+z.text] {
				continue
			}
			str := strings.Replace(l.s, "Z", z.text, 1)
			c.Case(fmt.Sprintf("lang %s %q", l.lang, str), func() string {
				dt, err := p.Parse(&dps.Configuration{Languages: []string{l.lang}, CurrentTime: base, DefaultTimezone: ny}, str)
				c.Call(1)
				c.Outcome(show(dt, err))
				return diffDate(dt, err, time.Date(2015, 3, 8, 10, 20, 0, 0, in(z.off)), date.Day)
			})
		}
	}
	// No zone in the string: DefaultTimezone with the offset in force then, else the zone of CurrentTime.
	locs := []*time.Location{ny, lh, lon, apia, fx, load("Asia/Kathmandu"), load("America/Sao_Paulo"), load("Africa/Casablanca")}
	days := [][3]int{{2015, 3, 8}, {2015, 11, 1}, {2015, 10, 4}, {2015, 4, 5}, {2015, 3, 29}, {2015, 10, 25}, {2011, 12, 29}, {2015, 7, 1}}
	step := 30
	if !c.Quick {
		locs = append(locs, load("Europe/Dublin"), load("Asia/Tehran"), load("Africa/Monrovia"), load("Antarctica/Troll"))
		step = 10
	}
	near := func(loc *time.Location, w time.Time) map[int]bool { // offsets under which the wall clock exists; none in a gap
		out := map[int]bool{}
		for _, k := range []int{-26, 26} {
			_, o := time.Date(w.Year(), w.Month(), w.Day(), w.Hour()+k, w.Minute(), 0, 0, loc).Zone()
			t := time.Date(w.Year(), w.Month(), w.Day(), w.Hour(), w.Minute(), 0, 0, time.FixedZone("", o))
			if _, o2 := t.In(loc).Zone(); o2 == o {
				out[o] = true
			}
		}
		return out
	}
	for loi, loc := range locs {
		for _, d := range days {
			for dd := -1; dd <= 1; dd++ {
				for mi := 0; mi < 1440; mi += step {
					if c.Quick && (mi < 0 || mi > 300) && mi%240 != 0 {
						continue
					}
					w := time.Date(d[0], time.Month(d[1]), d[2]+dd, 0, mi, 0, 0, time.UTC)
					kinds := []string{w.Format("2006-01-02 15:04"), w.Format("2 January 2006 3:04 PM"), w.Format("Jan 2, 2006 15:04:05"), // absolute dates
						w.Format("20060102150405"), w.Format("2006|02|01|15|04"), w.Format("yesterday 15:04"), w.Format("02 Jan 2006 15:04")} // unspaced, custom, relative, searched
					for v, str := range kinds {
						if v < 3 && v != (mi/step+loi)%3 || v >= 3 && c.Quick && v != 3+(mi/step+loi+dd)&3 {
							continue
						}
						for cur := 0; cur < 3; cur++ {
							c.Case(fmt.Sprintf("default %s cur%d %q", loc, cur, str), func() string {
								cfg := &dps.Configuration{Languages: []string{"en"}, DefaultTimezone: loc, CurrentTime: base}
								if cur == 1 {
									cfg.CurrentTime = base.In(apia)
								} else if cur == 2 {
									cfg.CurrentTime, cfg.DefaultTimezone = base.In(loc), nil
								}
								var dt date.Date
								var err error
								zone := loc
								switch v {
								case 3: // these know no other zone than the default one
									cfg.DateOrder = dps.YMD
									dt, err = (&dps.Parser{ParserTypes: []dps.ParserType{dps.NoSpacesTime}}).Parse(cfg, str)
									if cfg.DefaultTimezone == nil {
										zone = time.UTC
									}
								case 4:
									dt, err = p.Parse(cfg, str, "2006|02|01|15|04")
									if cfg.DefaultTimezone == nil {
										zone = time.UTC
									}
								case 5: // a day later, so another offset may be in force
									cfg.CurrentTime = time.Date(w.Year(), w.Month(), w.Day()+1, 12, 0, 0, 0, loc)
									if cfg.CurrentTime.Day() != w.AddDate(0, 0, 1).Day() {
										return "" // no such day there
									}
									if cur == 1 {
										cfg.CurrentTime = cfg.CurrentTime.UTC()
									}
									dt, err = p.Parse(cfg, str)
								case 6:
									var rs []dps.SearchResult
									rs, err = p.SearchWithLanguage(cfg, "en", "Xqzzle "+str+" flurb")
									if len(rs) != 1 {
										return fmt.Sprint(len(rs), " dates found")
									}
									dt = rs[0].Date
								default:
									dt, err = p.Parse(cfg, str)
								}
								c.Call(1)
								c.Outcome(show(dt, err))
								if err != nil {
									return "not parsed"
								}
								offs := near(zone, w)
								if len(offs) == 0 {
									return "" // that clock time does not exist there
								}
								if got := dt.Time.Format("2006-01-02 15:04:05"); got != w.Format("2006-01-02 15:04:05") {
									return "the written clock " + str + " became " + got
								}
								if _, o := dt.Time.Zone(); !offs[o] {
									return fmt.Sprintf("offset %d is not in force then in %s", o, zone)
								}
								return ""
							})
						}
					}
				}
			}
		}
	}
	// the base time's zone adds nothing but its offset: the wall clock is the one found from the same base clock in UTC
	gaps := []struct {
		zone    string
		y, m, d int
	}{{"America/Havana", 2001, 4, 1}, {"America/Sao_Paulo", 2018, 11, 4}, {"Asia/Beirut", 2015, 3, 29}, {"America/Asuncion", 2015, 10, 4}, {"Pacific/Apia", 2011, 12, 30},
		{"Asia/Kolkata", 1906, 1, 1}, {"America/New_York", 2015, 3, 8}, {"America/New_York", 2015, 11, 1}, {"Australia/Lord_Howe", 2016, 4, 3}, {"Asia/Amman", 2002, 3, 29}, {"Africa/Cairo", 2010, 9, 30}, {"Asia/Gaza", 2012, 3, 30}}
	for gi, g := range gaps {
		loc := load(g.zone)
		day := utc(g.y, time.Month(g.m), g.d, 0, 0, 0)
		var strs [][2]string // text and layout
		for _, l := range []string{"January 2006", "January", "2 January", "Monday", "2006", "2 January 06", "15:04", "Monday 15:04", "January 2 15:04", "2 January 2006", "2"} {
			strs = append(strs, [2]string{day.Format(l)}, [2]string{day.Add(time.Hour / 2).Format(l)})
		}
		for _, s := range []string{"today", "yesterday", "tomorrow", "in 1 day", "1 day ago", "1 month ago", "in 1 month", "1 year ago", "in 1 year", "1 week ago", "in 2 weeks", "in 31 days", "next month", "last year", "yesterday 00:30", "tomorrow 12:00", "1 month ago 00:00", "00:00", "23:59:59", "31", "1", "30"} {
			strs = append(strs, [2]string{s})
		}
		for _, l := range []string{"January 2006", "2006", "January", "2006|01", "02.01.", "15:04", "2006 2", "2006|01|02", "2006-01-02T15"} {
			strs = append(strs, [2]string{day.Format(l), l})
		}
		for _, s := range []string{"tomorrow 12:00", "1 month ago", day.Format("January"), day.Format("2 January 2006"), day.Format("Monday"), day.Format("2 January 2006") + " and then next day", day.Format("January 2006") + " and then 5 January"} {
			strs = append(strs, [2]string{"Xqzzle " + s + " flurb", "search"})
		}
		strs = append(strs, [2]string{day.Format("20060102"), "unspaced"}, [2]string{day.Format("20060102") + "003000", "unspaced"})
		for _, s := range []string{"فروردین", "12 فروردین", "فروردین 1380", "1394", "12", "00:30", "جمعه", "13 دی 94"} {
			strs = append(strs, [2]string{s, "jalali"})
		}
		for _, s := range []string{"رمضان", "1432", "12", "00:30", "05-02-33", "7/1436"} {
			strs = append(strs, [2]string{s, "hijri"})
		}
		seen := map[string]bool{}
		for _, off := range []int{-366, -365, -31, -30, -28, -7, -2, -1, 0, 1, 2, 6, 7, 28, 29, 30, 31, 365, 366} {
			for hi, hm := range []int{0, 30, 150, 720, 1439} {
				w := day.AddDate(0, 0, off).Add(time.Duration(hm) * time.Minute)
				now := time.Date(w.Year(), w.Month(), w.Day(), w.Hour(), w.Minute(), 0, 0, loc)
				if now.Hour() != w.Hour() || now.Minute() != w.Minute() || now.Day() != w.Day() || len(near(loc, w)) == 0 {
					continue
				}
				for si, str := range strs {
					for pi := 0; pi < 27; pi++ {
						if k := (pi + si*5 + off + 400 + hi*7 + gi) % 27; c.Quick && k > 0 || k > 9 {
							continue
						}
						key := fmt.Sprintf("gap %s %s pref%d %q %q", g.zone, w.Format("2006-01-02T15:04"), pi, str[0], str[1])
						if seen[key] {
							continue
						}
						seen[key] = true
						c.Case(key, func() string {
							run := func(now time.Time, def *time.Location) (date.Date, error) {
								cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now, DefaultTimezone: def, PreferredDateSource: dps.PreferredDateSource(pi % 3),
									PreferredDayOfMonth: dps.PreferredDayOfMonth(pi / 3 % 3), PreferredMonthOfYear: dps.PreferredMonthOfYear(pi / 9), ReturnTimeAsPeriod: pi%2 == 1}
								c.Call(1)
								switch str[1] {
								case "search":
									rs, err := p.SearchWithLanguage(cfg, "en", str[0])
									if err != nil || len(rs) == 0 {
										return date.Date{}, fmt.Errorf("none")
									}
									return rs[len(rs)-1].Date, nil
								case "jalali":
									return dps.ParseJalali(cfg, str[0])
								case "hijri":
									return dps.ParseHijri(cfg, str[0])
								case "unspaced":
									cfg.DateOrder = dps.YMD
									return (&dps.Parser{ParserTypes: []dps.ParserType{dps.NoSpacesTime}}).Parse(cfg, str[0])
								case "":
								default:
									return p.Parse(cfg, str[0], str[1])
								}
								return p.Parse(cfg, str[0])
							}
							want, e0 := run(w, nil)
							for v, def := range []*time.Location{nil, loc} {
								dt, err := run(now, def)
								c.Outcome(show(dt, err))
								if (err == nil) != (e0 == nil) {
									return fmt.Sprintf("%d: %s, but with the same base clock in UTC %s", v, show(dt, err), show(want, e0))
								}
								if err != nil {
									continue
								}
								zone := loc
								if def == nil && (str[1] == "unspaced" || strings.ContainsAny(str[1], "0126J")) {
									zone = time.UTC
								}
								offs := near(zone, want.Time)
								if len(offs) == 0 {
									continue // no such time there
								}
								_, o := dt.Time.Zone()
								if wall(dt, err) != wall(want, e0) || dt.Period != want.Period || !offs[o] {
									return fmt.Sprintf("%d: %s, but with the same base clock in UTC %s", v, show(dt, err), show(want, e0))
								}
							}
							return ""
						})
					}
				}
			}
		}
	}
	// the zone decides which day "now" is on, also for dates that lack parts
	for _, z := range []zoneForm{{text: "UTC+14:00", off: 50400}, {text: "UTC-12:00", off: -43200}, {text: "HST", off: -36000}, {text: "NZST", off: 43200}, {text: "UTC+05:30", off: 19800}} {
		for h := 0; h < 24; h++ {
			for wi, words := range []string{"now", "today", "yesterday", "tomorrow", "1 day ago", "1 hour ago", "in 30 minutes"} {
				str := words + " " + z.text
				c.Case(fmt.Sprintf("base %02d %q", h, str), func() string {
					now := utc(2015, 12, 31, h, 15, 0)
					dt, err := p.Parse(&dps.Configuration{Languages: []string{"en"}, CurrentTime: now, DefaultTimezone: ny}, str)
					c.Call(1)
					b := now.In(in(z.off))
					want := []time.Time{b, b, b.AddDate(0, 0, -1), b.AddDate(0, 0, 1), b.AddDate(0, 0, -1), b.Add(-time.Hour), b.Add(30 * time.Minute)}[wi]
					return diffDate(dt, err, want, date.Day)
				})
			}
		}
	}
	// PopTzOffset
	sur := []string{"10:20 Z", "2015-01-01 10:20:30 Z", "10:20 Z, Monday", "10:20 (Z)", "10:20 Z 2015", "a b Z", "10:20  Z  x", "時刻 Z。x"}
	for _, z := range append(append([]zoneForm{}, offs...), abbrs...) {
		for si, s := range sur {
			if !z.abbr && si != 0 && si != 1 && si != 5 {
				continue // offsets are recognised at the end only
			}
			str := strings.Replace(s, "Z", z.text, 1)
			if unsup["pop\t"+str] {
				continue
			}
			c.Case(fmt.Sprintf("pop %q", str), func() string {
				clean, name, off := dps.PopTzOffset(str)
				c.Call(1)
				c.Outcome(clean + name)
				i := strings.Index(s, "Z")
				rest := s[i+1:]
				if rest != "" { // the zone takes one separator with it
					_, n := firstRune(rest)
					rest = rest[n:]
				}
				if want := s[:i] + rest; clean != want || off != z.off || name != z.name {
					return fmt.Sprintf("want %q %q %d, got %q %q %d", want, z.name, z.off, clean, name, off)
				}
				return ""
			})
		}
	}
	for _, s := range []string{"", " ", "10:20", "2015-01-01", "15 May 2004", "Wed Aug 05 12:00:00 EDTERR 2015", "ESTX", "XEST", "aESTb", "10:20 pm", "UTC", "EST", "yesterday", "in 5 days", "12-05-2014", "2014-12-05", "1999-12", "June 5 2014 10:20:30", "EST5", "東京", "10:20 E S T"} {
		c.Case(fmt.Sprintf("pop nothing %q", s), func() string {
			clean, name, off := dps.PopTzOffset(s)
			c.Call(1)
			if clean != s || off != 0 || name != "" {
				return fmt.Sprintf("got %q %q %d", clean, name, off)
			}
			return ""
		})
	}
}

func firstRune(s string) (rune, int) {
	for i, r := range s {
		if i > 0 {
			return r, i
		}
	}
	return 0, len(s)
}
