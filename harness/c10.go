package main

import (
	"fmt"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{
		ID: "C10",
		Statement: "Enumerates base times (month ends, leap days, exact midnights, several zones) x PreferredDateSource x PreferredMonthOfYear x PreferredDayOfMonth x every combination of stated parts " +
			"(month, day+month, month+year, year, day, weekday, time, two-digit years, with and without time of day, in several languages); every string is parsed by the real parser and compared with a reference model of filling in.",
		QuickSecs: 60, DeepSecs: 800,
		Bounds:     map[string]string{"bases": "12 base times, 3 zones", "preferences": "all 27 combinations", "strings": "about 150 per base and preference"},
		BoundsDeep: map[string]string{"bases": "every day of 2015-01-25..2016-03-05 that is within 3 days of a month end or a leap day, three times of day, 4 zones", "preferences": "all 27 x ReturnTimeAsPeriod", "strings": "about 500 per base and preference"},
		Run:        runC10,
	})
}

type partString struct {
	s string
	p parts
	l string // language; "" = en
	o string // date order; "" = default
}

// incompleteStrings lists date strings with the parts they state.
func incompleteStrings(deep bool) []partString {
	var out []partString
	add := func(s string, f func(p *parts)) {
		p := noParts()
		f(&p)
		out = append(out, partString{s: s, p: p})
	}
	for m := 1; m <= 12; m++ {
		name := enMonths[m]
		add(name, func(p *parts) { p.m = m })
		if m != 5 && deep {
			add(name[:3], func(p *parts) { p.m = m })
		}
		for _, y := range []int{2000, 2015, 2100} {
			if m%3 == 2 || deep {
				add(fmt.Sprintf("%s %d", name, y), func(p *parts) { p.m, p.y, p.yw = m, y, 4 })
			}
		}
		if m == 2 {
			add("February 2016", func(p *parts) { p.m, p.y, p.yw = 2, 2016, 4 })
			add("2016-02", func(p *parts) { p.m, p.y, p.yw = 2, 2016, 4 })
			add("2015-02", func(p *parts) { p.m, p.y, p.yw = 2, 2015, 4 })
			add("02/2016", func(p *parts) { p.m, p.y, p.yw = 2, 2016, 4 })
		}
		days := []int{1, 10, 28, 29, 30, 31}
		if deep {
			days = []int{1, 2, 9, 10, 13, 28, 29, 30, 31}
		}
		for _, d := range days {
			if d > dim(2016, m) {
				continue
			}
			if !deep && !(m == 2 || d == 31 || d == 10 || (d == 1 && m%2 == 1) || m == 7) {
				continue
			}
			add(fmt.Sprintf("%d %s", d, name), func(p *parts) { p.m, p.d = m, d })
			if d >= 28 || deep {
				add(fmt.Sprintf("%s %d", name, d), func(p *parts) { p.m, p.d = m, d })
			}
		}
	}
	for _, y := range []int{1000, 1999, 2000, 2014, 2015, 2016, 2100} {
		add(fmt.Sprint(y), func(p *parts) { p.y, p.yw = y, 4 })
		add(fmt.Sprintf("31 %d", y), func(p *parts) { p.d, p.y, p.yw = 31, y, 4 })
		add(fmt.Sprintf("%d 10:20", y), func(p *parts) { p.y, p.yw = y, 4; p.h, p.mi, p.tper = 10, 20, date.Minute })
	}
	for wd, n := range enWeekdays {
		add(n, func(p *parts) { p.wd = wd })
		add(strings.ToLower(n[:3]), func(p *parts) { p.wd = wd })
		add(n+" 10:20", func(p *parts) { p.wd = wd; p.h, p.mi, p.tper = 10, 20, date.Minute })
		if deep {
			add("August "+n, func(p *parts) { p.wd, p.m = wd, 8 })
		}
	}
	for _, t := range []struct {
		s        string
		h, mi, S int
		per      date.Period
	}{{"00:00", 0, 0, 0, date.Minute}, {"00:01", 0, 1, 0, date.Minute}, {"10:00", 10, 0, 0, date.Minute}, {"12:00:00", 12, 0, 0, date.Second}, {"11:59:59 pm", 23, 59, 59, date.Second}, {"3 pm", 15, 0, 0, date.Hour}, {"23:59", 23, 59, 0, date.Minute}} {
		set := func(p *parts) { p.h, p.mi, p.s, p.tper = t.h, t.mi, t.S, t.per }
		add(t.s, func(p *parts) { set(p) })
		add("29 February "+t.s, func(p *parts) { set(p); p.m, p.d = 2, 29 })
		add("31 July "+t.s, func(p *parts) { set(p); p.m, p.d = 7, 31 })
		if deep {
			add("February "+t.s, func(p *parts) { set(p); p.m = 2 })
			add("February 2016 "+t.s, func(p *parts) { set(p); p.m, p.y, p.yw = 2, 2016, 4 })
		}
	}
	for _, d := range []int{13, 28, 29, 30, 31} {
		add(fmt.Sprintf("%dth", d), func(p *parts) { p.d = d })
	}
	for _, x := range [][3]int{{0, 2, 29}, {15, 7, 31}, {15, 8, 1}, {16, 2, 29}, {68, 1, 1}, {69, 12, 31}, {99, 2, 10}, {14, 12, 31}} {
		y := x[0] + 2000
		if x[0] >= 69 {
			y -= 100
		}
		add(fmt.Sprintf("%d %s %02d", x[2], enMonths[x[1]], x[0]), func(p *parts) { p.y, p.yw, p.m, p.d = y, 2, x[1], x[2] })
		add(fmt.Sprintf("%02d/%02d/%02d", x[1], x[2], x[0]), func(p *parts) { p.y, p.yw, p.m, p.d = y, 2, x[1], x[2] })
	}
	// other languages
	lang := func(l, s string, f func(p *parts)) {
		add(s, f)
		out[len(out)-1].l = l
	}
	lang("fr", "août", func(p *parts) { p.m = 8 })
	lang("fr", "29 février", func(p *parts) { p.m, p.d = 2, 29 })
	lang("de", "Februar", func(p *parts) { p.m = 2 })
	lang("de", "31. Juli", func(p *parts) { p.m, p.d = 7, 31 })
	lang("es", "viernes", func(p *parts) { p.wd = 5 })
	lang("ru", "10 августа", func(p *parts) { p.m, p.d = 8, 10 })
	lang("ru", "февраль 2016", func(p *parts) { p.m, p.y, p.yw = 2, 2016, 4 })
	lang("zh", "8月", func(p *parts) { p.m = 8 })
	lang("es", "29/02/00", func(p *parts) { p.y, p.yw, p.m, p.d = 2000, 2, 2, 29 })
	lang("fa", "جمعه", func(p *parts) { p.wd = 5 })
	return out
}

func runC10(c *Ctx) {
	p := &dps.Parser{}
	ny, _ := time.LoadLocation("America/New_York")
	zones := []*time.Location{time.UTC, time.FixedZone("X", 5*3600+1800), ny}
	type b struct{ y, m, d, h, mi, s, ns int }
	bs := []b{{2015, 7, 31, 12, 0, 0, 0}, {2016, 2, 29, 23, 59, 59, 999999999}, {2015, 1, 31, 0, 0, 0, 0}, {2015, 2, 28, 10, 0, 0, 0}, {2015, 3, 1, 0, 0, 0, 0}, {2014, 12, 31, 23, 59, 0, 0},
		{1999, 2, 10, 10, 20, 0, 0}, {2000, 2, 29, 0, 0, 0, 1}, {2015, 8, 10, 0, 0, 0, 0}, {2015, 7, 29, 15, 0, 0, 0}, {2017, 10, 31, 3, 0, 0, 0}, {2012, 3, 30, 10, 20, 0, 0}}
	strs := incompleteStrings(!c.Quick)
	if !c.Quick {
		zones = append(zones, time.FixedZone("Y", -11*3600))
		bs = nil
		for t := utc(2015, 1, 25, 0, 0, 0); t.Before(utc(2016, 3, 6, 0, 0, 0)); t = t.AddDate(0, 0, 1) {
			if d := t.Day(); d <= 2 || d >= dim(t.Year(), int(t.Month()))-2 || d == 10 {
				bs = append(bs, b{t.Year(), int(t.Month()), d, []int{0, 10, 23}[d%3], 20 * (d % 3), 0, d % 2})
			}
		}
		bs = append(bs, b{2016, 2, 29, 23, 59, 59, 999999999}, b{2000, 2, 29, 0, 0, 0, 0}, b{1999, 2, 10, 1, 1, 1, 1})
	}
	dtz := []*time.Location{nil, time.FixedZone("D", 9*3600)}
	for bi, x := range bs {
		for src := dps.CurrentPeriod; src <= dps.Future; src++ {
			for mon := dps.CurrentMonth; mon <= dps.LastMonth; mon++ {
				for day := dps.Current; day <= dps.Last; day++ {
					zi := (bi + int(src) + int(mon)*2 + int(day)) % len(zones)
					loc := zones[zi]
					for si, ps := range strs {
						now := time.Date(x.y, time.Month(x.m), x.d, x.h, x.mi, x.s, x.ns, loc)
						cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now, PreferredDateSource: src, PreferredMonthOfYear: mon, PreferredDayOfMonth: day, ReturnTimeAsPeriod: (si+bi)%2 == 0}
						cfg.DefaultTimezone = dtz[btoi((si+bi+int(src))%7 == 0)]
						if ps.l != "" {
							cfg.Languages = []string{ps.l}
						}
						key := fmt.Sprintf("%s %s %s dtz=%v %q", now.Format(time.RFC3339Nano), ps.l, prefKey(cfg), cfg.DefaultTimezone != nil, ps.s)
						c.Case(key, func() string {
							dt, err := p.Parse(cfg, ps.s)
							c.Call(1)
							c.Outcome(wall(dt, err))
							want, per := fillModel(ps.p, now, cfg)
							if w := diffDate(dt, err, want, per); w != "" {
								return w
							}
							// documented directions, stated independently of the model
							defaults := mon == dps.CurrentMonth && day == dps.Current
							dated := ps.p.h >= 0 && ps.p.wd < 0 && ps.p.y == 0 && ps.p.m == 0 && ps.p.d == 0 || ps.p.wd >= 0 && ps.p.m == 0 && cfg.DefaultTimezone == nil || ps.p.m != 0 && ps.p.d != 0 && (ps.p.y == 0 || ps.p.yw == 2)
							if defaults && dated {
								if src == dps.Past && dt.Time.After(now) {
									return "Past gave a date after the base time: " + show(dt, err)
								}
								if src == dps.Future && dt.Time.Before(now) {
									return "Future gave a date before the base time: " + show(dt, err)
								}
							}
							return ""
						})
					}
				}
			}
		}
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
