package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C15", Run: runC15, QuickSecs: 120, DeepSecs: 800,
		Statement:  "custom formats are tried first, in order, and obeyed",
		Assume:     []string{"Go's own time.Format writes the strings; the fields are known by construction", "PreferredDateSource acts on custom formats only to find the leap year of 29 February"},
		Bounds:     map[string]string{"layouts": "every combination of 4 year, 5 month and 5 day forms in six orders, with six clock and four zone forms in rotation, day of the year", "values": "20 boundary dates", "preferences": "base times x preferred day x preferred month x source x default zone, in rotation", "lists": "every ordered list of up to three of six two-digit layouts on strings that fit several of them", "translated": "every CLDR month name of every locale in three layouts"},
		BoundsDeep: map[string]string{"preferences": "every combination for every layout", "values": "40 dates"},
	})
}

type c15Layout struct {
	layout           string
	y, m, d, yd      bool
	y2               bool
	h, mi, s, frac   bool
	h12              bool
	zone             string
	needsTextualZone bool
}

func c15Layouts() []c15Layout {
	years := []string{"2006", "06", ""}
	months := []string{"01", "1", "Jan", "January", ""}
	days := []string{"02", "2", "_2", ""}
	clocks := []string{"", "15:04", "15:04:05", "03:04 PM", "3PM", "15h04", "15:04:05.000"}
	zones := []string{"", " MST", " -0700", " Z07:00"}
	seps := []string{" ", "/", "-", ".", ", ", "_"}
	var out []c15Layout
	n := 0
	for _, y := range years {
		for _, m := range months {
			for _, d := range days {
				for oi, ord := range allOrders {
					if y == "" && m == "" && d == "" && oi > 0 {
						continue
					}
					for k := 0; k < 4; k++ {
						n++
						cl := clocks[n%len(clocks)]
						zn := ""
						if cl != "" && n%3 == 0 {
							zn = zones[(n/3)%4]
						}
						if y+m+d+cl == "" {
							continue
						}
						sep := seps[(n/7)%len(seps)]
						if sep == "_" && strings.HasSuffix(d, "2") {
							sep = " " // "_2" and "__2" are something else
						}
						var ps []string
						for _, r := range ord {
							switch s := map[rune]string{'Y': y, 'M': m, 'D': d}[r]; {
							case s != "":
								ps = append(ps, s)
							}
						}
						lay := strings.Join(ps, sep)
						if cl != "" {
							switch {
							case lay == "":
								lay = cl
							case n%2 == 0:
								lay += " " + cl
							default:
								lay = cl + " " + lay
							}
							if zn != "" {
								lay += zn
							}
						}
						out = append(out, c15Layout{layout: lay, y: y != "", y2: y == "06", m: m != "", d: d != "",
							h: cl != "", mi: cl != "" && cl != "3PM", s: strings.Contains(cl, "05"), frac: strings.Contains(cl, ".000"), zone: strings.TrimSpace(zn)})
					}
				}
			}
		}
	}
	for _, l := range []string{"2006 002", "2006-002", "2006 __2", "2006.002 15:04:05", "15:04 2006/002"} {
		cl := strings.Contains(l, "15")
		out = append(out, c15Layout{layout: l, y: true, yd: true, m: true, d: true, h: cl, mi: cl, s: strings.Contains(l, "05")})
	}
	return out
}

func runC15(c *Ctx) {
	cross(c, crossInputs("C15"))
	ny := mustLoc("America/New_York")
	kol := mustLoc("Asia/Kolkata")
	vals := []time.Time{}
	dates := [][3]int{{2014, 6, 18}, {2016, 2, 29}, {2015, 2, 28}, {2015, 1, 31}, {2014, 12, 31}, {2000, 1, 1}, {1969, 3, 4}, {2068, 4, 30}, {2014, 3, 9}, {2014, 11, 2}, {2020, 3, 4}, {1999, 10, 3}, {2024, 8, 30}, {2013, 7, 4}}
	if !c.Quick {
		dates = append(dates, [][3]int{{1970, 5, 31}, {1972, 2, 29}, {2001, 9, 11}, {2012, 12, 12}, {2011, 11, 11}, {2003, 4, 4}, {2033, 3, 3}, {2043, 4, 3}, {2023, 2, 1}}...)
	}
	for i, d := range dates {
		tod := [][4]int{{10, 20, 30, 456}, {0, 0, 0, 0}, {23, 59, 59, 999}, {12, 0, 1, 1}, {4, 3, 4, 40}, {13, 30, 0, 500}}[i%6]
		vals = append(vals, time.Date(d[0], time.Month(d[1]), d[2], tod[0], tod[1], tod[2], tod[3]*1e6, time.UTC))
	}
	type pref struct {
		now time.Time
		dom dps.PreferredDayOfMonth
		moy dps.PreferredMonthOfYear
		src dps.PreferredDateSource
		tz  *time.Location
	}
	var prefs []pref
	for _, now := range []time.Time{utc(2015, 7, 31, 12, 0, 0), utc(2016, 2, 29, 23, 59, 59), utc(2014, 2, 28, 0, 0, 0), time.Date(2013, 12, 31, 22, 0, 0, 0, ny), utc(2018, 3, 4, 5, 6, 7)} {
		for dom := dps.Current; dom <= dps.Last; dom++ {
			for moy := dps.CurrentMonth; moy <= dps.LastMonth; moy++ {
				for si, tz := range []*time.Location{nil, ny, nil, kol} {
					prefs = append(prefs, pref{now, dom, moy, dps.PreferredDateSource((si + int(dom)) % 3), tz})
				}
			}
		}
	}
	model := func(l c15Layout, v time.Time, zoneOff int, p pref) (time.Time, date.Period) {
		y, m, d := v.Year(), int(v.Month()), v.Day()
		per := date.Day
		if !l.y {
			y = p.now.Year()
			if l.m && l.d && m == 2 && d == 29 && !leap(y) {
				y = nearestLeap(y, p.src)
			}
		}
		if !l.m {
			per = date.Year
			switch p.moy {
			case dps.FirstMonth:
				m = 1
			case dps.LastMonth:
				m = 12
			default:
				m = int(p.now.Month())
			}
		} else if !l.d {
			per = date.Month
		}
		if !l.d {
			switch p.dom {
			case dps.First:
				d = 1
			case dps.Last:
				d = 31
			default:
				d = p.now.Day()
			}
		}
		d = min(d, dim(y, m))
		loc := time.UTC
		if l.zone != "" {
			loc = time.FixedZone("", zoneOff)
		} else if p.tz != nil {
			loc = p.tz
		}
		h, mi, s, ns := 0, 0, 0, 0
		if l.h {
			h = v.Hour()
		}
		if l.mi {
			mi = v.Minute()
		}
		if l.s {
			s = v.Second()
		}
		if l.frac {
			ns = v.Nanosecond()
		}
		return time.Date(y, time.Month(m), d, h, mi, s, ns, loc), per
	}
	seen := map[string]bool{}
	n := 0
	zs := []struct {
		n string
		o int
	}{{"UTC", 0}, {"EST", -18000}, {"EDT", -14400}, {"CEST", 7200}, {"AKST", -32400}, {"JST", 32400}}
	for _, l := range c15Layouts() {
		if seen[l.layout] {
			continue
		}
		seen[l.layout] = true
		for vi, v := range vals {
			if l.y2 && (v.Year() < 1969 || v.Year() > 2068) {
				continue
			}
			np := 3
			if !c.Quick {
				np = len(prefs)
			}
			for k := 0; k < np; k++ {
				n++
				p := prefs[(n*31+k*7)%len(prefs)]
				if !c.Quick {
					p = prefs[k]
				}
				z := zs[n%len(zs)]
				w := v
				if l.zone != "" {
					w = time.Date(v.Year(), v.Month(), v.Day(), v.Hour(), v.Minute(), v.Second(), v.Nanosecond(), time.FixedZone(z.n, z.o))
				}
				str := w.Format(l.layout)
				c.Case(fmt.Sprintf("%q %q v%d p%d", l.layout, str, vi, n), func() string {
					cfg := &dps.Configuration{CurrentTime: p.now, PreferredDayOfMonth: p.dom, PreferredMonthOfYear: p.moy, PreferredDateSource: p.src, DefaultTimezone: p.tz}
					if n%2 == 0 {
						cfg.Languages = []string{"en"}
					}
					// surrounded by layouts that do not fit
					formats := [][]string{{l.layout}, {"Monday " + l.layout, l.layout, "2006"}, {"", "x" + l.layout, l.layout}, {l.layout + "Z", l.layout, l.layout + "!"}}[n%4]
					dt, err := dps.Parse(cfg, str, formats...)
					c.Call(1)
					c.Outcome(show(dt, err))
					want, per := model(l, v, z.o, p)
					return diffDate(dt, err, want, per)
				})
			}
		}
	}
	only := &dps.Parser{ParserTypes: []dps.ParserType{dps.CustomFormat}}
	// every day of ordinary, leap and century years
	years := []int{1, 4, 100, 400, 1582, 1600, 1700, 1900, 1970, 1999, 2000, 2015, 2016, 2068, 2100, 2400, 9999}
	if !c.Quick {
		years = nil
		for y := 1; y <= 9999; y += 1 + y/2100*7 {
			years = append(years, y)
		}
	}
	for _, y := range years {
		for v := utc(y, 1, 1, 0, 0, 0); v.Year() == y; v = v.AddDate(0, 0, 1) {
			for li, l := range []c15Layout{{layout: "2006|01|02", y: true, m: true, d: true}, {layout: "2 Jan 2006", y: true, m: true, d: true}, {layout: "2006 002", y: true, yd: true, m: true, d: true},
				{layout: "02/01/06", y: true, y2: true, m: true, d: true}, {layout: "January _2", m: true, d: true}, {layout: "2006|01", y: true, m: true}, {layout: "Monday, 01-02-2006 15:04", y: true, m: true, d: true, h: true, mi: true}} {
				if l.y2 && (y < 1969 || y > 2068) || !c.Quick && (li+v.Day()+y)%7 != 0 && y%100 > 0 {
					continue
				}
				p := prefs[(v.YearDay()*7+li*13+y)%len(prefs)]
				str := v.Format(l.layout)
				c.Case(fmt.Sprintf("day %q %q", l.layout, str), func() string {
					cfg := &dps.Configuration{CurrentTime: p.now, PreferredDayOfMonth: p.dom, PreferredMonthOfYear: p.moy, PreferredDateSource: p.src, DefaultTimezone: p.tz, Languages: []string{"en"}}
					dt, err := only.Parse(cfg, str, "Mon "+l.layout, l.layout)
					c.Call(1)
					c.Outcome(show(dt, err))
					want, per := model(l, v, 0, p)
					if want.IsZero() { // the zero time can't be told from none
						return ""
					}
					return diffDate(dt, err, want, per)
				})
			}
		}
	}
	// several layouts fit: the first one decides
	lays := []string{"02-01-06", "01-02-06", "06-01-02", "06-02-01", "02-06-01", "01-06-02"}
	pos := func(l string, tok string) int { return strings.Index(l, tok) / 3 }
	fits := func(l string, f [3]int) (time.Time, bool) {
		d, m, y := f[pos(l, "02")], f[pos(l, "01")], f[pos(l, "06")]
		if y >= 69 {
			y += 1900
		} else {
			y += 2000
		}
		if m < 1 || m > 12 || d < 1 || d > dim(y, m) {
			return time.Time{}, false
		}
		return utc(y, time.Month(m), d, 0, 0, 0), true
	}
	fields := []int{1, 2, 6, 12, 13, 28, 29, 31, 40, 68, 69}
	var lists [][]string
	for i := range lays {
		lists = append(lists, []string{lays[i]})
		for j := range lays {
			if i != j {
				lists = append(lists, []string{lays[i], lays[j]})
				for k := range lays {
					if k != i && k != j {
						lists = append(lists, []string{lays[i], lays[j], lays[k]})
					}
				}
			}
		}
	}
	for li, list := range lists {
		for _, a := range fields {
			for _, b := range fields {
				for _, e := range fields {
					if c.Quick && (a+b+e+li)%5 != 0 {
						continue
					}
					str := fmt.Sprintf("%02d-%02d-%02d", a, b, e)
					c.Case(fmt.Sprintf("list %v %q", list, str), func() string {
						cfg := &dps.Configuration{CurrentTime: utc(2015, 7, 31, 12, 0, 0), Languages: []string{"en"}}
						dt, err := only.Parse(cfg, str, list...)
						c.Call(1)
						c.Outcome(show(dt, err))
						for _, l := range list {
							if want, ok := fits(l, [3]int{a, b, e}); ok {
								return diffDate(dt, err, want, date.Day)
							}
						}
						if err == nil {
							return "fits no layout, but gives " + show(dt, err)
						}
						return ""
					})
				}
			}
		}
	}
	// strings that fit no layout are parsed as if there was none
	strs := []string{"18 June 2014", "June 2014", "2 days ago", "1403086830", "20140618", "10:20", "18 juin 2014", "2014-06-18T10:20:30+02:00", "hello", "Wednesday", "29 February", "2014-06-31", "31/12"}
	none := [][]string{{""}, {"2006"}, {"15:04:05"}, {"January"}, {"02.01.2006 15:04", "Monday, 2 Jan"}, {"x"}, {"2006-01-02 15:04:05", "2006-01-02T15:04:05", "06"}, {"%Y-%m-%d"}}
	for _, s := range strs {
		for fi, f := range none {
			for _, lang := range []string{"en", "fr", ""} {
				c.Case(fmt.Sprintf("none %q %q %s", s, f, lang), func() string {
					cfg := dps.Configuration{CurrentTime: utc(2015, 7, 31, 12, 0, 0)}
					if lang != "" {
						cfg.Languages = []string{lang}
					}
					if fi%2 == 1 {
						cfg.PreferredDateSource, cfg.PreferredDayOfMonth = dps.Past, dps.Last
					}
					a, ea := dps.Parse(&cfg, s)
					b, eb := dps.Parse(&cfg, s, f...)
					c.Call(2)
					c.Outcome(show(a, ea))
					if show(a, ea) != show(b, eb) {
						return fmt.Sprintf("without formats %s, with %q %s", show(a, ea), f, show(b, eb))
					}
					return ""
				})
			}
		}
	}
	// localized names
	unsup := map[string]bool{}
	for _, f := range []string{"names-unsupported.tsv", "formats-unsupported.tsv"} {
		if bt, err := os.ReadFile(tablePath(c, f)); err == nil {
			for _, l := range strings.Split(string(bt), "\n") {
				unsup[l] = true
			}
		}
	}
	for ni, nc := range nameCases(tablePath(c, "names.jsonl")) {
		if nc.kind != "m" || unsup[nc.l+"\tm\t"+nc.form] || c.Quick && nc.inherited && ni%3 != 0 {
			continue
		}
		for vi, v := range []struct {
			s, l   string
			y, d   int
			period date.Period
		}{
			{"17 %s 2014", "2 January 2006", 2014, 17, date.Day},
			{"05 %s 17", "06 January 02", 2005, 17, date.Day},
			{"2014/%s 10:20", "2006/January 15:04", 2014, 31, date.Month},
		} {
			str := fmt.Sprintf(v.s, nc.form)
			if unsup[fmt.Sprintf("%s\t%q", nc.l, str)] {
				continue
			}
			c.Case(fmt.Sprintf("name %s %q", nc.l, str), func() string {
				cfg := &dps.Configuration{CurrentTime: utc(2015, 7, 31, 12, 0, 0), Locales: []string{nc.l}}
				dt, err := only.Parse(cfg, str, "2006-01", v.l)
				c.Call(1)
				c.Outcome(show(dt, err))
				want := utc(v.y, nc.month(), min(v.d, dim(v.y, nc.m)), 0, 0, 0)
				if vi == 2 {
					want = want.Add(10*time.Hour + 20*time.Minute)
				}
				return diffDate(dt, err, want, v.period)
			})
		}
	}
}
