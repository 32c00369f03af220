package main

import (
	"fmt"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C17", Run: runC17, QuickSecs: 120, DeepSecs: 800,
		Statement:  "every Umm al-Qura day of 1356-1500 converts to its Gregorian day, however it is written; other years are errors",
		Assume:     []string{"the first day of every month comes from the published table in tables/umalqura.tsv (van Gent), which ICU and java.time agree with for 1420-1454; the published tables differ from each other in other years", "a two-digit year is 1390-1489", "numeric dates are written in the configured order (day, month, year by default)"},
		Bounds:     map[string]string{"days": "every day of 1356-1500 (51379 days) in two of eight notations each, rotating; every day of 8 years in all", "notations": "three digit scripts, padded or not, four separators, six orders, two-digit years, clock times, Arabic am/pm words, zones, strictness", "outside": "every month of 60 years around and far from the range, and every year 1-9999 once"},
		BoundsDeep: map[string]string{"days": "every day of 1356-1500 in every notation, twice"},
	})
}

func runC17(c *Ctx) {
	cross(c, crossInputs("C17"))
	type ym struct{ y, m int }
	start := map[ym]time.Time{}
	for _, l := range readLines(tablePath(c, "umalqura.tsv")) {
		var y, m int
		var iso string
		if n, _ := fmt.Sscanf(l, "%d\t%d\t%s", &y, &m, &iso); n == 3 {
			start[ym{y, m}], _ = time.Parse("2006-01-02", iso)
		}
	}
	ny := mustLoc("America/New_York")
	ryd := mustLoc("Asia/Riyadh")
	const variants = 8
	zeros := []rune{'0', '٠', '۰'}
	one := func(y, m, d int, g time.Time, v, n int) {
		c.Case(fmt.Sprintf("%d/%d/%d v%d n%d", y, m, d, v, n), func() string {
			cfg := &dps.Configuration{CurrentTime: utc(2014, 6, 18, 10, 20, 30)}
			loc := time.UTC
			h, mi, s, ns := 0, 0, 0, 0
			per := date.Day
			str := ""
			sep := []string{"/", "-", ".", " "}[n%4]
			dmy := fmt.Sprintf("%02d%s%02d%s%04d", d, sep, m, sep, y)
			switch v {
			case 0:
				str = fmt.Sprintf("%d%s%d%s%04d", d, sep, m, sep, y)
			case 1:
				str = dmy
			case 2:
				o := allOrders[n%6]
				cfg.DateOrder = orderFn(o)
				str = strings.NewReplacer("D", fmt.Sprintf("%02d ", d), "M", fmt.Sprintf("%02d ", m), "Y", fmt.Sprintf("%04d ", y)).Replace(o)
				str = strings.ReplaceAll(strings.TrimSpace(str), " ", sep)
			case 3:
				h, mi = (n*7+d)%24, (n*11+y)%60
				str = fmt.Sprintf("%s %02d:%02d", dmy, h, mi)
				if n%3 == 0 {
					s = n % 60
					str += fmt.Sprintf(":%02d", s)
				}
				if n%5 == 0 {
					cfg.ReturnTimeAsPeriod, per = true, date.Minute
					if n%3 == 0 {
						per = date.Second
					}
				}
			case 4:
				// Arabic twelve hour clock, in all its spellings
				h12 := n%12 + 1
				mi = (n * 7) % 60
				h = h12 % 12
				w := []string{"صباحا", "صباحاً", "صباحًا", "am"}[n%4]
				if n%2 == 1 {
					h += 12
					w = []string{"مساء", "مساءً", "مساءًا", "pm"}[(n/2)%4]
				}
				if w == "مساءًا" {
					w = "مساء"
				}
				str = fmt.Sprintf("%s %d:%02d %s", dmy, h12, mi, w)
				if n%3 == 0 {
					s = (n * 3) % 60
					str = fmt.Sprintf("%s %02d:%02d:%02d %s", dmy, h12, mi, s, w)
				}
			case 5:
				if y >= 1390 && y <= 1489 {
					str = fmt.Sprintf("%02d%s%02d%s%02d", d, sep, m, sep, y%100)
				} else {
					str = "[" + dmy + "]"
				}
			case 6:
				h, mi = n%24, n%60
				zo := []struct {
					name string
					off  int
				}{{"+03:00", 10800}, {"UTC+03:00", 10800}, {"GMT+0530", 19800}, {"-0330", -12600}, {"UTC-11:00", -39600}}[(n/6)%5]
				str = fmt.Sprintf("%s %02d:%02d %s", dmy, h, mi, zo.name)
				loc = time.FixedZone("", zo.off)
				if n%2 == 0 {
					str = fmt.Sprintf("%02d:%02d %s UTC", h, mi, dmy)
					loc = time.FixedZone("", 0)
				}
			case 7:
				switch n % 4 {
				case 0:
					cfg.DefaultTimezone = ryd
					loc = ryd
				case 1:
					cfg.CurrentTime = time.Date(2016, 12, 31, 23, 59, 59, 0, ny)
					loc = ny
				case 2:
					cfg.RequiredParts = []string{"day", "month", "year"}
					cfg.PreferredDateSource, cfg.PreferredDayOfMonth = dps.Past, dps.Last
				case 3:
					cfg.StrictParsing = true
					cfg.PreferredDateSource, cfg.PreferredMonthOfYear = dps.Future, dps.LastMonth
				}
				str = "  " + dmy + " "
			}
			if v <= 6 {
				str = digitsTo(str, zeros[n%3])
			}
			dt, err := dps.ParseHijri(cfg, str)
			c.Call(1)
			c.Outcome(wall(dt, err))
			want := time.Date(g.Year(), g.Month(), g.Day(), h, mi, s, ns, loc)
			if r := diffDate(dt, err, want, per); r != "" {
				return fmt.Sprintf("%q: %s", str, r)
			}
			return ""
		})
	}
	all := map[int]bool{1356: true, 1391: true, 1400: true, 1420: true, 1435: true, 1446: true, 1490: true, 1500: true}
	n := 0
	for y := 1356; y <= 1500; y++ {
		for m := 1; m <= 12; m++ {
			g := start[ym{y, m}]
			end := start[ym{y + m/12, m%12 + 1}]
			for d := 1; g.Before(end); d++ {
				n++
				if !c.Quick || all[y] {
					for v := 0; v < variants; v++ {
						one(y, m, d, g, v, n)
						one(y, m, d, g, v, n*7+3)
					}
				} else {
					one(y, m, d, g, n%variants, n/variants)
					one(y, m, d, g, (n/3+5)%variants, n)
				}
				g = g.AddDate(0, 0, 1)
			}
		}
	}
	// outside of the table: an error, whatever the day
	bad := func(key, s string) {
		for _, o := range []string{"DMY", "MDY", "YMD"} {
			c.Case(fmt.Sprintf("outside %s %s", o, key), func() string {
				f := strings.Fields(s)
				d, m, y := f[0], f[1], f[2]
				str := strings.NewReplacer("D", d+"/", "M", m+"/", "Y", y+"/").Replace(o)
				dt, err := dps.ParseHijri(&dps.Configuration{CurrentTime: utc(2014, 6, 18, 10, 20, 30), DateOrder: orderFn(o)}, strings.TrimSuffix(str, "/"))
				c.Call(1)
				if err == nil {
					return "a year outside of the calendar's table gives " + show(dt, err)
				}
				if s := show(dt, err); s != "error" {
					return s
				}
				return ""
			})
		}
	}
	for y := 1; y <= 9999; y++ {
		if y >= 1356 && y <= 1500 {
			continue
		}
		near := y > 1320 && y < 1356 || y > 1500 && y < 1530
		for m := 1; m <= 12; m++ {
			if !near && m != 1+y%12 {
				continue
			}
			for _, d := range []int{1, 15, 29, 30} {
				if near || d == 1 {
					bad(fmt.Sprintf("%d/%d/%d", d, m, y), fmt.Sprintf("%02d %02d %04d", d, m, y))
				}
			}
		}
	}

	// two-digit years, moved by a century to where PreferredDateSource wants them
	for yy := 0; yy < 100; yy++ {
		for m := 1; m <= 12; m++ {
			for _, d := range []int{1, 20, 29, 30} {
				for src := 0; src < 3; src++ {
					bi := (yy + m + d) % 3
					base := []time.Time{utc(2016, 2, 29, 12, 0, 0), utc(1990, 3, 21, 0, 0, 0), utc(2050, 12, 31, 23, 59, 59)}[bi]
					day := func(y int) (time.Time, bool) {
						t, ok := start[ym{y, m}]
						if !ok || y < 1356 || y > 1500 {
							return t, false
						}
						nm := ym{y, m + 1}
						if m == 12 {
							nm = ym{y + 1, 1}
						}
						n := d
						if next, ok := start[nm]; ok {
							l := int(next.Sub(t).Hours() / 24)
							if l < 29 {
								return t, false // as the table has it once
							}
							n = min(d, l)
						} else if d == 30 {
							return t, false
						}
						return t.AddDate(0, 0, n-1), true
					}
					y := yy + 1400
					if yy >= 90 {
						y = yy + 1300
					}
					want, ok := day(y)
					moved, in := want, ok
					switch {
					case src == 1 && want.After(base):
						moved, in = day(y - 100)
					case src == 2 && !want.After(base):
						moved, in = day(y + 100)
					}
					if in {
						want = moved
					}
					if !ok || !in && y == 1464 {
						continue
					}
					c.Case(fmt.Sprintf("two %02d/%d/%d base%d src%d", yy, m, d, bi, src), func() string {
						cfg := &dps.Configuration{CurrentTime: base, PreferredDateSource: dps.PreferredDateSource(src)}
						c.Call(1)
						dt, err := dps.ParseHijri(cfg, fmt.Sprintf("%02d/%02d/%02d", d, m, yy))
						c.Outcome(want.String())
						return diffDate(dt, err, want, date.Day)
					})
				}
			}
		}
	}
}
