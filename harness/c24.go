package main

import (
	"fmt"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C24", Run: runC24, QuickSecs: 120, DeepSecs: 800,
		Statement:  "dates written without separators are read by the date order, with only consistent readings",
		Assume:     []string{"the order is the configured one or the locale's (en is MDY, de is DMY, sv is YMD)", "a time of two numbers (four digits) is read as hour, minute and second, as the repository's own tests demand, and is outside the domain"},
		Bounds:     map[string]string{"dates": "every day of 14 years 1000-9999 in six orders without a time; every day of 4 years x 3 times with six time digits", "other eight digit strings": "every month/day pair 00-39 x 4 years x six orders must yield a consistent reading or an error", "separators": "none, or colons inside the time"},
		BoundsDeep: map[string]string{"dates": "every day of 45 years; times: every 7 minutes", "other eight digit strings": "every four digits next to 8 years x six orders"},
	})
}

var c24Orders = []string{"DMY", "DYM", "MDY", "MYD", "YMD", "YDM"}

// consistent says whether the digits can be cut into the date (and time) of t,
// in any order of day, month and year.
func consistentDigits(s string, t time.Time) bool {
	for _, ord := range []string{"Ymd", "Ydm", "mYd", "mdY", "dYm", "dmY", "ymd", "ydm", "myd", "mdy", "dym", "dmy"} {
		for _, tm := range []string{"HMS", "HM", "H", ""} {
			if cut(s, ord+tm, t) {
				return true
			}
		}
	}
	return false
}

func cut(s, f string, t time.Time) bool {
	if f == "" {
		return s == "" && true
	}
	num := func(v, n int) bool {
		for _, txt := range []string{fmt.Sprintf("%0*d", n, v), fmt.Sprint(v)} {
			if strings.HasPrefix(s, txt) && cut(s[len(txt):], f[1:], t) {
				return true
			}
		}
		return false
	}
	switch f[0] {
	case 'Y':
		return num(t.Year(), 4)
	case 'y':
		return t.Year() >= 1969 && t.Year() <= 2068 && num(t.Year()%100, 2)
	case 'm':
		return num(int(t.Month()), 2)
	case 'd':
		return num(t.Day(), 2)
	case 'H':
		return num(t.Hour(), 2)
	case 'M':
		return num(t.Minute(), 2)
	}
	return num(t.Second(), 2)
}

func runC24(c *Ctx) {
	cross(c, crossInputs("C24"))
	p := &dps.Parser{}
	only := &dps.Parser{ParserTypes: []dps.ParserType{dps.NoSpacesTime}}
	base := utc(2015, 7, 31, 12, 0, 0)
	ny, _ := time.LoadLocation("America/New_York")
	layout := func(order string) string {
		return strings.NewReplacer("Y", "2006", "M", "01", "D", "02").Replace(order)
	}
	n := 0
	exec := func(order, str string, want time.Time) {
		n++
		v := n % 8
		c.Case(fmt.Sprintf("%s v%d %q", order, v, str), func() string {
			cfg := &dps.Configuration{Languages: []string{"en"}, DateOrder: func(string) string { return order }, CurrentTime: base}
			q := p
			w := want
			switch v {
			case 1:
				q = only
			case 2: // the locale's own order
				switch order {
				case "MDY":
					cfg.DateOrder = nil
				case "DMY":
					cfg.DateOrder, cfg.Languages = nil, []string{"de"}
				case "YMD":
					cfg.DateOrder, cfg.Languages = nil, []string{"sv"}
				}
			case 3:
				cfg.StrictParsing = true
			case 4:
				cfg.RequiredParts = []string{"year", "day"}
				cfg.CurrentTime = time.Date(2016, 2, 29, 23, 59, 59, 999, ny)
			case 5:
				cfg.DefaultTimezone = ny
				w = time.Date(want.Year(), want.Month(), want.Day(), want.Hour(), want.Minute(), want.Second(), 0, ny)
				_, o := w.Zone()
				w = time.Date(want.Year(), want.Month(), want.Day(), want.Hour(), want.Minute(), want.Second(), 0, time.FixedZone("", o))
			case 6:
				cfg.PreferredDateSource, cfg.PreferredDayOfMonth = dps.Future, dps.Last
				cfg.DateOrder = func(string) string { return strings.ToLower(order) }
			case 7:
				cfg.Languages, cfg.Locales = nil, []string{"fr", "en"}
				str = "  " + str + " "
			}
			dt, err := q.Parse(cfg, str)
			c.Call(1)
			c.Outcome(show(dt, err))
			return diffDate(dt, err, w, date.Day)
		})
	}
	years := []int{1000, 1111, 1850, 1900, 1969, 1999, 2000, 2014, 2016, 2022, 2100, 2112, 2999, 9999}
	tyears := []int{1999, 2014, 2016, 2100}
	if !c.Quick {
		for y := 1001; y < 9999; y += 300 {
			years = append(years, y)
		}
	}
	for _, order := range c24Orders {
		for _, y := range years {
			for d := utc(y, 1, 1, 0, 0, 0); d.Year() == y; d = d.AddDate(0, 0, 1) {
				exec(order, d.Format(layout(order)), d)
			}
		}
		for _, y := range tyears {
			for d := utc(y, 1, 1, 0, 0, 0); d.Year() == y; d = d.AddDate(0, 0, 1) {
				for ti, tod := range [][3]int{{10, 20, 30}, {0, 0, 0}, {23, 59, 59}, {12, 0, 1}, {1, 2, 3}, {20, 15, 12}} {
					if c.Quick && (d.YearDay()+ti)%4 != 0 {
						continue
					}
					t := d.Add(time.Duration(tod[0]*3600+tod[1]*60+tod[2]) * time.Second)
					exec(order, t.Format(layout(order)+"150405"), t)
					if d.Day()%5 == 0 {
						exec(order, t.Format(layout(order)+"15:04:05"), t)
					}
				}
			}
		}
		if !c.Quick {
			for m := 0; m < 1440; m += 7 {
				t := utc(2014, 12, 5, 0, m, m%60)
				exec(order, t.Format(layout(order)+"150405"), t)
			}
		}
		// the ISO order is understood when nothing else can be read
		for _, y := range []int{1913, 1950, 1970, 1999, 2013, 2014, 2016, 2024, 2099} {
			for d := utc(y, 1, 1, 0, 0, 0); d.Year() == y; d = d.AddDate(0, 0, 1) {
				other := false
				for _, o := range c24Orders {
					if t, e := time.Parse(layout(o), d.Format("20060102")); o != "YMD" && e == nil && t.Year() >= 1000 {
						other = other || o == order || o[2] == 'Y'
					}
				}
				if !other {
					exec(order, d.Format("20060102"), d)
				}
			}
		}
		// eight digits whatever they are
		hi, step := 40, 1
		ys := []int{1999, 2014, 2016, 2020}
		if !c.Quick {
			hi = 100
			ys = append(ys, 1000, 1231, 2112, 9999)
		}
		for _, y := range ys {
			for a := 0; a < hi; a += step {
				for b := 0; b < hi; b += step {
					if c.Quick && y != 2014 && (a+b)%3 != 0 {
						continue
					}
					for _, pat := range []string{"YAB", "AYB", "ABY"} {
						if order[0] != 'Y' && order[1] != 'Y' && pat != "ABY" || order[0] == 'Y' && pat != "YAB" || order[1] == 'Y' && pat != "AYB" {
							if c.Quick || (a+b)%5 != 0 {
								continue
							}
						}
						str := strings.NewReplacer("Y", fmt.Sprintf("%04d", y), "A", fmt.Sprintf("%02d", a), "B", fmt.Sprintf("%02d", b)).Replace(pat)
						c.Case(fmt.Sprintf("any %s %q", order, str), func() string {
							dt, err := only.Parse(&dps.Configuration{Languages: []string{"en"}, DateOrder: func(string) string { return order }, CurrentTime: base}, str)
							c.Call(1)
							c.Outcome(show(dt, err))
							if t, e := time.Parse(layout(order), str); e == nil && t.Year() >= 1000 {
								return diffDate(dt, err, t, date.Day)
							}
							if err == nil && !consistentDigits(str, dt.Time) {
								return "no reading of these digits gives " + show(dt, err)
							}
							if err == nil && dt.Time.Nanosecond() != 0 {
								return "fraction out of nowhere: " + show(dt, err)
							}
							return ""
						})
					}
				}
			}
		}
		// nothing can be read from these
		for _, s := range []string{"00000000", "99999999", "77777777", "000000", "999999", "88888888888888", "99999999999999", "00000000000000", "12345678901234567890", "987654321234567890123456789", "200000000000", "99990000", "20149999", "66666666", "201413322561"} {
			c.Case(fmt.Sprintf("nothing %s %q", order, s), func() string {
				dt, err := only.Parse(&dps.Configuration{Languages: []string{"en"}, DateOrder: func(string) string { return order }, CurrentTime: base}, s)
				c.Call(1)
				if err == nil && !consistentDigits(s, dt.Time) {
					return "no reading of these digits gives " + show(dt, err)
				}
				return ""
			})
		}
	}
}
