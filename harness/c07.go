package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// numericModel is the reference reading of three numbers under a date order:
// every number is taken, left to right, as the first still-missing component of
// the order that it can be; a four-digit number can only be the year, and takes
// the year over from a two-digit number, which then becomes what is missing.
// ok=false: there is no consistent reading by that rule (the result must be an
// error, or the given components in another assignment - never anything else).
func numericModel(order string, toks []string) (y, m, d int, ok bool) {
	comp := map[byte]int{}
	have := map[byte]bool{}
	text := map[byte]string{}
	var displaced []string
	for _, t := range toks {
		n, _ := strconv.Atoi(t)
		done := false
		for i := 0; i < 3 && !done; i++ {
			k := order[i]
			v, can := 0, false
			switch k {
			case 'Y':
				if len(t) == 4 {
					v, can = n, true
				} else if len(t) == 2 {
					v, can = n+2000, true
					if n >= 69 {
						v = n + 1900
					}
				}
			case 'M':
				v, can = n, len(t) <= 2 && n >= 1 && n <= 12
			case 'D':
				v, can = n, len(t) <= 2 && n >= 1 && n <= 31
			}
			if !can {
				continue
			}
			if have[k] {
				if k == 'Y' && len(t) == 4 && len(text[k]) == 2 {
					displaced = append(displaced, text[k])
				} else {
					continue
				}
			}
			comp[k], have[k], text[k] = v, true, t
			done = true
		}
		if !done {
			return 0, 0, 0, false
		}
	}
	for _, k := range []byte("DMY") {
		if !have[k] {
			if len(displaced) == 0 {
				return 0, 0, 0, false
			}
			comp[k], _ = strconv.Atoi(displaced[0])
		}
	}
	y, m, d = comp['Y'], comp['M'], comp['D']
	if m < 1 || m > 12 || d < 1 || d > 31 {
		return 0, 0, 0, false
	}
	return y, m, d, true
}

var allOrders = []string{"DMY", "MDY", "YMD", "YDM", "MYD", "DYM"}

func orderFn(o string) dps.DateOrder {
	switch o {
	case "DMY":
		return dps.DMY
	case "MDY":
		return dps.MDY
	case "YMD":
		return dps.YMD
	case "YDM":
		return dps.YDM
	case "MYD":
		return dps.MYD
	case "DYM":
		return dps.DYM
	}
	return nil
}

func sameDay(dt date.Date, y, m, d int) bool {
	yy, mm, dd := dt.Time.Date()
	return yy == y && int(mm) == m && dd == d && dt.Time.Hour() == 0 && dt.Time.Minute() == 0 && dt.Time.Second() == 0 && dt.Time.Nanosecond() == 0
}

// checkNumeric compares one numeric string with the model.
func checkNumeric(c *Ctx, p *dps.Parser, cfg *dps.Configuration, order string, s string, toks []string) string {
	dt, err := p.Parse(cfg, s)
	c.Call(1)
	c.Outcome(wall(dt, err))
	y, m, d, ok := numericModel(order, toks)
	if ok {
		want := d
		if want > dim(y, m) {
			want = dim(y, m)
		}
		if err != nil || !sameDay(dt, y, m, want) || dt.Period != date.Day {
			return fmt.Sprintf("order %s: %q must be %04d-%02d-%02d Day, got %s", order, s, y, m, want, show(dt, err))
		}
		if dt.Time.Location() != time.UTC && dt.Time.Location().String() != cfg.CurrentTime.Location().String() {
			return fmt.Sprintf("%q: zone %v instead of the base time's", s, dt.Time.Location())
		}
		return ""
	}
	if err != nil {
		return ""
	}
	// any assignment of the written numbers is tolerated, anything else is not
	set := map[string]bool{}
	for _, o := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		yy, _ := strconv.Atoi(toks[o[0]])
		mm, _ := strconv.Atoi(toks[o[1]])
		dd, _ := strconv.Atoi(toks[o[2]])
		if len(toks[o[0]]) <= 2 {
			yy += 2000
			if yy >= 2069 {
				yy -= 100
			}
		}
		if mm >= 1 && mm <= 12 && dd >= 1 && dd <= dim(yy, mm) {
			set[fmt.Sprintf("%04d-%02d-%02d", yy, mm, dd)] = true
		}
	}
	if !set[dt.Time.Format("2006-01-02")] {
		return fmt.Sprintf("order %s: %q has no such reading, got %s", order, s, show(dt, err))
	}
	return ""
}

func init() {
	register(&Check{
		ID: "C07",
		Statement: "Enumerates every day of the selected years x six date orders x layouts (position of year) x separators x padding x year width, plus all impossible small-number triples; " +
			"each string is parsed by the real parser and compared with a reference reading (first still-missing component of the order that fits).",
		QuickSecs: 45, DeepSecs: 780,
		Bounds:     map[string]string{"years": "1999 2000 2014 2016 (2 and 4 digits), 1301 1899 1900 2069 2100 9999 (4 digits, month ends)", "orders": "all 6, as function constants, per-locale function, and locale default", "separators": "- / . space"},
		BoundsDeep: map[string]string{"years": "every year 1950-2049 with 2 and 4 digits; 1300-9999 step 97", "orders": "all 6", "separators": "- / . space and mixed"},
		Run:        runC07,
	})
}

func runC07(c *Ctx) {
	cross(c, crossInputs("C07"))
	p := &dps.Parser{}
	now := time.Date(2015, 7, 31, 12, 0, 0, 0, time.UTC)
	seps := []string{"-", "/", ".", " "}
	years := []int{2000, 1999, 2014, 2016}
	if !c.Quick {
		years = nil
		for y := 1950; y < 2050; y++ {
			years = append(years, y)
		}
	}
	mk := func(order string) *dps.Configuration {
		return &dps.Configuration{Languages: []string{"en"}, DateOrder: orderFn(order), CurrentTime: now}
	}
	// layout: positions of y, m, d in the string
	layouts := []string{"YMD", "DMY", "MDY", "YDM", "MYD", "DYM"}
	emit := func(order, layout, sep string, pad bool, yw int, y, m, d int) {
		cfg := mk(order)
		toks := make([]string, 3)
		for i, k := range []byte(layout) {
			switch k {
			case 'Y':
				if yw == 4 {
					toks[i] = fmt.Sprintf("%04d", y)
				} else {
					toks[i] = fmt.Sprintf("%02d", y%100)
				}
			case 'M':
				toks[i] = strconv.Itoa(m)
				if pad {
					toks[i] = fmt.Sprintf("%02d", m)
				}
			case 'D':
				toks[i] = strconv.Itoa(d)
				if pad {
					toks[i] = fmt.Sprintf("%02d", d)
				}
			}
		}
		s := strings.Join(toks, sep)
		c.Case("order="+order+" "+s, func() string { return checkNumeric(c, p, cfg, order, s, toks) })
	}
	// 1. the written layout equals the order: every day
	for _, y := range years {
		for _, o := range allOrders {
			for m := 1; m <= 12; m++ {
				for d := 1; d <= dim(y, m); d++ {
					sep := seps[(y+m+d)%len(seps)]
					if y%100 > 31 || y%100 == 0 || true {
						emit(o, o, sep, true, 4, y, m, d)
						emit(o, o, sep, true, 2, y, m, d)
					}
					if d < 10 || m < 10 {
						emit(o, o, sep, false, 4, y, m, d)
					}
				}
			}
		}
	}
	// 2. any layout under any order, every separator, boundary days
	days := []int{1, 2, 9, 10, 12, 13, 28, 29, 30, 31}
	ys := []int{1301, 1899, 1900, 1970, 2014, 2016, 2068, 2069, 2100, 9999}
	if !c.Quick {
		for y := 1303; y < 9999; y += 397 {
			ys = append(ys, y)
		}
	}
	for _, y := range ys {
		for _, o := range allOrders {
			for li, lay := range layouts {
				for m := 1; m <= 12; m++ {
					for di, d := range days {
						if d > dim(y, m) {
							continue
						}
						if c.Quick && (m+di+li)%3 != y%3 {
							continue
						}
						emit(o, lay, seps[(m+di)%4], true, 4, y, m, d)
					}
				}
			}
		}
	}
	// 3. all triples of small numbers (two-digit year), including impossible ones
	nums := []string{"1", "02", "12", "13", "28", "29", "30", "31", "32", "68", "69", "99"}
	for _, o := range allOrders {
		cfg := mk(o)
		for _, a := range nums {
			for _, b := range nums {
				for _, d := range append([]string{"1900", "2015", "2016"}, nums...) {
					for perm := 0; perm < 3; perm++ {
						toks := []string{a, b, d}
						if len(d) == 4 {
							toks = [][]string{{a, b, d}, {a, d, b}, {d, a, b}}[perm]
						} else if perm > 0 {
							continue
						}
						sep := "/"
						s := strings.Join(toks, sep)
						c.Case("order="+o+" "+s, func() string { return checkNumeric(c, p, cfg, o, s, toks) })
					}
				}
			}
		}
	}
	// 4. the order comes from a per-locale function, from the locale's own order,
	// and invalid orders are ignored
	for _, lang := range []string{"en", "fr", "de", "ja", "zh", "hu", "lt", "es", "sv", "fa"} {
		own := dps.DefaultDateOrder(lang)
		for _, o := range append([]string{"", "DM", "DMX", "DDM", "DDMY", "dmy", "ymd", "mdy"}, allOrders...) {
			for _, td := range [][3]int{{2014, 5, 6}, {2014, 11, 12}, {2011, 12, 10}} {
				y, m, d := td[0], td[1], td[2]
				toks := []string{fmt.Sprintf("%02d", m), fmt.Sprintf("%02d", d), fmt.Sprint(y)}
				toks2 := []string{fmt.Sprintf("%02d", m), fmt.Sprintf("%02d", d), fmt.Sprintf("%02d", y%100)}
				for _, tk := range [][]string{toks, toks2} {
					s := strings.Join(tk, "/")
					var called []string
					cfg := &dps.Configuration{Languages: []string{lang}, CurrentTime: now}
					eff := own
					if o != "" {
						cfg.DateOrder = func(loc string) string {
							called = append(called, loc)
							if loc == lang {
								return o
							}
							return "YMD"
						}
						u := strings.ToUpper(o)
						for _, v := range allOrders {
							if v == u {
								eff = u
							}
						}
					}
					c.Case("lang="+lang+" orderfn="+o+" "+s, func() string {
						called = nil
						if w := checkNumeric(c, p, cfg, eff, s, tk); w != "" {
							return w
						}
						for _, l := range called {
							if l != lang {
								return "DateOrder was asked for locale " + l + " while only " + lang + " may be used"
							}
						}
						return ""
					})
				}
			}
		}
	}
	// 5. a DateOrder function is asked for exactly the locale in use (not its language),
	// and without one the locale's own order counts
	for li, line := range readLines(tablePath(c, "locale-order.tsv")) {
		l := strings.Split(line, "\t")[0]
		if l == "" {
			continue
		}
		for si, str := range []string{"02/03/2014", "2011 10 12", "10.11.12"} {
			for oi, o := range allOrders {
				if c.Quick && (li+si+oi)%3 != 0 {
					continue
				}
				other := allOrders[(oi+1+li%5)%6]
				c.Case("locale="+l+" "+o+" "+str, func() string {
					only := func(loc string) string {
						if loc == l {
							return o
						}
						return other
					}
					always := func(string) string { return o }
					for mode, cfg := range []dps.Configuration{{Locales: []string{l}}, {Languages: []string{"en"}, Locales: []string{l}, TryPreviousLocales: true}} {
						cfg.CurrentTime = now
						a, b := cfg, cfg
						a.DateOrder, b.DateOrder = only, always
						da, ea := new(dps.Parser).Parse(&a, str)
						db, eb := new(dps.Parser).Parse(&b, str)
						c.Call(2)
						if x, y := show(da, ea), show(db, eb); x != y {
							return fmt.Sprintf("mode %d: with DateOrder being %s for %s only %s, for every locale %s", mode, o, l, x, y)
						}
					}
					a, b := dps.Configuration{CurrentTime: now, DateOrder: only}, dps.Configuration{CurrentTime: now, DateOrder: always}
					ra, ea := new(dps.Parser).SearchWithLanguage(&a, l, str)
					rb, eb := new(dps.Parser).SearchWithLanguage(&b, l, str)
					c.Call(2)
					if x, y := fmt.Sprint(ra, ea), fmt.Sprint(rb, eb); x != y {
						return fmt.Sprintf("searching with DateOrder being %s for %s only %s, for every locale %s", o, l, x, y)
					}
					return ""
				})
			}
			c.Case("locale="+l+" own "+str, func() string {
				own := dps.DefaultDateOrder(l)
				if own == "" {
					return ""
				}
				a, b := dps.Configuration{CurrentTime: now, Locales: []string{l}}, dps.Configuration{CurrentTime: now, Locales: []string{l}}
				b.DateOrder = func(string) string { return own }
				da, ea := new(dps.Parser).Parse(&a, str)
				db, eb := new(dps.Parser).Parse(&b, str)
				c.Call(2)
				if x, y := show(da, ea), show(db, eb); x != y {
					return fmt.Sprintf("without DateOrder %s, with the locale's own %s %s", x, own, y)
				}
				return ""
			})
		}
	}
}
