package main

import (
	"fmt"
	"strings"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C11", Run: runC11, QuickSecs: 120, DeepSecs: 800,
		Statement:  "StrictParsing and RequiredParts reject exactly the strings that do not state the required parts",
		Assume:     []string{"which parts a string states is part of the alphabet (written by hand for English, Persian and Hijri; by construction for the CLDR names)", "relative expressions, timestamps and custom formats are exempt"},
		Bounds:     map[string]string{"strings": "about 130 strings stating every subset of day, month, year, weekday and time in six notations; four strings for every third locale of CLDR", "configurations": "StrictParsing x every subset of RequiredParts (order, repetition and letter case varied) x orders, preferences, base times and zones", "locale lists": "pairs of locales in which the same string states different parts"},
		BoundsDeep: map[string]string{"strings": "four strings for every month of every locale of CLDR"},
	})
}

const (
	pD = 1 << iota
	pM
	pY
)

type c11Str struct {
	kind  string // lang list (comma separated), "jalali" or "hijri"
	s     string
	parts int
}

var c11Strs = []c11Str{
	// English, absolute
	{"en", "18 June 2014", pD | pM | pY}, {"en", "June 18, 2014", pD | pM | pY}, {"en", "Wednesday, 18 June 2014", pD | pM | pY},
	{"en", "2014-06-18", pD | pM | pY}, {"en", "06/18/2014", pD | pM | pY}, {"en", "06.18.2014 10:20", pD | pM | pY}, {"en", "06/18/14", pD | pM | pY},
	{"en", "18 June 14", pD | pM | pY}, {"en", "2014-06-18T10:20:30+02:00", pD | pM | pY}, {"en", "18 Jun 2014 10:20 PM EST", pD | pM | pY}, {"en", "2014 June 18", pD | pM | pY},
	{"en", "[18 June 2014]", pD | pM | pY}, {"en", "29 February 2016", pD | pM | pY}, {"en", "31 April 2014", pD | pM | pY},
	{"en", "June 2014", pM | pY}, {"en", "2014 June", pM | pY}, {"en", "06/2014", pM | pY}, {"en", "2014-06", pM | pY}, {"en", "June 2014 10:20", pM | pY}, {"en", "Wednesday June 2014", pM | pY}, {"en", "February 2015 UTC", pM | pY},
	{"en", "18 June", pD | pM}, {"en", "June 18", pD | pM}, {"en", "06/18", pD | pM}, {"en", "29 February", pD | pM}, {"en", "18 June 10:20", pD | pM}, {"en", "June 18 at 5pm", pD | pM}, {"en", "Wednesday, June 18", pD | pM}, {"en", "18 June 10:20 GMT+2", pD | pM},
	{"en", "2014", pY}, {"en", "2014 10:20", pY}, {"en", "Wednesday 2014", pY}, {"en", "10:20:30 2014", pY},
	{"en", "June", pM}, {"en", "Feb", pM}, {"en", "June 10:20", pM}, {"en", "Wednesday June", pM},
	{"en", "10:20", 0}, {"en", "5 pm", 0}, {"en", "23:59:59.999", 0}, {"en", "Wednesday", 0}, {"en", "Fri 10:20", 0}, {"en", "10:20 UTC", 0},
	{"en", "18/2014", pD | pY},
	// unspaced: always complete
	{"en", "06182014", pD | pM | pY}, {"en", "20140618", pD | pM | pY}, {"en", "20140618102030", pD | pM | pY}, {"en", "06181420", pD | pM | pY}, {"en", "061814", pD | pM | pY}, {"de", "18062014", pD | pM | pY},
	// other languages
	{"fr", "18 juin 2014", pD | pM | pY}, {"fr", "juin 2014", pM | pY}, {"fr", "18 juin", pD | pM}, {"fr", "juin", pM}, {"fr", "mercredi", 0}, {"fr", "mercredi 18 juin 2014 à 10:20", pD | pM | pY}, {"fr", "14/06/2014", pD | pM | pY}, {"fr", "mercredi 18 juin", pD | pM},
	{"ru", "18 июня 2014 г.", pD | pM | pY}, {"ru", "июнь 2014", pM | pY}, {"ru", "18 июня", pD | pM}, {"ru", "июнь", pM}, {"ru", "среда", 0},
	{"zh", "2014年6月18日", pD | pM | pY}, {"zh", "2014年6月", pM | pY}, {"zh", "星期三", 0},
	{"ar", "18 يونيو 2014", pD | pM | pY}, {"ar", "يونيو 2014", pM | pY}, {"ar", "18 يونيو", pD | pM},
	{"es", "18 de junio de 2014", pD | pM | pY}, {"es", "junio de 2014", pM | pY}, {"es", "18 de junio", pD | pM}, {"es", "lunes", 0},
	{"de", "18. Juni 2014", pD | pM | pY}, {"de", "Juni 2014", pM | pY}, {"de", "18. Juni", pD | pM}, {"de", "18.6.2014", pD | pM | pY}, {"de", "18.6", pD | pM},
	{"ja", "2014年6月18日", pD | pM | pY}, {"ko", "2014년 6월 18일", pD | pM | pY}, {"hu", "2014. június 18.", pD | pM | pY}, {"hu", "2014. június", pM | pY},
	{"th", "18 มิถุนายน 2014", pD | pM | pY}, {"hi", "18 जून 2014", pD | pM | pY}, {"hi", "जून 2014", pM | pY},
	// Jalali
	{"jalali", "۲۸/۰۳/۱۳۹۳", pD | pM | pY}, {"jalali", "28 خرداد 1393", pD | pM | pY}, {"jalali", "چهارشنبه 28 خرداد 1393 ساعت 10:20", pD | pM | pY}, {"jalali", "بیست و هشتم خرداد ۱۳۹۳", pD | pM | pY}, {"jalali", "28 خرداد 93", pD | pM | pY},
	{"jalali", "خرداد 1393", pM | pY}, {"jalali", "28 خرداد", pD | pM}, {"jalali", "خرداد", pM}, {"jalali", "1393", pY}, {"jalali", "10:20", 0}, {"jalali", "1393/03", pD | pY}, {"jalali", "خرداد ۱۳۹۳ ساعت ۱۰:۲۰", pM | pY}, {"jalali", "28/3", pD | pM},
	// Hijri
	{"hijri", "20/08/1435", pD | pM | pY}, {"hijri", "1435-08-10", pD | pM | pY}, {"hijri", "20-8-1435 10:20 مساءً", pD | pM | pY}, {"hijri", "٢٠/٠٨/١٤٣٥", pD | pM | pY}, {"hijri", "20/08/35", pD | pM | pY},
	{"hijri", "1435", pY}, {"hijri", "20/08", pD | pM}, {"hijri", "10:20", 0}, {"hijri", "20", pD}, {"hijri", "20 10:20", pD},
}

var c11Exempt = []struct{ lang, s, f string }{
	{"en", "3 days ago", ""}, {"en", "yesterday", ""}, {"en", "in 2 months", ""}, {"fr", "il y a 2 ans", ""}, {"en", "now", ""},
	{"en", "1403000000", ""}, {"en", "1403000000123", ""}, {"en", "-1403000000", ""},
	{"en", "June 2014", "January 2006"}, {"en", "10h20", "15h04"}, {"fr", "juin 2014", "January 2006"}, {"en", "2014", "2006"},
}

func runC11(c *Ctx) {
	p := &dps.Parser{}
	nows := []struct {
		n string
		f func(*dps.Configuration)
	}{
		{"plain", func(g *dps.Configuration) { g.CurrentTime = utc(2014, 6, 18, 10, 20, 30) }},
		{"leap", func(g *dps.Configuration) {
			g.CurrentTime = utc(2016, 2, 29, 23, 59, 59)
			g.PreferredDateSource, g.PreferredDayOfMonth, g.PreferredMonthOfYear = dps.Past, dps.Last, dps.FirstMonth
		}},
		{"year end", func(g *dps.Configuration) {
			g.CurrentTime = utc(2014, 12, 31, 0, 0, 0)
			g.PreferredDateSource, g.PreferredDayOfMonth, g.PreferredMonthOfYear = dps.Future, dps.First, dps.LastMonth
			g.ReturnTimeAsPeriod = true
		}},
		{"zone", func(g *dps.Configuration) {
			g.CurrentTime = utc(2014, 3, 31, 23, 0, 0)
			g.DefaultTimezone = mustLoc("America/New_York")
			g.SkipTokens = []string{"t", "year", "on"}
		}},
	}
	reqs := [][]string{nil, {"day"}, {"month"}, {"year"}, {"day", "month"}, {"month", "day"}, {"day", "year"}, {"year", "month"}, {"month", "year"}, {"day", "month", "year"},
		{"Year"}, {"DAY", "Month"}, {"year", "year"}, {"year", "month", "day"}, {"month", "month", "YEAR"}}
	bits := func(req []string) int {
		b := 0
		for _, r := range req {
			switch strings.ToLower(r) {
			case "day":
				b |= pD
			case "month":
				b |= pM
			case "year":
				b |= pY
			}
		}
		return b
	}
	call := func(kind, s string, cfg dps.Configuration, formats ...string) (date.Date, error) {
		c.Call(1)
		switch kind {
		case "jalali":
			return dps.ParseJalali(&cfg, s)
		case "hijri":
			return dps.ParseHijri(&cfg, s)
		}
		if cfg.Locales == nil {
			cfg.Languages = strings.Split(kind, ",")
		}
		return p.Parse(&cfg, s, formats...)
	}
	one := func(key, kind, s string, stated int, mk func() dps.Configuration, formats ...string) {
		for _, strict := range []bool{false, true} {
			for ri, req := range reqs {
				if !strict && req == nil {
					continue
				}
				c.Case(fmt.Sprintf("%s strict=%v req=%d", key, strict, ri), func() string {
					base, berr := call(kind, s, mk(), formats...)
					cfg := mk()
					cfg.StrictParsing, cfg.RequiredParts = strict, append([]string(nil), req...)
					got, err := call(kind, s, cfg, formats...)
					c.Outcome(show(got, err))
					need := bits(req)
					if strict {
						need = pD | pM | pY
					}
					if berr != nil {
						return "without the option: " + berr.Error()
					}
					if stated&need == need {
						if err != nil {
							return fmt.Sprintf("states all that is required by %v strict=%v, got: %v", req, strict, err)
						}
						if !got.Time.Equal(base.Time) || show(got, nil) != show(base, nil) {
							return fmt.Sprintf("the option changes the result from %s to %s", show(base, nil), show(got, nil))
						}
						return ""
					}
					if err == nil {
						return fmt.Sprintf("must be rejected by %v strict=%v, got %s", req, strict, show(got, nil))
					}
					if s := show(got, err); s != "error" {
						return s
					}
					return ""
				})
			}
		}
	}
	for _, t := range c11Strs {
		for ni, n := range nows {
			mk := func() dps.Configuration {
				var g dps.Configuration
				n.f(&g)
				return g
			}
			if (t.kind == "jalali" || t.kind == "hijri") && ni == 1 {
				mk = func() dps.Configuration { var g dps.Configuration; n.f(&g); g.PreferredMonthOfYear = 0; return g }
			}
			one(fmt.Sprintf("%s %s %q", n.n, t.kind, t.s), t.kind, t.s, t.parts, mk)
		}
	}
	for _, t := range c11Exempt {
		var f []string
		if t.f != "" {
			f = []string{t.f}
		}
		mk := func() dps.Configuration { var g dps.Configuration; nows[0].f(&g); return g }
		one(fmt.Sprintf("exempt %s %q", t.lang, t.s), t.lang, t.s, 7, mk, f...)
	}
	// date orders: the same digits state other parts
	for _, t := range []struct {
		order, s string
		parts    int
	}{{"YMD", "14/06", pM | pY}, {"DMY", "14/06", pD | pM}, {"MDY", "14/06", pD | pM}, {"YDM", "14/06", pD | pY}, {"DYM", "12/14", pD | pY}, {"MYD", "06/14", pM | pY}, {"DMY", "14", pD}, {"MDY", "11", pM}, {"YMD", "14", pY}, {"YMD", "2014/06/18", 7}, {"DYM", "18/14/06", 7}} {
		mk := func() dps.Configuration {
			var g dps.Configuration
			nows[0].f(&g)
			g.DateOrder = func(string) string { return t.order }
			return g
		}
		one(fmt.Sprintf("order %s %q", t.order, t.s), "en", t.s, t.parts, mk)
	}
	// the same string states different parts in two locales; the first locale
	// that satisfies the option must answer
	for _, t := range []struct{ langs, s string }{
		{"en,de", "06.14"}, {"hu,de", "14.06.18"}, {"en,fr", "mar 2014"}, {"en,es", "mar 10 2014"}, {"es,en", "mar 10 2014"}, {"fr,en", "mar 2014"}, {"es,en", "mar 2014"}, {"es,en", "mar"}, {"fr,es", "mar 18"}, {"en,hu", "14-06-18"}, {"ca,en", "set 2014"}, {"sv,en", "14/06"}, {"en,sv", "14/06"},
	} {
		for _, strict := range []bool{true, false} {
			for ri, req := range reqs {
				c.Case(fmt.Sprintf("pair %s %q strict=%v req=%d", t.langs, t.s, strict, ri), func() string {
					var want string
					for _, l := range strings.Split(t.langs, ",") {
						var g dps.Configuration
						nows[0].f(&g)
						g.StrictParsing, g.RequiredParts = strict, req
						if dt, err := call(l, t.s, g); err == nil {
							want = show(dt, nil)
							break
						}
					}
					var g dps.Configuration
					nows[0].f(&g)
					g.UseGivenOrder, g.StrictParsing, g.RequiredParts = true, strict, req
					dt, err := call(t.langs, t.s, g)
					c.Outcome(show(dt, err))
					if want == "" && err != nil {
						return ""
					}
					if got := show(dt, err); got != want {
						return fmt.Sprintf("the first of these locales that may answer gives %s, got %s", want, got)
					}
					return ""
				})
			}
		}
	}
	// every locale
	unsup := map[string]bool{}
	for _, l := range readLines(tablePath(c, "names-unsupported.tsv")) {
		unsup[l] = true
	}
	known := loadKnown(c.Verif+"/known-findings.txt", "C08")
	seen := map[string]int{}
	for _, nc := range nameCases(tablePath(c, "names.jsonl")) {
		if nc.kind != "m" || unsup[nc.l+"\tm\t"+nc.form] || nc.inherited {
			continue
		}
		str, _, _ := nc.base()
		if known[fmt.Sprintf("m %s locales %q", nc.l, str)] != "" {
			continue
		}
		seen[nc.l]++
		if c.Quick && (seen[nc.l] > 2 || len(seen)%2 != 0) || !c.Quick && seen[nc.l] > 24 {
			continue
		}
		for _, v := range []struct {
			s     string
			parts int
		}{{"17 " + nc.form + " 2014", 7}, {nc.form + " 2014", pM | pY}, {"17 " + nc.form, pD | pM}, {nc.form, pM}} {
			for ri, req := range [][]string{{"day"}, {"month"}, {"year"}, nil} {
				c.Case(fmt.Sprintf("name %s %q %d", nc.l, v.s, ri), func() string {
					g := dps.Configuration{Locales: []string{nc.l}, CurrentTime: utc(2014, 6, 10, 0, 0, 0)}
					base, berr := call("", v.s, g)
					if berr != nil || base.Period == date.Month && v.parts&pD != 0 || base.Period == date.Day && v.parts&pD == 0 || base.Time.Month() != nc.month() {
						return "" // the locale reads this notation in another way
					}
					g.RequiredParts, g.StrictParsing = req, req == nil
					got, err := call("", v.s, g)
					c.Outcome(show(got, err))
					need := bits(req)
					if req == nil {
						need = 7
					}
					if v.parts&need == need {
						if show(got, err) != show(base, nil) {
							return fmt.Sprintf("complete for %v, want %s, got %s", req, show(base, nil), show(got, err))
						}
					} else if err == nil {
						return fmt.Sprintf("must be rejected by %v, got %s", req, show(got, nil))
					}
					return ""
				})
			}
		}
	}
}
