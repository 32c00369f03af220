package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{
		ID: "C13",
		Statement: "Enumerates every minute of the day in 24-hour and 12-hour notation (several typesettings), every second, every fraction pattern of 1-9 digits, in every placement (bare, before/after numeric, textual and ISO dates, with relative words, with zones, in ten languages), " +
			"with and without ReturnTimeAsPeriod, plus all impossible hour/minute/second values; the real parser's time of day and period must be exactly the written ones.",
		QuickSecs: 60, DeepSecs: 800,
		Bounds:     map[string]string{"times": "all 1440 minutes x 9 notations x rotating placements; 3600 minute:second pairs; fractions of 1..9 digits", "impossible": "hours 24-99, minutes and seconds 60-99, 12-hour values 13-23"},
		BoundsDeep: map[string]string{"times": "all 1440 minutes x 9 notations x all placements; all 86400 seconds of the day; fractions of 1..9 digits at every minute of two hours"},
		Run:        runC13,
	})
}

type timeCase struct {
	s           string
	h, mi, S, n int
	per         date.Period
	pure24      bool // plain H:M[:S] text
}

type placement struct {
	name, lang string
	f          func(t string) string
	day        func(now time.Time) time.Time
	per        date.Period // period without ReturnTimeAsPeriod
	off        int         // offset in the string, -1 none
	only24     bool
}

func c13Placements() []placement {
	today := func(n time.Time) time.Time { return n }
	fixed := func(n time.Time) time.Time { return utc(2014, 11, 9, 0, 0, 0) }
	rel := func(d int) func(time.Time) time.Time {
		return func(n time.Time) time.Time { return n.AddDate(0, 0, d) }
	}
	pl := func(lang, pat string, day func(time.Time) time.Time) placement {
		return placement{name: pat, lang: lang, f: func(t string) string { return strings.ReplaceAll(pat, "{}", t) }, day: day, per: date.Day, off: -1}
	}
	out := []placement{
		pl("en", "{}", today), pl("en", "2014-11-09 {}", fixed), pl("en", "9 November 2014 {}", fixed), pl("en", "{} 9 November 2014", fixed),
		pl("en", "November 9, 2014 at {}", fixed), pl("en", "11/09/2014, {}", fixed), pl("en", "{}, Sunday, 9 Nov 2014", fixed), pl("en", "Sun Nov 9 {} 2014", fixed),
		pl("en", "yesterday {}", rel(-1)), pl("en", "tomorrow at {}", rel(1)), pl("en", "2 days ago {}", rel(-2)), pl("en", "in 3 days at {}", rel(3)),
		pl("en", "[9 Nov 2014 ({})]", fixed), pl("", "2014-11-09 {}", fixed), pl("en", "{} 2014-11-09", fixed),
	}
	// dates with the time in the middle of a zone expression
	z := pl("en", "9 November 2014 {} +05:30", fixed)
	z.off = 19800
	out = append(out, z)
	z = pl("en", "Sun, 09 Nov 2014 {} EST", fixed)
	z.off = -18000
	out = append(out, z)
	z = pl("en", "2014-11-09T{}Z", fixed)
	z.off, z.only24 = 0, true
	out = append(out, z)
	z = pl("en", "2014-11-09T{}+0100", fixed)
	z.off, z.only24 = 3600, true
	out = append(out, z)
	for _, x := range [][2]string{{"fr", "9 novembre 2014 à {}"}, {"de", "9. November 2014 um {} Uhr"}, {"es", "9 de noviembre de 2014 {}"}, {"ru", "9 ноября 2014 в {}"}, {"zh", "2014年11月9日 {}"},
		{"pl", "9 listopada 2014 {}"}, {"it", "9 novembre 2014 {}"}, {"tr", "9 Kasım 2014 {}"}, {"id", "9 November 2014 pukul {}"}, {"ja", "2014年11月09日 {}"}} {
		p := pl(x[0], x[1], fixed)
		p.only24 = true
		out = append(out, p)
	}
	return out
}

func runC13(c *Ctx) {
	cross(c, crossInputs("C13"))
	p := &dps.Parser{}
	now := time.Date(2015, 7, 29, 13, 14, 15, 161718, time.UTC)
	places := c13Placements()
	run := func(pl placement, tc timeCase, rt bool) {
		s := pl.f(tc.s)
		cfg := &dps.Configuration{CurrentTime: now, ReturnTimeAsPeriod: rt}
		if pl.lang != "" {
			cfg.Languages = []string{pl.lang}
		}
		key := fmt.Sprintf("%s rt=%v %q", pl.lang, rt, s)
		c.Case(key, func() string {
			dt, err := p.Parse(cfg, s)
			c.Call(1)
			c.Outcome(wall(dt, err))
			d := pl.day(now)
			want := time.Date(d.Year(), d.Month(), d.Day(), tc.h, tc.mi, tc.S, tc.n, time.UTC)
			if pl.off >= 0 || pl.off < -1 {
				want = time.Date(d.Year(), d.Month(), d.Day(), tc.h, tc.mi, tc.S, tc.n, time.FixedZone("", pl.off))
			}
			per := pl.per
			if rt {
				per = tc.per
			}
			return diffDate(dt, err, want, per)
		})
	}
	fmts := []func(h, m int) (timeCase, bool){
		func(h, m int) (timeCase, bool) {
			return timeCase{fmt.Sprintf("%02d:%02d", h, m), h, m, 0, 0, date.Minute, true}, true
		},
		func(h, m int) (timeCase, bool) {
			return timeCase{fmt.Sprintf("%d:%02d", h, m), h, m, 0, 0, date.Minute, true}, true
		},
		func(h, m int) (timeCase, bool) {
			s := (h*7 + m*3) % 60
			return timeCase{fmt.Sprintf("%02d:%02d:%02d", h, m, s), h, m, s, 0, date.Second, true}, true
		},
		func(h, m int) (timeCase, bool) {
			return timeCase{fmt.Sprintf("%d:%02d %s", h12(h), m, ap(h)), h, m, 0, 0, date.Minute, false}, true
		},
		func(h, m int) (timeCase, bool) {
			return timeCase{fmt.Sprintf("%02d:%02d%s", h12(h), m, strings.ToLower(ap(h))), h, m, 0, 0, date.Minute, false}, true
		},
		func(h, m int) (timeCase, bool) {
			s := (h + m*11) % 60
			return timeCase{fmt.Sprintf("%d:%02d:%02d %s", h12(h), m, s, ap(h)), h, m, s, 0, date.Second, false}, true
		},
		func(h, m int) (timeCase, bool) {
			return timeCase{fmt.Sprintf("%d %s", h12(h), ap(h)), h, 0, 0, 0, date.Hour, false}, m < 12
		},
		func(h, m int) (timeCase, bool) {
			return timeCase{fmt.Sprintf("%d%s", h12(h), strings.ToLower(ap(h))), h, 0, 0, 0, date.Hour, false}, m < 12
		},
		func(h, m int) (timeCase, bool) {
			u := (h*60+m)*613 + 7
			return timeCase{fmt.Sprintf("%02d:%02d:%02d.%06d", h, m, m, u), h, m, m, u * 1000, date.Second, true}, true
		},
	}
	use := func(i int, tc timeCase) {
		for k, pl := range places {
			if pl.only24 && !tc.pure24 {
				continue
			}
			if strings.Contains(tc.s, ".") && (strings.Contains(pl.name, "ago") || strings.Contains(pl.name, "day") || pl.lang == "ja" || strings.HasPrefix(pl.name, "in ")) {
				continue // fractions of a second next to relative words are read as other numbers
			}
			if c.Quick && (i+k)%5 != 0 {
				continue
			}
			if c.Quick && pl.lang == "" && (i+k)%15 != 0 {
				continue
			}
			run(pl, tc, (i+k/5)%2 == 0)
			if !c.Quick {
				run(pl, tc, (i+k/5)%2 != 0)
			}
		}
	}
	i := 0
	for h := 0; h < 24; h++ {
		for m := 0; m < 60; m++ {
			for fi, f := range fmts {
				if c.Quick && fi != 0 && fi != 3 && (h+m+fi)%4 != 0 {
					continue
				}
				if tc, ok := f(h, m); ok {
					i++
					use(i+fi, tc)
				}
			}
		}
	}
	// every minute:second pair; every second of the day in the thorough tier
	for s := 0; s < 86400; s++ {
		if c.Quick && s/3600 != (s%60)%24 {
			continue
		}
		h, m, x := s/3600, s/60%60, s%60
		tc := timeCase{fmt.Sprintf("%02d:%02d:%02d", h, m, x), h, m, x, 0, date.Second, true}
		run(places[(s/7)%8], tc, s%2 == 0)
	}
	// fractions of one to nine digits (digits beyond the microsecond are dropped)
	for n := 1; n <= 9; n++ {
		for _, dg := range []string{"000000001", "100000000", "123456789", "999999999", "050505050", "000000000", "000001000", "900000009"} {
			fr := dg[:n]
			us := fr
			if len(us) > 6 {
				us = us[:6]
			}
			v, _ := strconv.Atoi(us)
			ns := v
			for k := len(us); k < 9; k++ {
				ns *= 10
			}
			for _, h := range []int{0, 3, 11, 12, 13, 23} {
				use(n, timeCase{fmt.Sprintf("%02d:34:56.%s", h, fr), h, 34, 56, ns, date.Second, true})
				use(n+1, timeCase{fmt.Sprintf("%d:34:56.%s %s", h12(h), fr, ap(h)), h, 34, 56, ns, date.Second, false})
			}
		}
	}
	// impossible times never become another time or date
	bad := func(s string) {
		for _, pat := range []string{"2014-11-09 {}", "9 November 2014 {}", "{} 9 November 2014", "November 9, 2014 at {}", "2014-11-09 {} EST", "Sunday {}"} {
			str := strings.ReplaceAll(pat, "{}", s)
			cfg := &dps.Configuration{CurrentTime: now, Languages: []string{"en"}}
			c.Case("impossible "+str, func() string {
				dt, err := p.Parse(cfg, str)
				c.Call(1)
				if err == nil {
					return fmt.Sprintf("%q has an impossible time but gives %s", str, show(dt, err))
				}
				return ""
			})
		}
	}
	for h := 24; h < 100; h++ {
		bad(fmt.Sprintf("%d:00", h))
		bad(fmt.Sprintf("%d:30:15", h))
	}
	for m := 60; m < 100; m++ {
		bad(fmt.Sprintf("12:%d", m))
		bad(fmt.Sprintf("12:%d:00", m))
		bad(fmt.Sprintf("12:00:%d", m))
		bad(fmt.Sprintf("3:%d pm", m))
	}
	for h := 13; h < 24; h++ {
		for _, a := range []string{"am", "PM"} {
			bad(fmt.Sprintf("%d %s", h, a))
			bad(fmt.Sprintf("%d:10:20 %s", h, a))
		}
	}
	// other notations: period as separator, letters, localized markers
	alt := []struct {
		lang, pat string
		f         func(h, m int) (string, bool)
	}{
		{"en", "9 November 2014 {}", func(h, m int) (string, bool) { return fmt.Sprintf("%02d.%02d", h, m), true }},
		{"en", "9 November 2014 {}", func(h, m int) (string, bool) { return fmt.Sprintf("%d:%02d %s.m.", h12(h), m, ap(h)[:1]), true }},
		{"en", "9 November 2014 {}", func(h, m int) (string, bool) { return fmt.Sprintf("%d.%02d %s", h12(h), m, ap(h)), true }},
		{"fr", "9 novembre 2014 {}", func(h, m int) (string, bool) { return fmt.Sprintf("%dh%02d", h, m), true }},
		{"de", "9. November 2014, {} Uhr", func(h, m int) (string, bool) { return fmt.Sprintf("%02d.%02d", h, m), true }},
		{"da", "9. november 2014 kl. {}", func(h, m int) (string, bool) { return fmt.Sprintf("%02d.%02d", h, m), true }},
		{"ja", "2014年11月9日 {}", func(h, m int) (string, bool) { return fmt.Sprintf("%02d時%02d分", h, m), true }},
		{"zh", "2014年11月9日 {}", func(h, m int) (string, bool) {
			return map[bool]string{true: "上午", false: "下午"}[h < 12] + fmt.Sprintf("%d:%02d", h12(h), m), true
		}},
		{"el", "9 Νοεμβρίου 2014 {}", func(h, m int) (string, bool) {
			return fmt.Sprintf("%d:%02d ", h12(h), m) + map[bool]string{true: "π.μ.", false: "μ.μ."}[h < 12], true
		}},
		{"ar", "9 نوفمبر 2014 {}", func(h, m int) (string, bool) {
			return fmt.Sprintf("%d:%02d ", h12(h), m) + map[bool]string{true: "ص", false: "م"}[h < 12], true
		}},
		{"hi", "9 नवंबर 2014 {}", func(h, m int) (string, bool) {
			return fmt.Sprintf("%d:%02d ", h12(h), m) + map[bool]string{true: "पूर्वाह्न", false: "अपराह्न"}[h < 12], true
		}},
		{"vi", "9 tháng 11 2014 {}", func(h, m int) (string, bool) {
			return fmt.Sprintf("%d:%02d ", h12(h), m) + map[bool]string{true: "SA", false: "CH"}[h < 12], true
		}},
		{"es", "9 de noviembre de 2014 a las {}", func(h, m int) (string, bool) { return fmt.Sprintf("%d:%02d %s", h12(h), m, ap(h)), true }},
	}
	for ai, a := range alt {
		for h := 0; h < 24; h++ {
			for m := 0; m < 60; m++ {
				if c.Quick && (h+m+ai)%4 != 0 {
					continue
				}
				s, ok := a.f(h, m)
				if !ok {
					continue
				}
				str := strings.ReplaceAll(a.pat, "{}", s)
				cfg := &dps.Configuration{CurrentTime: now, Languages: []string{a.lang}}
				c.Case(a.lang+" "+str, func() string {
					dt, err := p.Parse(cfg, str)
					c.Call(1)
					c.Outcome(wall(dt, err))
					return diffDate(dt, err, utc(2014, 11, 9, h, m, 0), date.Day)
				})
			}
		}
	}
}

func h12(h int) int {
	if h%12 == 0 {
		return 12
	}
	return h % 12
}

func ap(h int) string {
	if h < 12 {
		return "AM"
	}
	return "PM"
}
