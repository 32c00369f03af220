package main

import (
	"fmt"
	"slices"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C20", Run: runC20, QuickSecs: 120, DeepSecs: 800,
		Statement:  "ParserTypes: only listed methods are used, the first one that accepts decides, the list is not altered",
		Assume:     []string{"what each single method makes of each string is written down in the check (c20Strs)", "English 'Wednesday', Hijri and Jalali dates are outside"},
		Bounds:     map[string]string{"lists": "nil, empty, every list of up to 3 types with repetition, every order of 4 of the six types and of all six, an unknown type (6, 7, 255) in every position of every list of up to 2", "strings": "35 strings accepted by every combination of methods, with and without matching and non-matching formats", "locales": "one language, two languages, all languages", "entry points": "Parse and SearchWithLanguage"},
		BoundsDeep: map[string]string{"lists": "every list of up to 4 types with repetition, every order of up to six, unknown types in every position of every list of up to 3"},
	})
}

const (
	tT = dps.Timestamp
	tN = dps.NegativeTimestamp
	tR = dps.RelativeTime
	tC = dps.CustomFormat
	tA = dps.AbsoluteTime
	tS = dps.NoSpacesTime
)

type pt = map[dps.ParserType]string

type c20Str struct {
	langs   string
	s       string
	formats []string
	raw     string // what a format makes of the string itself
	by      pt     // what each method makes of it
}

var c20Strs = []c20Str{
	{"en", "1403086830", nil, "", pt{tT: "2014-06-18 10:20:30 Day", tS: "1403-08-06 08:30:00 Day"}},
	{"en", "1403086830123", nil, "", pt{tT: "2014-06-18 10:20:30.123 Day"}},
	{"en", "-1403086830", nil, "", pt{tN: "1925-07-16 13:39:30 Day"}},
	{"en", "-1403086830500", nil, "", pt{tN: "1925-07-16 13:39:30.5 Day"}},
	{"en", "2 days ago", nil, "", pt{tR: "2015-07-29 12:00:00 Day"}},
	{"en", "yesterday", nil, "", pt{tR: "2015-07-30 12:00:00 Day"}},
	{"en", "yesterday 10:20", nil, "", pt{tR: "2015-07-30 10:20:00 Day"}},
	{"en", "in 3 weeks", nil, "", pt{tR: "2015-08-21 12:00:00 Day"}},
	{"en", "1 hour", nil, "", pt{tR: "2015-07-31 11:00:00 Day", tA: "2015-01-31 00:00:00 Month"}},
	{"en", "18 June 2014", nil, "", pt{tA: "2014-06-18 00:00:00 Day"}},
	{"en", "June 2014", nil, "", pt{tA: "2014-06-30 00:00:00 Month"}},
	{"en", "06/18/2014", nil, "", pt{tA: "2014-06-18 00:00:00 Day"}},
	{"en", "Wednesday", nil, "", pt{tA: "2015-07-29 00:00:00 Day"}},
	{"en", "10:20", nil, "", pt{tA: "2015-07-31 10:20:00 Day"}},
	{"en", "2014", nil, "", pt{tA: "2014-07-31 00:00:00 Year", tS: "2020-01-04 00:00:00 Day"}},
	{"en", "06182014", nil, "", pt{tS: "2014-06-18 00:00:00 Day"}},
	{"de", "18062014", nil, "", pt{tS: "2014-06-18 00:00:00 Day"}},
	{"en", "20140618102030", nil, "", pt{tS: "2014-06-18 10:20:30 Day"}},
	{"en", "061814", nil, "", pt{tS: "2014-06-18 00:00:00 Day"}},
	{"en", "2014-06-18 10:20 UTC", nil, "", pt{tA: "2014-06-18 10:20:00 Day"}},
	{"en", "2014-06-18", []string{"2006-02-01", "2006-01-02"}, "2014-06-18 00:00:00 Day", nil},
	{"en", "2014-06-01", []string{"2006-02-01", "2006-01-02"}, "2014-01-06 00:00:00 Day", nil},
	{"en", "2014/06/18", []string{"2006-02-01", "2006-01-02"}, "", pt{tA: "2014-06-18 00:00:00 Day"}},
	{"en", "1403086830", []string{"2006010215"}, "", pt{tT: "2014-06-18 10:20:30 Day", tS: "1403-08-06 08:30:00 Day"}},
	{"en", "1403081020", []string{"2006010215"}, "1403-08-10 20:00:00 Day", nil},
	{"en", "1403081020", []string{"200601021504", "2006021504"}, "1403-07-08 10:20:00 Year", nil},
	{"en", "3 June 2014", []string{"_2 January 2006"}, "2014-06-03 00:00:00 Day", nil},
	{"fr", "03 juin 14", []string{"06 January 02"}, "", pt{tC: "2003-06-14 00:00:00 Day", tA: "2014-06-03 00:00:00 Day"}},
	{"fr", "03 juin 14", []string{"15 January 02", "06 January 02"}, "", pt{tC: "2015-06-14 03:00:00 Day", tA: "2014-06-03 00:00:00 Day"}},
	{"fr", "3 juin 2014", []string{"2006"}, "", pt{tA: "2014-06-03 00:00:00 Day"}},
	{"fr", "il y a 2 jours", nil, "", pt{tR: "2015-07-29 12:00:00 Day"}},
	{"fr", "18 juin 2014", nil, "", pt{tA: "2014-06-18 00:00:00 Day"}},
	{"fr", "il y a 3 ans", []string{"il y a 2 ans 2006", "il y a 1 ans"}, "2015-03-31 00:00:00 Month", nil},
	{"de", "1. 2.", nil, "", pt{tA: "2015-02-01 00:00:00 Day"}},
	// several locales: each tries its methods before the next locale does
	{"en,fr", "2 days ago", nil, "", pt{tR: "2015-07-29 12:00:00 Day"}},
	{"fr,de", "18.06.2014", nil, "", pt{tA: "2014-06-18 00:00:00 Day"}},
	{"", "1403086830", nil, "", pt{tT: "2014-06-18 10:20:30 Day", tS: "1403-08-06 08:30:00 Day"}},
	{"", "15 августа 2014", nil, "", pt{tA: "2014-08-15 00:00:00 Day"}},
	{"", "2 дня назад", nil, "", pt{tR: "2015-07-29 12:00:00 Day"}},
	{"en", "hello", nil, "", pt{}},
	{"en", "", nil, "", pt{}},
	{"en", "hello", []string{"2006", ""}, "", pt{}},
}

// ptLists calls fn with every list of n types; rep says whether types may repeat.
func ptLists(n int, rep bool, fn func([]dps.ParserType)) {
	var rec func(l []dps.ParserType)
	rec = func(l []dps.ParserType) {
		if len(l) == n {
			fn(slices.Clone(l))
			return
		}
		for t := dps.Timestamp; t <= dps.NoSpacesTime; t++ {
			if rep || !slices.Contains(l, t) {
				rec(append(l, t))
			}
		}
	}
	rec(nil)
}

func runC20(c *Ctx) {
	all := []dps.ParserType{tT, tN, tR, tC, tA, tS}
	base := utc(2015, 7, 31, 12, 0, 0)
	cfgOf := func(langs string) *dps.Configuration {
		cfg := &dps.Configuration{CurrentTime: base}
		if langs != "" {
			cfg.Languages = strings.Split(langs, ",")
		}
		return cfg
	}
	// untouched returns the list with some room behind it and a check that neither was written
	untouched := func(l []dps.ParserType) ([]dps.ParserType, func(p *dps.Parser) string) {
		back := make([]dps.ParserType, len(l)+3)
		copy(back, l)
		for i := len(l); i < len(back); i++ {
			back[i] = 77
		}
		list := back[:len(l)]
		if l == nil {
			list = nil
		}
		return list, func(p *dps.Parser) string {
			if !slices.Equal(back[:len(l)], l) || back[len(l)] != 77 || back[len(l)+1] != 77 || back[len(l)+2] != 77 {
				return fmt.Sprintf("the list was overwritten: %v", back)
			}
			if len(l) > 0 && !slices.Equal(p.ParserTypes, l) {
				return fmt.Sprintf("ParserTypes became %v", p.ParserTypes)
			}
			if len(l) == 0 && len(p.ParserTypes) != 0 && !slices.Equal(p.ParserTypes, all) {
				return fmt.Sprintf("the documented default order became %v", p.ParserTypes)
			}
			return ""
		}
	}
	run := func(l []dps.ParserType, s c20Str) {
		c.Case(fmt.Sprintf("%v %q %q %q", l, s.langs, s.s, s.formats), func() string {
			want := s.raw
			eff := l
			if len(l) == 0 {
				eff = all
			}
			if want == "" {
				for _, t := range eff {
					if want = s.by[t]; want != "" {
						break
					}
				}
			}
			list, check := untouched(l)
			p := &dps.Parser{ParserTypes: list}
			for round := 0; round < 2; round++ { // the second call sees the list the first one left
				dt, err := p.Parse(cfgOf(s.langs), s.s, s.formats...)
				c.Call(1)
				c.Outcome(show(dt, err))
				dt.Time = dt.Time.UTC()
				got := wall(dt, err)
				if want == "" && err == nil || want != "" && got != want {
					return fmt.Sprintf("call %d: want %q, got %q", round+1, want, got)
				}
				if m := check(p); m != "" {
					return m
				}
			}
			return ""
		})
	}
	lists := func(fn func([]dps.ParserType)) {
		fn(nil)
		fn([]dps.ParserType{})
		for n := 1; n <= 3; n++ {
			ptLists(n, true, fn)
		}
		ptLists(4, !c.Quick, fn)
		ptLists(6, false, fn)
		if !c.Quick {
			ptLists(5, false, fn)
		}
	}
	for _, s := range c20Strs {
		k := 0
		lists(func(l []dps.ParserType) {
			k++
			if c.Quick && len(l) > 3 && k%3 != 0 && s.langs == "" {
				return
			}
			run(l, s)
		})
	}
	// unknown types
	deep := 2
	if !c.Quick {
		deep = 3
	}
	for n := 0; n <= deep; n++ {
		ptLists(n, false, func(l []dps.ParserType) {
			for pos := 0; pos <= n; pos++ {
				for _, bad := range []dps.ParserType{6, 7, 255} {
					for _, s := range []c20Str{c20Strs[0], c20Strs[9], c20Strs[20]} {
						bl := slices.Insert(slices.Clone(l), pos, bad)
						c.Case(fmt.Sprintf("unknown %v %q", bl, s.s), func() string {
							list, check := untouched(bl)
							p := &dps.Parser{ParserTypes: list}
							dt, err := p.Parse(cfgOf(s.langs), s.s, s.formats...)
							c.Call(1)
							if err == nil || show(dt, err) != "error" {
								return "an unknown parser type gives " + show(dt, err)
							}
							if _, err = p.Parse(nil, s.s); err == nil {
								return "an unknown parser type is accepted with a nil configuration"
							}
							return check(p)
						})
					}
				}
			}
		})
	}
	// searching uses the same methods
	texts := []struct {
		s  string
		by map[dps.ParserType][]string
	}{
		{"we met on 18 June 2014 there", map[dps.ParserType][]string{tA: {"2014-06-18 00:00:00 Day"}}},
		{"it happened yesterday", map[dps.ParserType][]string{tR: {"2015-07-30 12:00:00 Day"}}},
		{"code 1403086830", map[dps.ParserType][]string{tT: {"2014-06-18 10:20:30 Day"}}},
	}
	for _, tx := range texts {
		for n := 0; n <= 3; n++ {
			ptLists(n, false, func(l []dps.ParserType) {
				if len(l) == 0 {
					l = nil
				}
				if tx.s == texts[2].s && slices.Contains(l, tS) {
					return
				}
				c.Case(fmt.Sprintf("search %v %q", l, tx.s), func() string {
					list, check := untouched(l)
					p := &dps.Parser{ParserTypes: list}
					found, err := p.SearchWithLanguage(&dps.Configuration{CurrentTime: base}, "en", tx.s)
					c.Call(1)
					if err != nil {
						return err.Error()
					}
					var got, want []string
					for _, f := range found {
						got = append(got, wall(date.Date{Time: f.Date.Time.In(time.UTC), Period: f.Date.Period}, nil))
					}
					eff := l
					if l == nil {
						eff = all
					}
					for _, t := range eff {
						want = append(want, tx.by[t]...)
					}
					if !slices.Equal(got, want) {
						return fmt.Sprintf("want %q, got %q", want, got)
					}
					return check(p)
				})
			})
		}
	}
}
