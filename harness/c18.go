package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	dps "github.com/markusmobius/go-dateparser"
)

func init() {
	register(&Check{ID: "C18", Run: runC18, QuickSecs: 150, DeepSecs: 800,
		Statement:  "the locales tried, their order, the errors and the default languages are those of a model of the configuration; what one locale makes of a string is the implementation's own answer for that locale alone (self-composition)",
		Assume:     []string{"the order of prevalence is tables/languages.txt and tables/locale-order.tsv (the released data)", "what a default language makes of a string is its answer behind a language that cannot read the string", "unknown default languages are outside the domain"},
		Bounds:     map[string]string{"locales": "all lists of up to 3 of 13 codes (known, regional, conflicting, unknown, wrong case) x given order x strings", "languages": "all lists of up to 3 of 11 codes x 8 regions x given order x strings", "detector": "all answers of up to 2 of 8 codes x languages, locales x region x order", "default languages": "all lists of up to 2 of 6 x languages x region x order", "no selection": "36 strings x 6 regions over all languages", "every locale": "504 locales named four ways, and wrong spellings of each"},
		BoundsDeep: map[string]string{"strings": "14 per list instead of 2-4", "detector": "up to 3"},
	})
}

type c18 struct {
	c       *Ctx
	langs   []string // in order of prevalence
	isLang  map[string]bool
	order   map[string]int // of locales
	single  map[string]string
	parents map[string]string
}

func newC18(c *Ctx) *c18 {
	m := &c18{c: c, isLang: map[string]bool{}, order: map[string]int{}, single: map[string]string{}}
	bt, err := os.ReadFile(tablePath(c, "languages.txt"))
	if err != nil {
		panic(err)
	}
	m.langs = strings.Fields(string(bt))
	for _, l := range m.langs {
		m.isLang[l] = true
	}
	for _, l := range readLines(tablePath(c, "locale-order.tsv")) {
		var n string
		var o int
		if _, err := fmt.Sscanf(l, "%s\t%d", &n, &o); err == nil {
			m.order[n] = o
		}
	}
	if len(m.langs) < 200 || len(m.order) < 500 {
		panic("tables missing")
	}
	return m
}

// language is the code without its region.
func (m *c18) language(locale string) string {
	if m.isLang[locale] {
		return locale
	}
	return locale[:strings.LastIndex(locale, "-")]
}

func (m *c18) sorted(ls []string, given bool) []string {
	if !given {
		sort.SliceStable(ls, func(i, j int) bool {
			if a, b := m.order[ls[i]], m.order[ls[j]]; a != b {
				return a < b
			}
			return ls[i] < ls[j]
		})
	}
	return ls
}

func (m *c18) fromLanguages(langs []string, region string, given bool) ([]string, bool) {
	region = strings.ToUpper(strings.TrimSpace(region))
	seen := map[string]bool{}
	var out []string
	for _, l := range langs {
		if !m.isLang[l] {
			return nil, false
		}
		if region != "" {
			l += "-" + region
		}
		if _, ok := m.order[l]; ok && !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	return m.sorted(out, given), true
}

// locales is the model: the locales to try, in order, or an error.
func (m *c18) locales(cfg dps.Configuration, det []string) ([]string, bool) {
	if len(cfg.Locales) > 0 {
		seen, lang := map[string]bool{}, map[string]bool{}
		var out []string
		for _, l := range cfg.Locales {
			if seen[l] {
				continue
			}
			seen[l] = true
			if _, ok := m.order[l]; !ok || lang[m.language(l)] {
				return nil, false
			}
			lang[m.language(l)] = true
			out = append(out, l)
		}
		return m.sorted(out, cfg.UseGivenOrder), true
	}
	ls := cfg.Languages
	if len(ls) == 0 {
		ls = det
	}
	if len(ls) == 0 {
		ls = m.langs
	}
	return m.fromLanguages(ls, cfg.Region, cfg.UseGivenOrder)
}

var c18Now = utc(2014, 6, 18, 10, 20, 30)

// alone is what the locale makes of the string when it is the only one.
func (m *c18) alone(l, s string) string {
	k := l + "\t" + s
	if r, ok := m.single[k]; ok {
		return r
	}
	dt, err := (&dps.Parser{}).Parse(&dps.Configuration{Locales: []string{l}, CurrentTime: c18Now}, s)
	m.c.Call(1)
	r := show(dt, err)
	if err == nil && dt.Locale != l {
		r += " but not in locale " + l
	}
	m.single[k] = r
	return r
}

// asDefault is what the locale makes of the string as a default language.
func (m *c18) asDefault(lang, region, s string) string {
	k := "default\t" + lang + "\t" + region + "\t" + s
	if r, ok := m.single[k]; ok {
		return r
	}
	loc := lang
	if region != "" {
		loc += "-" + region
	}
	r := ""
	if r = m.alone(loc, s); r == "error" {
		// not applicable, but a default language is tried all the same
		dt, err := (&dps.Parser{}).Parse(&dps.Configuration{Languages: []string{"zgh"}, Region: region, DefaultLanguages: []string{lang}, CurrentTime: c18Now}, s)
		m.c.Call(1)
		r = show(dt, err)
	}
	m.single[k] = r
	return r
}

func (m *c18) check(key string, cfg dps.Configuration, det func(string) []string, s string) {
	c := m.c
	c.Case(key, func() string {
		cfg.CurrentTime = c18Now
		calls := 0
		p := &dps.Parser{}
		var answer []string
		if det != nil {
			answer = det(s)
			p.DetectLanguagesFunction = func(t string) []string { calls++; return det(t) }
		}
		in := cfg
		dt, err := p.Parse(&in, s)
		got := show(dt, err)
		c.Call(1)
		if calls > 0 && (len(cfg.Locales) > 0 || len(cfg.Languages) > 0) {
			return "the detector was called although languages or locales are given"
		}
		ls, ok := m.locales(cfg, answer)
		want := "error"
		if ok {
			for _, l := range ls {
				if want = m.alone(l, s); want != "error" {
					break
				}
			}
			if want == "error" && len(cfg.DefaultLanguages) > 0 {
				dl, _ := m.fromLanguages(cfg.DefaultLanguages, cfg.Region, cfg.UseGivenOrder)
				for _, l := range dl {
					if want = m.asDefault(m.language(l), strings.ToUpper(strings.TrimSpace(cfg.Region)), s); want != "error" {
						break
					}
				}
			}
		}
		c.Outcome(got)
		if got != want {
			tried := fmt.Sprint(ls)
			if len(ls) > 8 {
				tried = fmt.Sprint(ls[:8]) + "..."
			}
			return fmt.Sprintf("%q gives %s, but the locales to try are %s %v and the first that reads it gives %s", s, got, tried, ok, want)
		}
		return ""
	})
}

// lists calls f with every list of up to n codes.
func lists(codes []string, n int, f func(l []string)) {
	var rec func(l []string)
	rec = func(l []string) {
		f(l)
		if len(l) < n {
			for _, x := range codes {
				rec(append(l[:len(l):len(l)], x))
			}
		}
	}
	rec(nil)
}

func runC18(c *Ctx) {
	m := newC18(c)
	// strings many, some or one of the languages read, and differently
	strs := []string{"01/02/2014", "5 mars 2014", "3 mai", "2014-03-04", "10 Mai 2014 15:30", "abril 7", "21 juli 1999", "12 мая 2014", "11.10.09", "2 tháng 3 2014", "vor 2 Tagen", "1403086830", "сегодня", "hier"}
	pick := func(i, n int) []string { // a rotating selection
		if !c.Quick {
			return strs
		}
		var out []string
		for j := 0; j < n; j++ {
			out = append(out, strs[(i*n+j)%len(strs)])
		}
		return out
	}
	orders := []bool{false, true}
	i := 0
	// locales
	codes := []string{"en", "fr", "de", "es", "en-GB", "en-US", "fr-BE", "de-AT", "es-MX", "zh-Hant-HK", "xx", "EN", "en-XX"}
	lists(codes, 3, func(l []string) {
		for _, g := range orders {
			for _, extra := range []int{0, 1, 2} {
				i++
				cfg := dps.Configuration{Locales: l, UseGivenOrder: g}
				if extra > 0 && (c.Quick && i%5 != 0 || len(l) == 0) {
					continue
				}
				if extra == 1 { // ignored next to locales
					cfg.Languages, cfg.Region = []string{"ru", "vi"}, "BE"
				}
				if extra == 2 {
					cfg.Languages, cfg.Region = []string{"xx"}, "XX"
				}
				for _, s := range pick(i, 4) {
					m.check(fmt.Sprintf("locales %q %v %d %q", l, g, extra, s), cfg, nil, s)
				}
			}
		}
	})
	// languages and region
	langs := []string{"en", "fr", "de", "es", "vi", "ru", "pt", "it", "zh-Hant", "en-GB", "xx"}
	for _, r := range []string{"", "BE", " gb ", "US", "MX", "XX", "150", "ch"} {
		lists(langs, 3, func(l []string) {
			if len(l) == 0 {
				return
			}
			for _, g := range orders {
				i++
				for _, s := range pick(i, 2) {
					m.check(fmt.Sprintf("languages %q %q %v %q", l, r, g, s), dps.Configuration{Languages: l, Region: r, UseGivenOrder: g}, nil, s)
				}
			}
		})
	}
	// detector
	n := 2
	if !c.Quick {
		n = 3
	}
	lists([]string{"fr", "en", "de", "ru", "es", "vi", "xx", "fr-BE"}, n, func(l []string) {
		for _, cf := range []dps.Configuration{{}, {Languages: []string{"it", "fr"}}, {Locales: []string{"es-MX"}}, {Languages: []string{"ru"}, Locales: []string{"de"}}} {
			for _, r := range []string{"", "BE", "us"} {
				for _, g := range orders {
					i++
					cf.Region, cf.UseGivenOrder = r, g
					for _, s := range pick(i, 2) {
						if len(l) == 0 && len(cf.Languages)+len(cf.Locales) == 0 && i%3 != 0 {
							continue
						}
						m.check(fmt.Sprintf("detector %q %q %q %q %v %q", l, cf.Languages, cf.Locales, r, g, s), cf, func(string) []string { return append([]string(nil), l...) }, s)
					}
				}
			}
		}
	})
	// default languages
	lists([]string{"en", "fr", "de", "ru", "es", "vi"}, 2, func(d []string) {
		lists([]string{"en", "fr", "de", "ja", "en-GB", "xx", "fr-BE"}, 2, func(l []string) {
			if len(l) == 0 || len(d) == 0 {
				return
			}
			for _, r := range []string{"", "BE", "ch"} {
				for _, g := range orders {
					for _, mode := range []string{"languages", "detector", "locales"} {
						if c.Quick && mode != "languages" && (i+len(l))%3 != 0 {
							i++
							continue
						}
						i++
						for _, s := range pick(i, 2) {
							cfg := dps.Configuration{DefaultLanguages: d, Region: r, UseGivenOrder: g}
							var det func(string) []string
							switch mode {
							case "languages":
								cfg.Languages = l
							case "locales":
								cfg.Locales = l
							default:
								det = func(string) []string { return append([]string(nil), l...) }
							}
							m.check(fmt.Sprintf("default %q %s %q %q %v %q", d, mode, l, r, g, s), cfg, det, s)
						}
					}
				}
			}
		})
	})
	// no selection: every language in order of prevalence
	all := append(append([]string{}, strs...), "18 June 2014", "18 juin 2014", "18. Juni 2014", "18 giugno 2014", "18 kesäkuuta 2014", "18 haziran 2014", "18 iunie 2014", "18 Ιουνίου 2014", "18 června 2014", "18 czerwca 2014", "18 июня 2014", "18 ביוני 2014", "18 يونيو 2014", "18 जून 2014", "2014년 6월 18일", "2014年6月18日", "18 มิถุนายน 2014", "nonsense", "gestern", "ayer", "2 days ago", "10 nov 2014")
	for _, s := range all {
		for _, r := range []string{"", "BE", "ch", "IN", "001", "XX"} {
			for _, g := range orders {
				if c.Quick && r == "" && g {
					continue
				}
				m.check(fmt.Sprintf("all %q %v %q", r, g, s), dps.Configuration{Region: r, UseGivenOrder: g}, nil, s)
			}
		}
	}
	// every locale is known and usable, under its code only
	locs := readLines(tablePath(c, "locale-order.tsv"))
	for li, line := range locs {
		l := strings.Split(line, "\t")[0]
		if l == "" {
			continue
		}
		c.Case("known "+l, func() string {
			if !dps.IsKnownLocale(l) {
				return "not known: " + l
			}
			lang, region := m.language(l), strings.TrimPrefix(strings.TrimPrefix(l, m.language(l)), "-")
			for ci, cfg := range []dps.Configuration{{Locales: []string{l}}, {Locales: []string{l, "xx"}}, {Languages: []string{lang}, Region: region}, {Languages: []string{lang}, Region: strings.ToLower(" " + region + " ")}, {Languages: []string{lang, "zgh"}, Region: region, UseGivenOrder: true}} {
				cfg.CurrentTime, cfg.DateOrder = c18Now, dps.YMD
				dt, err := dps.Parse(&cfg, "2014-06-17")
				c.Call(1)
				if ci == 1 {
					if err == nil {
						return "an unknown locale next to " + l + " is accepted"
					}
				} else if show(dt, err) != "2014-06-17T00:00:00+00:00:00 Day ["+l+"]" {
					return fmt.Sprintf("%s with configuration %d: 2014-06-17 is %s", l, ci, show(dt, err))
				}
			}
			if _, err := (&dps.Parser{}).SearchWithLanguage(&dps.Configuration{CurrentTime: c18Now}, l, "2014-06-17"); err != nil {
				return "SearchWithLanguage: " + err.Error()
			}
			lg, _, err := (&dps.Parser{}).Search(&dps.Configuration{Locales: []string{l}, CurrentTime: c18Now}, "2014-06-17")
			if err != nil || lg != lang {
				return fmt.Sprintf("Search detects %q (%v) among the locale %s", lg, err, l)
			}
			if m.isLang[l] {
				dt, err := (&dps.Parser{DetectLanguagesFunction: func(string) []string { return []string{l} }}).Parse(&dps.Configuration{CurrentTime: c18Now, DateOrder: dps.YMD}, "2014-06-17")
				if show(dt, err) != "2014-06-17T00:00:00+00:00:00 Day ["+l+"]" {
					return "as the detector's answer: " + show(dt, err)
				}
			}
			c.Call(3)
			c.Outcome(l)
			return ""
		})
		for _, bad := range []string{strings.ToUpper(l), strings.ReplaceAll(l, "-", "_"), " " + l, l + " ", l + "-", l + "-ZZ", "x" + l, strings.ToLower(l), l + "\x00"} {
			if _, ok := m.order[bad]; ok {
				continue
			}
			if c.Quick && (li+len(bad))%3 != 0 {
				continue
			}
			c.Case(fmt.Sprintf("unknown %q", bad), func() string {
				if dps.IsKnownLocale(bad) {
					return fmt.Sprintf("IsKnownLocale(%q)", bad)
				}
				_, e1 := dps.Parse(&dps.Configuration{Locales: []string{bad}}, "2014-06-17")
				_, e2 := dps.Parse(&dps.Configuration{Languages: []string{bad}}, "2014-06-17")
				_, e3 := (&dps.Parser{}).SearchWithLanguage(nil, bad, "2014-06-17")
				_, _, e4 := dps.Search(&dps.Configuration{Languages: []string{"en", bad}}, "2014-06-17")
				_, _, e5 := dps.Search(&dps.Configuration{Locales: []string{bad, "en"}}, "2014-06-17")
				c.Call(5)
				c.Outcome("unknown")
				if e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil {
					return fmt.Sprintf("%q is accepted: as locale %v, as language %v, in SearchWithLanguage %v, Search %v %v", bad, e1, e2, e3, e4, e5)
				}
				return ""
			})
		}
	}
	// the language a search detects is one of those allowed
	texts := []string{"it was on 18 June 2014 there", "c'était le 18 juin 2014", "es war am 18. Juni 2014", "это было 18 июня 2014", "2014年6月18日", "2014-06-18", "18 มิถุนายน 2014"}
	lists([]string{"fr", "en", "ru", "de", "th", "ja"}, 3, func(l []string) {
		if len(l) == 0 {
			return
		}
		for _, g := range orders {
			for _, mode := range []string{"languages", "locales", "detector"} {
				for ti, s := range texts {
					i++
					if c.Quick && (i+ti)%3 != 0 {
						continue
					}
					c.Case(fmt.Sprintf("search %q %v %s %q", l, g, mode, s), func() string {
						cfg := dps.Configuration{CurrentTime: c18Now, UseGivenOrder: g}
						p := &dps.Parser{}
						switch mode {
						case "languages":
							cfg.Languages = l
						case "locales":
							cfg.Locales = l
						default:
							p.DetectLanguagesFunction = func(string) []string { return append([]string(nil), l...) }
						}
						lg, rs, err := p.Search(&cfg, s)
						c.Call(1)
						c.Outcome(showSearch(lg, rs, err))
						if err != nil {
							if lg != "" || len(rs) > 0 {
								return "an error with results"
							}
							return ""
						}
						for _, x := range l {
							if x == lg {
								return ""
							}
						}
						return fmt.Sprintf("detected language %q, allowed are %q", lg, l)
					})
				}
			}
		}
	})
}
