package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C23", Run: runC23, QuickSecs: 120, DeepSecs: 800,
		Statement:  "configurations are validated by every entry point, and never modified",
		Assume:     []string{"nil and zero configurations read the clock: relative results are compared with a tolerance of a minute"},
		Bounds:     map[string]string{"validation": "each preference 0-255, all triples over {0,1,2,3,4,128,255}; required parts: all lists of up to two of 16 words; on each of 8 entry points with 4 texts", "nil": "40 texts (10 for searches) on each entry point: nil, zero, empty lists, spelled-out defaults", "not modified": "every subset of the five list fields x order, previous, detector x spare capacity 0, 3 (a quarter of the combinations; an eighth of those with neither locales nor languages) x entry point x 4 texts, full snapshots (with the spare capacity) before and after, mutation of every list afterwards", "clone": "every field of a filled configuration, by reflection, changed in the clone and in the original"},
		BoundsDeep: map[string]string{"required parts": "lists of up to three", "not modified": "all combinations, 12 texts, also spare capacity 1", "triples": "over 12 values", "nil": "40 texts on each"},
	})
}

// entry is one way to hand a configuration to the library.
type entry struct {
	name  string
	texts []string // texts it can read with the zero configuration
	run   func(p *dps.Parser, cfg *dps.Configuration, text string, formats []string) (string, bool, error)
}

func showSearch(lang string, rs []dps.SearchResult, err error) string {
	if err != nil {
		return "error"
	}
	var sb strings.Builder
	sb.WriteString(lang)
	for _, r := range rs {
		fmt.Fprintf(&sb, " %q=%s", r.Text, show(r.Date, nil))
	}
	return sb.String()
}

func entries() []entry {
	d := func(dt date.Date, err error) (string, bool, error) { return show(dt, err), dt.IsZero(), err }
	return []entry{
		{"Parse", []string{"18 June 2014 10:20"}, func(_ *dps.Parser, c *dps.Configuration, s string, f []string) (string, bool, error) {
			return d(dps.Parse(c, s, f...))
		}},
		{"Parser.Parse", []string{"18 June 2014 10:20"}, func(p *dps.Parser, c *dps.Configuration, s string, f []string) (string, bool, error) {
			return d(p.Parse(c, s, f...))
		}},
		{"Search", []string{"it was on 18 June 2014 there"}, func(_ *dps.Parser, c *dps.Configuration, s string, _ []string) (string, bool, error) {
			l, r, err := dps.Search(c, s)
			return showSearch(l, r, err), len(r) == 0 && l == "", err
		}},
		{"Parser.Search", []string{"it was on 18 June 2014 there"}, func(p *dps.Parser, c *dps.Configuration, s string, _ []string) (string, bool, error) {
			l, r, err := p.Search(c, s)
			return showSearch(l, r, err), len(r) == 0 && l == "", err
		}},
		{"SearchWithLanguage", []string{"it was on 18 June 2014 there"}, func(p *dps.Parser, c *dps.Configuration, s string, _ []string) (string, bool, error) {
			r, err := p.SearchWithLanguage(c, "en", s)
			return showSearch("en", r, err), len(r) == 0, err
		}},
		{"SearchWithLanguage hu", []string{"2014. június 18."}, func(p *dps.Parser, c *dps.Configuration, s string, _ []string) (string, bool, error) {
			r, err := p.SearchWithLanguage(c, "hu", s)
			return showSearch("hu", r, err), len(r) == 0, err
		}},
		{"ParseHijri", []string{"20/08/1435"}, func(_ *dps.Parser, c *dps.Configuration, s string, _ []string) (string, bool, error) {
			return d(dps.ParseHijri(c, s))
		}},
		{"ParseJalali", []string{"28 خرداد 1393"}, func(_ *dps.Parser, c *dps.Configuration, s string, _ []string) (string, bool, error) {
			return d(dps.ParseJalali(c, s))
		}},
	}
}

// snap is a deep copy of a configuration that also holds what lies between the
// length and the capacity of its lists.
type snap struct {
	cfg   dps.Configuration
	lists map[string][]string
	lens  map[string]int
	nils  map[string]bool
}

func takeSnap(c *dps.Configuration) snap {
	s := snap{cfg: *c, lists: map[string][]string{}, lens: map[string]int{}, nils: map[string]bool{}}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if l, ok := v.Field(i).Interface().([]string); ok {
			n := v.Type().Field(i).Name
			s.lists[n], s.lens[n], s.nils[n] = append([]string(nil), l[:cap(l)]...), len(l), l == nil
		}
	}
	return s
}

func (s snap) diff(c *dps.Configuration) string {
	v, w := reflect.ValueOf(c).Elem(), reflect.ValueOf(&s.cfg).Elem()
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		switch x := v.Field(i).Interface().(type) {
		case []string:
			if len(x) != s.lens[n] || (x == nil) != s.nils[n] {
				return fmt.Sprintf("%s changed to %q", n, x)
			}
			if !reflect.DeepEqual(append([]string(nil), x[:cap(x)]...), s.lists[n]) {
				return fmt.Sprintf("the elements of %s changed from %q to %q (up to the capacity)", n, s.lists[n], x[:cap(x)])
			}
		case dps.DateOrder:
			if (x == nil) != w.Field(i).IsNil() || v.Field(i).Pointer() != w.Field(i).Pointer() {
				return n + " changed"
			}
		default:
			if !reflect.DeepEqual(x, w.Field(i).Interface()) {
				return fmt.Sprintf("%s changed from %v to %v", n, w.Field(i).Interface(), x)
			}
		}
	}
	return ""
}

func spare(l []string, n int) []string {
	out := make([]string, len(l), len(l)+n)
	copy(out, l)
	for i := range out[:cap(out)][len(l):] {
		out[:cap(out)][len(l)+i] = fmt.Sprintf("spare%d", i)
	}
	return out
}

func runC23(c *Ctx) {
	es := entries()
	now := utc(2014, 6, 18, 10, 20, 30)
	// validation
	validCase := func(e entry, key string, cfg dps.Configuration, valid bool) {
		c.Case("validate "+e.name+" "+key, func() string {
			for _, t := range []string{e.texts[0], "", "no date in here", "1403086830"} {
				for _, f := range [][]string{nil, {"2 January 2006 15:04", "20060102"}} {
					cfg := cfg
					cfg.CurrentTime, cfg.Languages = now, []string{"en"}
					if strings.HasSuffix(e.name, "hu") {
						cfg.Languages = []string{"hu"}
					}
					res, zero, err := e.run(&dps.Parser{}, &cfg, t, f)
					c.Call(1)
					c.Outcome(fmt.Sprint(valid, err != nil))
					if !valid && (err == nil || !zero) {
						return fmt.Sprintf("invalid configuration accepted for %q: %s", t, res)
					}
					if valid && t == e.texts[0] && (err != nil || zero) {
						return fmt.Sprintf("valid configuration rejected for %q: %v", t, err)
					}
				}
				if valid {
					break
				}
			}
			if valid {
				return ""
			}
			cfg := cfg // without a CurrentTime, and without languages
			res, zero, err := e.run(&dps.Parser{}, &cfg, e.texts[0], nil)
			c.Call(1)
			if !valid && (err == nil || !zero) {
				return fmt.Sprintf("invalid configuration without CurrentTime accepted for %q: %s", e.texts[0], res)
			}
			return ""
		})
	}
	mk := func(d, m, s int) dps.Configuration {
		return dps.Configuration{PreferredDayOfMonth: dps.PreferredDayOfMonth(d), PreferredMonthOfYear: dps.PreferredMonthOfYear(m), PreferredDateSource: dps.PreferredDateSource(s)}
	}
	vals := []int{0, 1, 2, 3, 4, 128, 255}
	words := []string{"day", "month", "year", "Day", "MONTH", "yEaR", "", " day", "days", "hour", "week", "d", "time", "mois", "day,month", "ÿear"}
	ok := map[string]bool{"day": true, "month": true, "year": true}
	if !c.Quick {
		vals = append(vals, 5, 64, 127, 129, 254)
	}
	for _, e := range es {
		for i := 0; i < 256; i++ {
			validCase(e, fmt.Sprint("day ", i), mk(i, 0, 0), i <= 2)
			validCase(e, fmt.Sprint("month ", i), mk(0, i, 0), i <= 2)
			validCase(e, fmt.Sprint("source ", i), mk(0, 0, i), i <= 2)
		}
		for _, d := range vals {
			for _, m := range vals {
				for _, s := range vals {
					validCase(e, fmt.Sprint("triple ", d, m, s), mk(d, m, s), d <= 2 && m <= 2 && s <= 2)
				}
			}
		}
		var rec func(l []string)
		rec = func(l []string) {
			valid := true
			for _, w := range l {
				valid = valid && ok[strings.ToLower(w)]
			}
			validCase(e, fmt.Sprintf("parts %q", l), dps.Configuration{RequiredParts: l}, valid)
			if len(l) < 2 || !c.Quick && len(l) < 3 {
				for _, w := range words {
					rec(append(l[:len(l):len(l)], w))
				}
			}
		}
		rec(nil)
	}
	// letter case of the required parts
	for _, e := range es {
		for _, s := range []string{"June 2014", "18 June", "2014", "18 June 2014", "08/1435", "20/08/1435", "خرداد 1393", "28 خرداد 1393"} {
			for n := 1; n < 8; n++ {
				var low, up []string
				for i, w := range []string{"day", "month", "year"} {
					if n>>i&1 == 1 {
						low, up = append(low, w), append(up, strings.ToUpper(w))
					}
				}
				c.Case(fmt.Sprintf("part case %s %q %v", e.name, s, up), func() string {
					a, _, _ := e.run(&dps.Parser{}, &dps.Configuration{CurrentTime: now, Languages: []string{"en"}, RequiredParts: low}, s, nil)
					b, _, _ := e.run(&dps.Parser{}, &dps.Configuration{CurrentTime: now, Languages: []string{"en"}, RequiredParts: up}, s, nil)
					c.Call(2)
					c.Outcome(a)
					if a != b {
						return fmt.Sprintf("with %v: %s, with %v: %s", low, a, up, b)
					}
					return ""
				})
			}
		}
	}
	// nil, zero and spelled-out defaults
	texts := []string{"18 June 2014", "06/18/2014", "2014-06-18 10:20:30 +0200", "18 juin 2014 10:20", "1403086830", "-1403086830", "20140618", "nonsense", "", "2 days ago", "in 3 weeks", "now", "yesterday", "10:20", "June 2014", "June", "2014", "Wednesday", "18. März 2014", "18 июня 2014", "2014年6月18日", "tomorrow", "18 June 2014 and 20 June 2014", "20/08/1435", "08/1435", "2014. június 18.", "28 خرداد 1393", "1393/03/28", "28 خرداد", "1435-08-20 10:20", "il y a 2 jours", "hace 3 días", "18 Jun 14 5 PM EST", "18t06", "18 Jun 2014T10:20", "29 Feb", "31", "Feb 30 2014", "18/06/14", "x 18 June 2014 t"}
	zeroes := map[string]func() *dps.Configuration{
		"nil": func() *dps.Configuration { return nil },
		"empty": func() *dps.Configuration {
			return &dps.Configuration{Locales: []string{}, Languages: []string{}, DefaultLanguages: []string{}, RequiredParts: []string{}, SkipTokens: []string{}}
		},
		"spelled": func() *dps.Configuration {
			return &dps.Configuration{SkipTokens: []string{"t"}, CurrentTime: time.Now().UTC(), PreferredDateSource: dps.CurrentPeriod, PreferredDayOfMonth: dps.Current, PreferredMonthOfYear: dps.CurrentMonth}
		},
		"spelled 2": func() *dps.Configuration { return &dps.Configuration{SkipTokens: []string{"t"}} },
		"clone":     func() *dps.Configuration { return dps.Configuration{}.Clone() },
	}
	for _, e := range es {
		for ti, t := range texts {
			if c.Quick && ti%4 != 0 && strings.Contains(e.name, "Search") {
				continue
			}
			for _, z := range []string{"nil", "empty", "spelled", "spelled 2", "clone"} {
				if z == "spelled" && strings.Contains(e.name, "Search") {
					continue // a search takes the base of relative dates from the text if no time is given
				}
				c.Case(fmt.Sprintf("%s %s %q", z, e.name, t), func() string {
					var a, b string
					for try := 0; try < 5; try++ { // the clock may tick between the two calls
						t0 := time.Now()
						a, _, _ = e.run(&dps.Parser{}, &dps.Configuration{}, t, nil)
						b, _, _ = e.run(&dps.Parser{}, zeroes[z](), t, nil)
						t1 := time.Now()
						c.Call(2)
						if a == b || coarse(a, t1.Sub(t0)) == coarse(b, t1.Sub(t0)) {
							c.Outcome(coarse(a, time.Hour))
							return ""
						}
					}
					return fmt.Sprintf("zero configuration: %s, %s: %s", a, z, b)
				})
			}
		}
	}
	// nothing is modified
	lists := map[string][]string{
		"Locales":          {"fr-BE", "en-GB", "de"},
		"Languages":        {"vi", "fr", "en", "fr"},
		"DefaultLanguages": {"it", "de", "en"},
		"RequiredParts":    {"YEAR", "month", "Day"},
		"SkipTokens":       {"T", "t", "oder"},
	}
	fields := []string{"Locales", "Languages", "DefaultLanguages", "RequiredParts", "SkipTokens"}
	ctexts := []string{"18 June 2014 10:20", "it was 18 juin 2014 here, 2 days ago", "20/08/1435", "28 خرداد 1393"}
	if !c.Quick {
		ctexts = append(ctexts, "nonsense", "", "2014. június 18.", "2 days ago", "1403086830", "20140618", "18. März 2014 in Berlin", "2014-06-18T10:20:30+02:00")
	}
	for _, e := range es {
		for mask := 0; mask < 32; mask++ {
			for flags := 0; flags < 8; flags++ {
				for _, sp := range []int{0, 1, 3} {
					for ti, t := range ctexts {
						if c.Quick && (mask&3 == 0 && (mask+flags+ti)%8 >= 4 || sp == 1 || (mask+mask>>2+flags+flags>>1+ti+sp)%4 != 0) {
							continue
						}
						c.Case(fmt.Sprintf("modified %s %05b %03b %d %q", e.name, mask, flags, sp, t), func() string {
							build := func() (*dps.Configuration, *dps.Parser, []string) {
								cfg := &dps.Configuration{CurrentTime: now, UseGivenOrder: flags&1 != 0, TryPreviousLocales: flags&2 != 0, DateOrder: dps.DMY, DefaultTimezone: time.UTC}
								v := reflect.ValueOf(cfg).Elem()
								for i, f := range fields {
									if mask>>i&1 == 1 {
										v.FieldByName(f).Set(reflect.ValueOf(spare(lists[f], sp)))
									}
								}
								p := &dps.Parser{}
								var det []string
								if flags&4 != 0 {
									det = spare([]string{"vi", "it", "en", "de"}, sp)
									p.DetectLanguagesFunction = func(string) []string { return det }
								}
								return cfg, p, det
							}
							cfg, p, det := build()
							forms := spare([]string{"Jan 2006", "2 Jan"}, sp)
							text := string([]byte(t)) // a text of our own
							before := takeSnap(cfg)
							detBefore := append([]string(nil), det[:cap(det)]...)
							formsBefore := append([]string(nil), forms[:cap(forms)]...)
							r1, _, _ := e.run(p, cfg, text, forms)
							c.Call(1)
							c.Outcome(r1)
							if d := before.diff(cfg); d != "" {
								return d
							}
							if !reflect.DeepEqual(detBefore, append([]string(nil), det[:cap(det)]...)) {
								return fmt.Sprintf("the languages of the detector changed from %q to %q", detBefore, det[:cap(det)])
							}
							if !reflect.DeepEqual(formsBefore, append([]string(nil), forms[:cap(forms)]...)) {
								return fmt.Sprintf("the formats changed from %q to %q", formsBefore, forms[:cap(forms)])
							}
							if text != t {
								return fmt.Sprintf("the text changed to %q", text)
							}
							// the caller reuses the lists for something else; a fresh equal
							// configuration still gives the same on the same Parser
							for _, f := range fields {
								l := reflect.ValueOf(cfg).Elem().FieldByName(f).Interface().([]string)
								for i := range l[:cap(l)] {
									l[:cap(l)][i] = "garbage"
								}
							}
							for i := range det[:cap(det)] {
								det[:cap(det)][i] = "garbage"
							}
							for i := range forms[:cap(forms)] {
								forms[:cap(forms)][i] = "garbage"
							}
							cfg2, p2, _ := build()
							p.DetectLanguagesFunction = p2.DetectLanguagesFunction
							r2, _, _ := e.run(p, cfg2, t, []string{"Jan 2006", "2 Jan"})
							c.Call(1)
							if r1 != r2 && flags&2 == 0 {
								return fmt.Sprintf("first %s, after the lists of the first call were overwritten %s", r1, r2)
							}
							return ""
						})
					}
				}
			}
		}
	}
	// results do not share anything with the next call's
	for _, t := range []string{"it was on 18 June 2014 there, or on 20 July 2015", "18 June 2014"} {
		c.Case(fmt.Sprintf("results %q", t), func() string {
			p := &dps.Parser{}
			cfg := &dps.Configuration{CurrentTime: now, Languages: []string{"en"}}
			_, r, err := p.Search(cfg, t)
			keep := showSearch("en", r, err)
			kept := r[:len(r):len(r)]
			_, r2, _ := p.Search(cfg, "it was on 1 May 1999 there, or on 2 May 1999")
			if showSearch("en", kept, nil) != keep {
				return "the results changed after another search"
			}
			for i := range r {
				r[i].Date, r[i].Text = date.Date{}, "x"
			}
			_, r3, err := p.Search(cfg, t)
			c.Call(3)
			c.Outcome(keep)
			if len(r2) != 2 || showSearch("en", r3, err) != keep {
				return "the next search has changed results"
			}
			return ""
		})
	}
	// Clone copies every field and shares no list
	full := func() *dps.Configuration {
		cfg := &dps.Configuration{}
		v := reflect.ValueOf(cfg).Elem()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch f.Interface().(type) {
			case []string:
				f.Set(reflect.ValueOf(spare([]string{"a" + fmt.Sprint(i), "b"}, 2)))
			case dps.DateOrder:
				f.Set(reflect.ValueOf(dps.DateOrder(dps.YDM)))
			case time.Time:
				f.Set(reflect.ValueOf(now.Add(time.Duration(i) * time.Hour)))
			case *time.Location:
				f.Set(reflect.ValueOf(mustLoc("Asia/Tokyo")))
			case bool:
				f.SetBool(true)
			case string:
				f.SetString(fmt.Sprint("s", i))
			default:
				if f.CanUint() {
					f.SetUint(uint64(1 + i%2))
				}
			}
		}
		return cfg
	}
	nf := reflect.TypeOf(dps.Configuration{}).NumField()
	for i := 0; i < nf; i++ {
		name := reflect.TypeOf(dps.Configuration{}).Field(i).Name
		c.Case("clone "+name, func() string {
			c.Call(1)
			for _, side := range []string{"clone", "original"} {
				orig := full()
				cl := orig.Clone()
				if reflect.ValueOf(orig).Elem().Field(i).IsZero() {
					return "harness: field " + name + " was not filled"
				}
				a, b := reflect.ValueOf(cl).Elem().Field(i), reflect.ValueOf(orig).Elem().Field(i)
				switch x := a.Interface().(type) {
				case dps.DateOrder:
					if x == nil || x("") != "YDM" {
						return "the clone has another date order"
					}
				case []string:
					y := b.Interface().([]string)
					if !reflect.DeepEqual(x, y) {
						return fmt.Sprintf("%s is %q in the clone, %q in the original", name, x, y)
					}
					mod, other := x, y
					if side == "original" {
						mod, other = y, x
					}
					was := append([]string(nil), other...)
					for j := range mod[:cap(mod)] {
						mod[:cap(mod)][j] = "changed"
					}
					_ = append(other[:len(other):len(other)], "z")
					if !reflect.DeepEqual(was, other) {
						return fmt.Sprintf("changing %s of the %s changes the other", name, side)
					}
				default:
					if !reflect.DeepEqual(a.Interface(), b.Interface()) {
						return fmt.Sprintf("%s is %v in the clone, %v in the original", name, a.Interface(), b.Interface())
					}
				}
			}
			c.Outcome("clone " + name)
			return ""
		})
	}
}

// coarse drops the seconds (and more) of the instants in a printed result, so
// that two calls made one after the other can be compared.
func coarse(s string, d time.Duration) string {
	if d > 30*time.Second {
		return "slow"
	}
	out := []byte(s)
	for i := 0; i+19 <= len(out); i++ {
		if out[i+4] == '-' && out[i+10] == 'T' {
			for j := i + 17; j < len(out) && (out[j] >= '0' && out[j] <= '9' || out[j] == '.'); j++ {
				out[j] = '0'
			}
			return string(out[:i+17]) + "00" + strings.TrimLeft(string(out[i+17:]), "0.")
		}
	}
	return s
}
