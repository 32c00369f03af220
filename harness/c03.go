package main

import (
	"fmt"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C03", Run: runC03, QuickSecs: 150, DeepSecs: 850,
		Statement:  "TryPreviousLocales: reference state machine of the used locales against the implementation, all call sequences",
		Assume:     []string{"what one locale alone makes of a string is taken from a fresh Parser (self-composition)", "a call without any Locales and Languages allows every used locale"},
		Bounds:     map[string]string{"sequences": "all sequences of up to 3 of 34 calls on two Parsers", "model": "state = ordered list of used locales of each Parser"},
		BoundsDeep: map[string]string{"sequences": "all sequences of up to 3 of 34 calls, and of 4 of 20", "long": "all sequences of 5 of 9 calls"},
	})
}

type prevOp struct {
	name  string
	p     int // which Parser
	cfg   dps.Configuration
	text  string
	types []dps.ParserType
	det   []string
	fmts  []string
	kind  string // "" Parse, "search", "pkg", "jalali"
}

func prevOps() []prevOp {
	now := utc(2015, 7, 31, 12, 0, 0)
	on := func(f func(*dps.Configuration)) dps.Configuration {
		c := dps.Configuration{CurrentTime: now, TryPreviousLocales: true}
		if f != nil {
			f(&c)
		}
		return c
	}
	langs := func(l ...string) dps.Configuration {
		return on(func(c *dps.Configuration) { c.Languages = l })
	}
	locs := func(l ...string) dps.Configuration {
		return on(func(c *dps.Configuration) { c.Locales = l })
	}
	off := dps.Configuration{CurrentTime: now}
	ops := []prevOp{
		// make used locales
		{text: "18 juin 2014", cfg: langs("fr")},
		{text: "18 Juni 2014", cfg: langs("de")},
		{text: "18 juni 2014", cfg: langs("sv")}, // YMD
		{text: "June 18, 2014", cfg: on(nil)},
		{text: "18 June 2014", cfg: locs("en-GB")},
		{text: "18 июня 2014", cfg: on(nil)},
		{text: "18 giugno 2014", cfg: on(func(c *dps.Configuration) { c.DefaultLanguages = []string{"it"}; c.Languages = []string{"en"} })},
		// ambiguous
		{text: "02/03/2014", cfg: on(nil)},
		{text: "10 mar 2014", cfg: on(nil)},
		{text: "02-03-04", cfg: on(nil)},
		{text: "03.02.2014 10:20", cfg: on(nil)},
		{text: "20140203", cfg: on(nil)},
		{text: "1403086830", cfg: on(nil)},
		{text: "2 mars", cfg: on(nil)},
		{text: "05/06/2014", cfg: on(func(c *dps.Configuration) { c.DateOrder = func(string) string { return "DMY" } })},
		// restricted
		{text: "02/03/2014", cfg: langs("en", "fr")},
		{text: "02/03/2014", cfg: langs("en")},
		{text: "02/03/2014", cfg: locs("en", "de")},
		{text: "02/03/2014", cfg: locs("en-GB")},
		{text: "02/03/2014", cfg: on(func(c *dps.Configuration) { c.Languages = []string{"de", "en"}; c.UseGivenOrder = true })},
		{text: "02/03/2014", cfg: on(func(c *dps.Configuration) { c.Languages = []string{"en", "fr"}; c.Region = "CA" })},
		{text: "02/03/2014", cfg: on(nil), det: []string{"fr", "en"}},
		{text: "10 mar 2014", cfg: on(func(c *dps.Configuration) { c.Languages = []string{"en"}; c.DefaultLanguages = []string{"sv", "fr"} })},
		{text: "31/12/2014", cfg: langs("en", "sv")},
		// nothing to record
		{text: "02/03/2014", cfg: off},
		{text: "18 juin 2014", cfg: off},
		{text: "no date", cfg: on(nil)},
		{text: "18 juin 2014", cfg: langs("de")},
		{text: "02/03/2014", cfg: langs("zz")},
		{text: "02/03/2014", cfg: on(func(c *dps.Configuration) { c.PreferredDayOfMonth = 9 })},
		{text: "18/06/2014", cfg: on(nil), fmts: []string{"%d/%m/%Y"}},
		{text: "vu le 18 juin 2014", cfg: off, kind: "search"},
		// another Parser
		{text: "18 Juni 2014", cfg: langs("de"), p: 1},
		{text: "02/03/2014", cfg: on(nil), p: 1},
	}
	for i := range ops {
		o := &ops[i]
		o.name = fmt.Sprintf("%d.%d%s%q", i, o.p, o.kind, o.text)
		for _, x := range [][]string{o.cfg.Languages, o.cfg.Locales, o.cfg.DefaultLanguages, o.det, o.fmts} {
			if x != nil {
				o.name += fmt.Sprint(x)
			}
		}
		if !o.cfg.TryPreviousLocales {
			o.name += "-"
		}
	}
	return ops
}

func runC03(c *Ctx) {
	ops := prevOps()
	alone := map[string]date.Date{}
	aloneErr := map[string]error{}
	fresh := func(o prevOp, cfg dps.Configuration, key string) (date.Date, error) {
		key = o.name + key
		if _, ok := alone[key]; !ok {
			p := &dps.Parser{ParserTypes: o.types}
			if o.det != nil {
				p.DetectLanguagesFunction = func(string) []string { return o.det }
			}
			cfg.TryPreviousLocales = false
			alone[key], aloneErr[key] = p.Parse(&cfg, o.text, o.fmts...)
		}
		return alone[key], aloneErr[key]
	}
	// step is the reference: it gives the expected outcome and the new list.
	step := func(o prevOp, used []string) (date.Date, error, []string) {
		base, berr := fresh(o, o.cfg, "")
		if !o.cfg.TryPreviousLocales || berr == nil && base.Locale == "" {
			return base, berr, used
		}
		langs := o.cfg.Languages
		if len(langs) == 0 && len(o.cfg.Locales) == 0 {
			langs = o.det
		}
		allowed := map[string]bool{}
		reg := func(ls []string) {
			for _, l := range ls {
				if o.cfg.Region != "" {
					l += "-" + o.cfg.Region
				}
				allowed[l] = true
			}
		}
		if len(o.cfg.Locales) > 0 {
			for _, l := range o.cfg.Locales {
				allowed[l] = true
			}
		} else {
			reg(langs)
		}
		reg(o.cfg.DefaultLanguages)
		restricted := len(o.cfg.Locales) > 0 || len(langs) > 0
		for _, l := range langs {
			if l == "zz" {
				return base, berr, used // an error
			}
		}
		for _, u := range used {
			if restricted && !allowed[u] {
				continue
			}
			cfg := o.cfg
			cfg.Locales, cfg.Languages, cfg.DefaultLanguages, cfg.Region = []string{u}, nil, nil, ""
			if d, err := fresh(o, cfg, "@"+u); err == nil {
				return d, nil, used
			}
		}
		if berr == nil {
			for _, u := range used {
				if u == base.Locale {
					return base, berr, used
				}
			}
			used = append(used[:len(used):len(used)], base.Locale)
		}
		return base, berr, used
	}
	seqs := func(ops []prevOp, n int, min int) {
		idx := make([]string, len(ops))
		for i := range ops {
			idx[i] = fmt.Sprint(i)
		}
		lists(idx, n, func(seq []string) {
			if len(seq) < min {
				return
			}
			os := make([]prevOp, len(seq))
			var names []string
			for k, s := range seq {
				var i int
				fmt.Sscan(s, &i)
				os[k] = ops[i]
				names = append(names, os[k].name)
			}
			c.Case(strings.Join(names, " ; "), func() string {
				ps := [2]*dps.Parser{{}, {}}
				var used [2][]string
				for k, o := range os {
					p := ps[o.p]
					p.DetectLanguagesFunction = nil
					if o.det != nil {
						p.DetectLanguagesFunction = func(string) []string { return o.det }
					}
					cfg := o.cfg
					c.Call(1)
					if o.kind == "search" {
						l, r, err := p.Search(&cfg, o.text)
						l2, r2, err2 := (&dps.Parser{}).Search(&cfg, o.text)
						if a, b := showSearch(l, r, err), showSearch(l2, r2, err2); a != b {
							return fmt.Sprintf("call %d: %s, on a fresh Parser %s", k+1, a, b)
						}
						continue
					}
					got, err := p.Parse(&cfg, o.text, o.fmts...)
					want, werr, u := step(o, used[o.p])
					used[o.p] = u
					c.State(strings.Join(used[0], ",") + "|" + strings.Join(used[1], ","))
					c.Outcome(show(got, err))
					if show(got, err) != show(want, werr) {
						return fmt.Sprintf("call %d: got %s, want %s (used locales now %q)", k+1, show(got, err), show(want, werr), u)
					}
				}
				return ""
			})
		})
	}
	if c.Quick {
		seqs(ops, 2, 1)
		var sub []prevOp
		for _, i := range []int{0, 1, 2, 4, 5, 6, 7, 8, 9, 13, 15, 16, 17, 19, 22, 23, 24, 25, 27, 31, 32, 33} {
			sub = append(sub, ops[i])
		}
		seqs(sub, 3, 3)
		return
	}
	seqs(ops, 3, 1)
	var sub, few []prevOp
	for _, i := range []int{0, 1, 2, 4, 5, 6, 7, 8, 9, 13, 15, 17, 18, 22, 23, 24, 25, 27, 32, 33} {
		sub = append(sub, ops[i])
	}
	for _, i := range []int{0, 1, 2, 4, 6, 7, 8, 16, 22} {
		few = append(few, ops[i])
	}
	seqs(few, 5, 5)
	seqs(sub, 4, 4)
	_ = time.Now
}
