package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
	"unicode"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C08", Run: runC08, QuickSecs: 120, DeepSecs: 800,
		Statement:  "CLDR month and weekday names of every supported locale mean what CLDR says, however the locale is configured",
		Assume:     []string{"the CLDR tables are those of ICU in node (tables/gen/gen.js)", "rows of tables/names-unsupported.tsv (forms the library's own tables do not have, or that name two things at once) are outside the domain"},
		Bounds:     map[string]string{"rows": "every (locale, month form) in day-month-year with the locale named three ways; every weekday form alone and next to a date (right and wrong weekday); every CLDR-formatted full, long, medium and short date of 3 days in 12 months; regional locales also on every name they inherit"},
		BoundsDeep: map[string]string{"rows": "as quick, with four more day/month/year layouts per month form and every weekday form against every weekday"},
	})
}

type nameCase struct {
	l, kind, style, form string // kind: m(onth) w(eekday) d(ate) x (weekday next to a date)
	m, day, w            int
	inherited            bool
	mname                string
}

// base returns the string to parse and what it has to mean: a date, or a weekday.
func (n nameCase) base() (string, time.Time, int) {
	switch n.kind {
	case "m":
		return "17 " + n.form + " 2014", utc(2014, time.Month(n.m), 17, 0, 0, 0), -1
	case "w":
		return n.form, time.Time{}, n.w
	case "x":
		return n.form + ", 17 " + n.mname + " 2014", utc(2014, time.Month(n.m), 17, 0, 0, 0), -1
	}
	return n.form, utc(2014, time.Month(n.m), n.day, 0, 0, 0), -1
}

func (n nameCase) badName(dt date.Date, want time.Time, wd int, now time.Time) string {
	if wd >= 0 {
		if int(dt.Time.Weekday()) != wd || dt.Time.After(now) || now.Sub(dt.Time) > 8*24*time.Hour {
			return fmt.Sprintf("want the last %s before %s, got %s", time.Weekday(wd), now.Format("2006-01-02"), dt.Time.Format("2006-01-02 Mon"))
		}
		if dt.Period != date.Day {
			return "want period Day, got " + dt.Period.String()
		}
		return ""
	}
	return diffDate(dt, nil, want, date.Day)
}

func nameCases(path string) []nameCase {
	rows := loadJSONL[nameRow](path)
	byL := map[string]nameRow{}
	for _, r := range rows {
		byL[r.L] = r
	}
	regional := func(l string) string { // the language of a regional locale
		i := strings.LastIndex(l, "-")
		if i < 0 {
			return ""
		}
		if suf := l[i+1:]; len(suf) == 4 {
			return ""
		}
		return l[:i]
	}
	var out []nameCase
	add := func(l string, r nameRow, inherited bool, months, weekdays func(int) bool) {
		mname, mnum := "", 0
		src := r
		if _, own := byL[l]; own && len(byL[l].M) > 0 && regional(l) == "" {
			src = byL[l]
		}
		for m, ns := range src.M {
			if len(ns) > 0 && mname == "" {
				mname, mnum = ns[0], m+1
			}
		}
		for m, ns := range r.M {
			for _, n := range ns {
				if _, err := strconv.Atoi(n); err == nil || strings.IndexFunc(n, func(r rune) bool { return r > 127 && unicode.IsDigit(r) }) >= 0 {
					continue // a number, not a name
				}
				if months(m) {
					out = append(out, nameCase{l: l, kind: "m", form: n, m: m + 1, inherited: inherited})
				}
			}
		}
		for w, ns := range r.W {
			for _, n := range ns {
				if weekdays(w) {
					out = append(out, nameCase{l: l, kind: "w", form: n, w: w, inherited: inherited})
					if mname != "" && !inherited {
						out = append(out, nameCase{l: l, kind: "x", form: n, w: w, m: mnum, mname: mname})
					}
				}
			}
		}
		if !inherited {
			for _, d := range r.D {
				out = append(out, nameCase{l: l, kind: "d", style: d[2].(string), form: d[3].(string), m: int(d[0].(float64)), day: int(d[1].(float64))})
			}
		}
	}
	all := func(int) bool { return true }
	bt, err := os.ReadFile(filepath.Join(filepath.Dir(path), "locales.txt"))
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Fields(string(bt)) {
		r, has := byL[l]
		if has {
			add(l, r, false, all, all)
		}
		if par, ok := byL[regional(l)]; ok && regional(l) != "" {
			add(l, par, true, func(m int) bool { return !has || len(r.M) == 0 || len(r.M[m]) == 0 }, func(w int) bool { return !has || len(r.W) == 0 || len(r.W[w]) == 0 })
		}
	}
	return out
}

func runC08(c *Ctx) {
	cross(c, crossInputs("C08"))
	unsup := map[string]bool{}
	if bt, err := os.ReadFile(tablePath(c, "names-unsupported.tsv")); err == nil {
		for _, l := range strings.Split(string(bt), "\n") {
			unsup[l] = true
		}
	}
	known := loadKnown(c.Verif+"/known-findings.txt", "C08")
	p := &dps.Parser{}
	nows := []time.Time{utc(2014, 6, 18, 10, 20, 30), utc(2014, 6, 20, 0, 0, 0)}
	for ni, nc := range nameCases(tablePath(c, "names.jsonl")) {
		if unsup[nc.l+"\t"+nc.kind+"\t"+nc.form] {
			continue
		}
		str, want, wd := nc.base()
		exec := func(variant string, cfg dps.Configuration, str string, want time.Time, wd int) {
			key := fmt.Sprintf("%s%s %s %s %q", nc.kind, nc.style, nc.l, variant, str)
			c.Case(key, func() string {
				if cfg.CurrentTime.IsZero() {
					cfg.CurrentTime = nows[0]
				}
				dt, err := p.Parse(&cfg, str)
				c.Call(1)
				c.Outcome(show(dt, err))
				if err != nil {
					return fmt.Sprintf("not parsed: %v", err)
				}
				if dt.Locale != nc.l {
					return fmt.Sprintf("reports locale %q, want %q", dt.Locale, nc.l)
				}
				return nc.badName(dt, want, wd, cfg.CurrentTime)
			})
		}
		exec("locales", dps.Configuration{Locales: []string{nc.l}}, str, want, wd)
		if known[fmt.Sprintf("%s%s %s locales %q", nc.kind, nc.style, nc.l, str)] != "" {
			continue
		}
		if c.Quick && nc.kind == "d" && nc.style == "short" {
			continue
		}
		lang, region := nc.l, ""
		if i := strings.LastIndex(nc.l, "-"); i >= 0 && len(nc.l)-i-1 != 4 {
			lang, region = nc.l[:i], nc.l[i+1:]
		}
		// through the language (and region): found among the language's locales
		if !c.Quick || nc.kind != "d" || ni%4 == 0 {
			exec("language", dps.Configuration{Languages: []string{lang}, Region: region}, str, want, wd)
		}
		switch nc.kind {
		case "m":
			lays := []string{"5 %s 1999", "28 %s 2031"}
			if !c.Quick {
				lays = append(lays, "1999 %s 5", "%s 5, 1999", "05 %s 1999", "31 %s 1987")
			}
			for _, lay := range lays {
				var d, y int
				s := fmt.Sprintf(lay, nc.form)
				fmt.Sscanf(strings.NewReplacer("%s", "", ",", "").Replace(lay), "%d %d", &d, &y)
				if d > 31 {
					d, y = y, d
				}
				if d > dim(y, nc.m) {
					continue
				}
				if lay != "5 %s 1999" && lay != "28 %s 2031" && lay != "05 %s 1999" && lay != "31 %s 1987" && unsup[nc.l+"\t"+nc.kind+lay+"\t"+nc.form] {
					continue
				}
				exec("locales", dps.Configuration{Locales: []string{nc.l}}, s, utc(y, time.Month(nc.m), d, 0, 0, 0), -1)
			}
		case "w":
			exec("friday", dps.Configuration{Locales: []string{nc.l}, CurrentTime: nows[1]}, str, want, wd)
		case "x":
			// the weekday of another day never moves an explicit date
			days := []int{14}
			if !c.Quick {
				days = []int{11, 12, 13, 14, 15, 16, 18}
			}
			for _, d := range days {
				exec("any weekday", dps.Configuration{Locales: []string{nc.l}}, fmt.Sprintf("%s, %d %s 2014", nc.form, d, nc.mname), utc(2014, time.Month(nc.m), d, 0, 0, 0), -1)
			}
		}
	}
}
func (n nameCase) month() time.Month { return time.Month(n.m) }
