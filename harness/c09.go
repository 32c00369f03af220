package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{
		ID: "C09",
		Statement: "Enumerates relative expressions (every unit and abbreviation, number words, counts, fractions, pairs and triples of units, joiners, directions, fixed words, times of day, zones) x base times at month, leap-year, year and DST boundaries x PreferredDateSource x PreserveEndOfMonth x ReturnTimeAsPeriod, " +
			"and every CLDR relative string of every supported locale; each is parsed by the real parser and compared with an exact calendar-arithmetic model.",
		QuickSecs: 70, DeepSecs: 800,
		Assume:     []string{"CLDR strings listed in tables/rel-unsupported.tsv (not parsed, or read differently by the locale data) are outside the domain", "time.Date and the Go time zone database are trusted"},
		Bounds:     map[string]string{"counts": "24 values in 0..1000", "units": "8, up to 3 per expression", "bases": "12", "fractions": "2 decimals", "cldr": "every supported row once"},
		BoundsDeep: map[string]string{"counts": "0..400 and larger", "units": "8, up to 3 per expression", "bases": "40", "fractions": "3 decimals", "cldr": "every supported row on 6 bases and 3 preferences"},
		Run:        runC09,
	})
}

var c09Units = []string{"decade", "year", "month", "week", "day", "hour", "minute", "second"}

// term is a count in thousandths of a unit.
type term struct {
	milli int64
	unit  string
}

type relModel struct {
	y, mo, d int64
	h, mi, s int64
	has      [6]bool // y mo d h mi s stated
	smallest date.Period
}

// relAmount computes what a list of terms means. Fractions of a unit are
// carried exactly into the lower units (1 year = 12 months, 1 month = 30 days)
// down to whole seconds.
func relAmount(terms []term) relModel {
	var r relModel
	amt := map[string]*big.Rat{}
	for _, t := range terms {
		v, u := big.NewRat(t.milli, 1000), t.unit
		switch u {
		case "decade":
			v.Mul(v, big.NewRat(10, 1))
			u = "year"
		case "week":
			v.Mul(v, big.NewRat(7, 1))
			u = "day"
		}
		if amt[u] == nil {
			amt[u] = new(big.Rat)
		}
		amt[u].Add(amt[u], v)
	}
	names := []string{"year", "month", "day", "hour", "minute", "second"}
	mul := []int64{12, 30, 24, 60, 60}
	tot := [6]int64{}
	for i, u := range names {
		v := amt[u]
		if v == nil {
			continue
		}
		r.has[i] = true
		if i == 5 {
			// seconds are rounded to a whole number
			v = new(big.Rat).Add(v, big.NewRat(1, 2))
			tot[5] += new(big.Int).Quo(v.Num(), v.Denom()).Int64()
			continue
		}
		cur := new(big.Rat).Set(v)
		for j := i; j < 6; j++ {
			q := new(big.Int).Quo(cur.Num(), cur.Denom())
			if q.Sign() != 0 {
				tot[j] += q.Int64()
				r.has[j] = true
			}
			cur.Sub(cur, new(big.Rat).SetInt(q))
			if cur.Sign() == 0 {
				break
			}
			if j < 5 {
				cur.Mul(cur, big.NewRat(mul[j], 1))
			}
		}
	}
	r.y, r.mo, r.d, r.h, r.mi, r.s = tot[0], tot[1], tot[2], tot[3], tot[4], tot[5]
	for i, p := range []date.Period{date.Year, date.Month, date.Day, date.Hour, date.Minute, date.Second} {
		if r.has[i] {
			r.smallest = p
		}
	}
	return r
}

func (r relModel) apply(now time.Time, sign int, eom bool) time.Time {
	y, m, d := now.Date()
	k := int64(sign)
	ty, tm := y+int(k*r.y), int(m)+int(k*r.mo)
	if eom {
		first := time.Date(ty, time.Month(tm), 1, 0, 0, 0, 0, time.UTC)
		if l := dim(first.Year(), int(first.Month())); d > l {
			d = l
		}
	}
	t := time.Date(ty, time.Month(tm), d, now.Hour(), now.Minute(), now.Second(), now.Nanosecond(), now.Location())
	if eom && r.d != 0 || !eom {
		// days are calendar days in the same zone
		if eom {
			t = time.Date(t.Year(), t.Month(), t.Day()+int(k*r.d), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), t.Location())
		} else {
			t = time.Date(ty, time.Month(tm), d+int(k*r.d), now.Hour(), now.Minute(), now.Second(), now.Nanosecond(), now.Location())
		}
	}
	return t.Add(time.Duration(k*r.h) * time.Hour).Add(time.Duration(k*r.mi) * time.Minute).Add(time.Duration(k*r.s) * time.Second)
}

func milliStr(v int64, sep string) string {
	if v%1000 == 0 {
		return fmt.Sprint(v / 1000)
	}
	f := strings.TrimRight(fmt.Sprintf("%03d", v%1000), "0")
	return fmt.Sprintf("%d%s%s", v/1000, sep, f)
}

type relDir struct {
	pat  string
	sign int // -1, +1, 0 = by preference
}

func runC09(c *Ctx) {
	cross(c, crossInputs("C09"))
	p := &dps.Parser{}
	ny, _ := time.LoadLocation("America/New_York")
	lh, _ := time.LoadLocation("Australia/Lord_Howe")
	fx := time.FixedZone("X", 5*3600+1800)
	bases := []time.Time{utc(2015, 7, 31, 12, 0, 0), time.Date(2016, 2, 29, 23, 59, 59, 999999999, time.UTC), utc(2015, 1, 31, 0, 0, 0), utc(2015, 3, 30, 6, 7, 8),
		time.Date(2015, 3, 8, 1, 30, 0, 0, ny), time.Date(2015, 11, 1, 3, 15, 0, 0, ny), time.Date(2014, 12, 31, 22, 0, 1, 5, fx), utc(2000, 2, 29, 0, 0, 0),
		time.Date(2015, 4, 5, 12, 0, 0, 0, lh), utc(1970, 1, 1, 0, 0, 0), utc(1901, 1, 1, 10, 20, 30), utc(2015, 5, 31, 23, 0, 0)}
	if !c.Quick {
		for _, m := range []int{1, 2, 3, 4, 6, 8, 10, 12} {
			for _, y := range []int{2011, 2012, 2100} {
				bases = append(bases, utc(y, time.Month(m), dim(y, m), 1+m, y%60, m))
			}
		}
		bases = append(bases, time.Date(2015, 3, 7, 2, 30, 0, 0, ny), time.Date(2015, 10, 4, 5, 0, 0, 0, lh), utc(2015, 2, 28, 0, 0, 0), utc(2016, 1, 30, 0, 0, 0))
	}
	eastern := time.FixedZone("EST", -5*3600)
	_ = eastern

	type tod struct {
		s           string
		h, m, S, ns int
		per         date.Period
	}
	tods := []tod{{}, {"10:20", 10, 20, 0, 0, date.Minute}, {"00:00", 0, 0, 0, 0, date.Minute}, {"3 pm", 15, 0, 0, 0, date.Hour}, {"23:59:59", 23, 59, 59, 0, date.Second},
		{"12:00 am", 0, 0, 0, 0, date.Minute}, {"6:07:08.5 pm", 18, 7, 8, 500000000, date.Second}}
	type zn struct {
		s    string
		name string
		off  int
	}
	zones := []zn{{}, {"UTC+5", "UTC+5", 18000}, {"EST", "EST", -18000}, {"+0530", "", 19800}, {"Z", "", 0}, {"GMT-11", "", -39600}}
	n := 0
	exec := func(s string, now time.Time, amt relModel, sign int, td tod, z zn, dtz *time.Location, src dps.PreferredDateSource, eom, rt bool) {
		n++
		str := s
		if td.s != "" {
			if n%3 == 0 && !strings.Contains(s, "noon") {
				str = td.s + " " + str
			} else {
				str += " " + td.s
			}
		}
		if z.s != "" {
			str += " " + z.s
		}
		dz := "-"
		if dtz != nil {
			dz = dtz.String()
		}
		key := fmt.Sprintf("%s dtz=%s src=%d eom=%v rt=%v %q", now.Format(time.RFC3339Nano), dz, src, eom, rt, str)
		c.Case(key, func() string {
			cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now, DefaultTimezone: dtz, PreferredDateSource: src, PreserveEndOfMonth: eom, ReturnTimeAsPeriod: rt}
			dt, err := p.Parse(cfg, str)
			c.Call(1)
			c.Outcome(show(dt, err))
			base := now
			if z.s != "" {
				base = now.In(time.FixedZone("", z.off))
			} else if dtz != nil {
				base = now.In(dtz)
			}
			k := sign
			if k == 0 {
				k = -1
				if src == dps.Future {
					k = 1
				}
			}
			want := amt.apply(base, k, eom)
			per := amt.smallest
			if td.s != "" {
				want = time.Date(want.Year(), want.Month(), want.Day(), td.h, td.m, td.S, td.ns, want.Location())
				per = min(per, td.per)
			}
			if !rt && per < date.Day {
				per = date.Day
			}
			return diffDate(dt, err, want, per)
		})
	}
	cyc := func(i, k int) bool { return (i/k)%2 == 1 }

	// A. single terms
	counts := []int64{0, 1, 2, 3, 4, 5, 11, 12, 13, 23, 24, 25, 28, 29, 30, 31, 48, 52, 59, 60, 61, 100, 365, 366, 1000}
	if !c.Quick {
		counts = nil
		for i := int64(0); i <= 400; i++ {
			counts = append(counts, i)
		}
		counts = append(counts, 999, 1000, 1001, 5000, 9999, 10000, 99999, 100000)
	}
	dirs := []relDir{{"{} ago", -1}, {"in {}", 1}, {"{}", 0}, {"{} before", -1}, {"{} after", 1}, {"after {}", 1}, {"in {} ago", -1}, {"about {} ago", -1}, {"in about {}", 1}, {"  {}   AGO ", -1}, {"In {}", 1}}
	singular := func(u string, v int64) string {
		if v == 1000 {
			return u
		}
		return u + "s"
	}
	i := 0
	for _, u := range c09Units {
		for _, ct := range counts {
			if u == "decade" && ct > 1000 || ct >= 10000 && (u == "year" || u == "month" || u == "week") {
				continue
			}
			amt := relAmount([]term{{ct * 1000, u}})
			for di, dr := range dirs {
				for bi, base := range bases {
					if di >= 3 && (bi+di+int(ct))%4 != 0 {
						continue
					}
					if !c.Quick && (bi+di+int(ct))%3 != 0 {
						continue
					}
					srcs := []dps.PreferredDateSource{dps.PreferredDateSource(i % 3)}
					if dr.sign == 0 {
						srcs = []dps.PreferredDateSource{dps.CurrentPeriod, dps.Past, dps.Future}
					}
					for _, src := range srcs {
						i++
						name := singular(u, ct*1000)
						if i%11 == 0 {
							name = u
						}
						exec(strings.Replace(dr.pat, "{}", fmt.Sprintf("%d %s", ct, name), 1), base, amt, dr.sign, tod{}, zn{}, nil, src, cyc(i, 1), cyc(i, 2))
					}
				}
			}
		}
	}
	// B. abbreviations, articles, number words, "later"
	abbr := map[string]string{"yr": "year", "mo": "month", "wk": "week", "hr": "hour", "hrs": "hour", "mins": "minute", "min": "minute", "secs": "second", "sec": "second",
		"d": "day", "h": "hour", "m": "minute", "s": "second", "y": "year"}
	for _, a := range sortedKeys(abbr) {
		u := abbr[a]
		for _, ct := range []int64{1, 2, 7, 13, 45} {
			for _, f := range []string{"%d %s ago", "%d%s ago", "in %d %s", "%d %s"} {
				s := fmt.Sprintf(f, ct, a)
				sign := -1
				if strings.HasPrefix(f, "in") {
					sign = 1
				} else if !strings.HasSuffix(f, "ago") {
					sign = 0
				}
				if f == "%d%s ago" && len(a) > 1 {
					continue
				}
				for bi, base := range bases[:8] {
					exec(s, base, relAmount([]term{{ct * 1000, u}}), sign, tod{}, zn{}, nil, dps.PreferredDateSource((bi+int(ct))%3), bi%2 == 0, bi%3 == 0)
				}
			}
		}
	}
	words := []string{"", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"}
	for _, u := range c09Units {
		one := "a " + u
		if u == "hour" {
			one = "an hour"
		}
		for bi, base := range bases {
			exec(one+" ago", base, relAmount([]term{{1000, u}}), -1, tod{}, zn{}, nil, dps.Future, bi%2 == 0, true)
			exec("in "+one, base, relAmount([]term{{1000, u}}), 1, tod{}, zn{}, nil, dps.Past, bi%2 == 0, true)
			exec("in the "+fmt.Sprint(5+bi)+" "+u+"s", base, relAmount([]term{{int64(5+bi) * 1000, u}}), 1, tod{}, zn{}, nil, dps.Past, bi%2 == 0, true)
			for w := 1; w < len(words); w++ {
				if (w+bi)%3 != 0 && c.Quick {
					continue
				}
				un := singular(u, int64(w)*1000)
				exec(words[w]+" "+un+" ago", base, relAmount([]term{{int64(w) * 1000, u}}), -1, tod{}, zn{}, nil, dps.Future, bi%2 == 0, true)
				exec("in "+strings.ToUpper(words[w])+" "+un, base, relAmount([]term{{int64(w) * 1000, u}}), 1, tod{}, zn{}, nil, dps.Past, bi%2 == 0, false)
			}
			for _, ct := range []int64{1, 4, 31} {
				exec(fmt.Sprintf("%d %s later", ct, singular(u, ct*1000)), base, relAmount([]term{{ct * 1000, u}}), 1, tod{}, zn{}, nil, dps.Past, bi%2 == 1, true)
			}
		}
	}
	// C. pairs and triples
	joins := []string{" ", ", ", " and ", ", and "}
	pc := []int64{1, 13, 30}
	for a := range c09Units {
		for b := range c09Units {
			if a == b {
				continue
			}
			for _, ca := range pc {
				for _, cb := range pc {
					for ji, jn := range joins {
						for di, dr := range dirs[:3] {
							i++
							if c.Quick && (ji+di+int(ca)+int(cb))%3 != 0 {
								continue
							}
							ts := []term{{ca * 1000, c09Units[a]}, {cb * 1000, c09Units[b]}}
							body := fmt.Sprintf("%d %s%s%d %s", ca, singular(c09Units[a], ca*1000), jn, cb, singular(c09Units[b], cb*1000))
							exec(strings.Replace(dr.pat, "{}", body, 1), bases[i%len(bases)], relAmount(ts), dr.sign, tods[btoi(i%5 == 0)*(i/5%len(tods))], zn{}, nil, dps.PreferredDateSource(i%3), cyc(i, 1), cyc(i, 2))
						}
					}
				}
			}
			for b2 := b + 1; b2 < len(c09Units); b2++ {
				if a > b {
					continue
				}
				for k := 0; k < 8; k++ {
					cs := []int64{[]int64{1, 11}[k&1], []int64{2, 31}[k>>1&1], []int64{1, 60}[k>>2&1]}
					ts := []term{{cs[0] * 1000, c09Units[a]}, {cs[1] * 1000, c09Units[b]}, {cs[2] * 1000, c09Units[b2]}}
					var bits []string
					for _, t := range ts {
						bits = append(bits, fmt.Sprintf("%d %s", t.milli/1000, singular(t.unit, t.milli)))
					}
					i++
					dr := dirs[i%3]
					body := strings.Join(bits, joins[i%2])
					exec(strings.Replace(dr.pat, "{}", body, 1), bases[i%len(bases)], relAmount(ts), dr.sign, tod{}, zn{}, nil, dps.PreferredDateSource(i/3%3), cyc(i, 1), cyc(i, 2))
				}
			}
		}
	}
	// D. fractions
	var fracs []int64
	for v := int64(0); v < 1000; v += 50 {
		if v != 0 {
			fracs = append(fracs, v)
		}
	}
	fracs = append(fracs, 330, 670, 10, 990)
	if !c.Quick {
		fracs = nil
		for v := int64(1); v < 1000; v++ {
			fracs = append(fracs, v)
		}
	}
	for _, u := range c09Units {
		for fi, f := range fracs {
			for _, whole := range []int64{0, 1, 2, 10, 36} {
				if !c.Quick && (fi+int(whole))%2 == 1 {
					continue
				}
				i++
				dr := dirs[i%3]
				sep := []string{".", ","}[i%2*btoi(dr.sign != 0)] // a bare comma is a list separator
				v := whole*1000 + f
				exec(strings.Replace(dr.pat, "{}", milliStr(v, sep)+" "+u+"s", 1), bases[i%len(bases)], relAmount([]term{{v, u}}), dr.sign, tod{}, zn{}, nil, dps.PreferredDateSource(i/3%3), cyc(i, 1), cyc(i, 2))
			}
		}
	}
	// E. fixed words, with time of day, zone, default zone
	fixed := []struct {
		s    string
		sign int
		t    term
	}{{"now", -1, term{0, "second"}}, {"just now", -1, term{0, "second"}}, {"today", -1, term{0, "day"}}, {"yesterday", -1, term{1000, "day"}}, {"tomorrow", 1, term{1000, "day"}}, {"Yesterday", -1, term{1000, "day"}},
		{"day before yesterday", -1, term{2000, "day"}}, {"day after tomorrow", 1, term{2000, "day"}}, {"the day before yesterday", -1, term{2000, "day"}}, {"TOMORROW", 1, term{1000, "day"}},
		{"last week", -1, term{1000, "week"}}, {"next week", 1, term{1000, "week"}}, {"this week", -1, term{0, "week"}}, {"last month", -1, term{1000, "month"}}, {"next month", 1, term{1000, "month"}}, {"this month", -1, term{0, "month"}},
		{"last year", -1, term{1000, "year"}}, {"next year", 1, term{1000, "year"}}, {"this year", -1, term{0, "year"}}, {"last decade", -1, term{1000, "decade"}}, {"next decade", 1, term{1000, "decade"}},
		{"this hour", -1, term{0, "hour"}}, {"this minute", -1, term{0, "minute"}}, {"last yr", -1, term{1000, "year"}}, {"next wk", 1, term{1000, "week"}}, {"last mo", -1, term{1000, "month"}},
		{"2 days ago", -1, term{2000, "day"}}, {"in 3 weeks", 1, term{3000, "week"}}, {"3 hours ago", -1, term{3000, "hour"}}, {"in 27 hours", 1, term{27000, "hour"}}, {"1 month ago", -1, term{1000, "month"}}, {"in 4 years", 1, term{4000, "year"}},
		{"5 days", 0, term{5000, "day"}}, {"90 minutes ago", -1, term{90000, "minute"}}}
	dtzs := []*time.Location{nil, ny, time.FixedZone("D", 9*3600), lh}
	for _, f := range fixed {
		for bi, base := range bases {
			for ti, td := range tods {
				for zi, z := range zones {
					if c.Quick && (ti > 0 && zi > 0 && (ti+zi+bi)%3 != 0 || ti > 0 && bi%2 == 1) {
						continue
					}
					i++
					exec(f.s, base, relAmount([]term{f.t}), f.sign, td, z, dtzs[i%4], dps.PreferredDateSource(i%3), cyc(i, 1), cyc(i, 2))
				}
			}
		}
	}
	// F. every CLDR relative string of every locale
	unsup := map[string]bool{}
	if bt, err := os.ReadFile(tablePath(c, "rel-unsupported.tsv")); err == nil {
		for _, l := range strings.Split(string(bt), "\n") {
			unsup[l] = true
		}
	}
	cb := []time.Time{time.Date(2014, 6, 18, 10, 20, 30, 0, time.UTC)}
	csrc := []dps.PreferredDateSource{dps.Future}
	if !c.Quick {
		cb = []time.Time{cb[0], utc(2016, 2, 29, 23, 0, 0), utc(2015, 1, 31, 0, 0, 1)}
		csrc = append(csrc, dps.Past, dps.CurrentPeriod)
	}
	for _, r := range loadJSONL[relRow](tablePath(c, "rel.jsonl")) {
		for _, e := range r.E {
			s, n, u := e[0].(string), int(e[1].(float64)), e[2].(string)
			if unsup[r.L+"\t"+s] {
				continue
			}
			for bi, now := range cb {
				src := csrc[bi]
				c.Case(fmt.Sprintf("%s %s src=%d %q", r.L, now.Format(time.RFC3339), src, s), func() string {
					dt, err := p.Parse(&dps.Configuration{Locales: []string{r.L}, CurrentTime: now, ReturnTimeAsPeriod: true, PreferredDateSource: src}, s)
					c.Call(1)
					c.Outcome(r.L + show(dt, err))
					sign := 1
					if n < 0 {
						sign = -1
					}
					amt := relAmount([]term{{int64(n*sign) * 1000, u}})
					if w := diffDate(dt, err, amt.apply(now, sign, false), amt.smallest); w != "" {
						return w
					}
					if dt.Locale != r.L {
						return "locale " + dt.Locale + " instead of " + r.L
					}
					return ""
				})
			}
		}
	}
	// Known limitation: clock units whose amount does not fit the 292 years of time.Duration.
	c.Case("overflow: in 3000000 hours", func() string {
		now := bases[0]
		dt, err := p.Parse(&dps.Configuration{Languages: []string{"en"}, CurrentTime: now}, "in 3000000 hours")
		c.Call(1)
		return diffDate(dt, err, now.AddDate(0, 0, 125000), date.Day)
	})
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}
