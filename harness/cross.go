package main

import (
	"fmt"
	"math/bits"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// A crossInput is a text that states everything, so that none of the options
// for incomplete dates, nor those that choose among locales, may change its
// result.
type crossInput struct {
	s       string
	lang    string
	order   func(string) string
	cal     string // "jalali", "hijri", "search" or ""
	formats []string

	clock [7]int         // year to nanosecond: a wall clock reading in its zone
	zone  *time.Location // nil: none in the text
	utc   bool           // without a zone, UTC rather than that of CurrentTime
	rel   func(time.Time) time.Time
	stamp *time.Time // an instant, in any zone
	per   date.Period
	perT  date.Period // with ReturnTimeAsPeriod
}

func on(lang, s string, clock ...int) crossInput {
	in := crossInput{s: s, lang: lang, per: date.Day, perT: date.Day}
	copy(in.clock[:], clock)
	switch len(clock) {
	case 5:
		in.perT = date.Minute
	case 6, 7:
		in.perT = date.Second
	}
	return in
}

// in gives the input a zone.
func (in crossInput) in(off int) crossInput { in.zone = time.FixedZone("", off); return in }

func inCal(cal string, in crossInput) crossInput { in.cal = cal; return in }

func inOrder(order string, in crossInput) crossInput {
	in.order = func(string) string { return order }
	return in
}

func moved(lang, s string, per date.Period, f func(time.Time) time.Time) crossInput {
	return crossInput{s: s, lang: lang, rel: f, per: date.Day, perT: per}
}

// cross checks the inputs under the product of the options that must not
// matter: the quick one has all combinations of the date preferences, strict
// parsing and the base time along with the other options in turn.
func cross(c *Ctx, inputs []crossInput) {
	bases := []time.Time{utc(2016, 2, 29, 12, 34, 56), time.Date(2015, 1, 31, 22, 30, 0, 999, mustLoc("America/New_York")), utc(1900, 1, 1, 0, 0, 0), time.Date(9998, 12, 31, 23, 59, 59, 0, time.FixedZone("", 14*3600))}
	zones := []*time.Location{nil, time.FixedZone("", 9*3600), mustLoc("Asia/Kolkata")}
	for ii, in := range inputs {
		n := 3 * 3 * 3 * 3 * 4
		if !c.Quick {
			n *= 3 * 2 * 8
		}
		for k := 0; k < n; k++ {
			i := k
			take := func(m int) int { r := i % m; i /= m; return r }
			cfg := &dps.Configuration{Languages: []string{in.lang}, DateOrder: in.order}
			cfg.PreferredDateSource = dps.PreferredDateSource(take(3))
			cfg.PreferredMonthOfYear = dps.PreferredMonthOfYear(take(3))
			cfg.PreferredDayOfMonth = dps.PreferredDayOfMonth(take(3))
			switch take(3) {
			case 1:
				cfg.StrictParsing = true
			case 2:
				cfg.RequiredParts = []string{"day", "Month", "YEAR"}
			}
			cfg.CurrentTime = bases[take(4)]
			rest := uint(k)*7 + uint(ii)*13 // the others in turn
			if c.Quick {
				cfg.DefaultTimezone = zones[(k/324+k/81+k/27+k/9+k/3+k+ii)%3]
				rest += uint(k) >> 3
				cfg.ReturnTimeAsPeriod = bits.OnesCount(rest)%2 == 1
			} else {
				cfg.DefaultTimezone = zones[take(3)]
				cfg.ReturnTimeAsPeriod = take(2) == 1
				rest = uint(take(8))*37 + uint(k)*5
			}
			cfg.PreserveEndOfMonth = rest&1 != 0
			cfg.TryPreviousLocales = rest&2 != 0
			cfg.UseGivenOrder = rest&4 != 0
			if rest&8 != 0 && in.cal == "" {
				cfg.DefaultLanguages = []string{"qu"}
			}
			if rest&16 != 0 {
				cfg.SkipTokens = []string{"t", "qqq"}
			}
			var formats []string
			if rest&32 != 0 && in.cal == "" {
				formats = []string{"Jan _2 zz 2006", "15h04"}
			}
			c.Case(fmt.Sprintf("cross %s %d %q", in.cal, k, in.s), func() string {
				var dt date.Date
				var err error
				c.Call(1)
				p := &dps.Parser{}
				if cfg.TryPreviousLocales && rest&64 != 0 && in.cal == "" {
					p.Parse(cfg, in.s, in.formats...)
				}
				switch in.cal {
				case "jalali":
					dt, err = dps.ParseJalali(cfg, in.s)
				case "hijri":
					dt, err = dps.ParseHijri(cfg, in.s)
				case "search":
					rs, e := p.SearchWithLanguage(cfg, in.lang, "Xqzzle "+in.s+" flurb")
					if e == nil && (len(rs) != 1 || rs[0].Text != in.s) {
						return fmt.Sprintf("found %d dates: %s", len(rs), showSearch(in.lang, rs, nil))
					}
					if err = e; e == nil {
						dt = rs[0].Date
					}
				default:
					dt, err = p.Parse(cfg, in.s, append(formats, in.formats...)...)
				}
				per := in.per
				if cfg.ReturnTimeAsPeriod {
					per = in.perT
				}
				loc := in.zone
				if loc == nil {
					loc = cfg.DefaultTimezone
				}
				if loc == nil {
					loc = cfg.CurrentTime.Location()
					if in.utc {
						loc = time.UTC
					}
				}
				var want time.Time
				switch {
				case in.stamp != nil:
					want = *in.stamp
					if err == nil {
						want = want.In(dt.Time.Location())
					}
				case in.rel != nil:
					want = in.rel(cfg.CurrentTime.In(loc))
				default:
					t := in.clock
					want = time.Date(t[0], time.Month(t[1]), t[2], t[3], t[4], t[5], t[6], loc)
				}
				c.Outcome(want.String())
				c.Add("combinations_of_unrelated_options", 1)
				if m := diffDate(dt, err, want, per); m != "" {
					return m + " with " + crossKey(cfg, formats)
				}
				return ""
			})
		}
	}
}

func crossKey(c *dps.Configuration, formats []string) string {
	var s []string
	add := func(ok bool, f string, a ...any) {
		if ok {
			s = append(s, fmt.Sprintf(f, a...))
		}
	}
	add(true, "now %s", c.CurrentTime.Format(time.RFC3339Nano))
	add(true, "preferred source/month/day %d/%d/%d", c.PreferredDateSource, c.PreferredMonthOfYear, c.PreferredDayOfMonth)
	add(c.DefaultTimezone != nil, "zone %s", c.DefaultTimezone)
	add(c.StrictParsing, "StrictParsing")
	add(c.RequiredParts != nil, "RequiredParts")
	add(c.ReturnTimeAsPeriod, "ReturnTimeAsPeriod")
	add(c.PreserveEndOfMonth, "PreserveEndOfMonth")
	add(c.TryPreviousLocales, "TryPreviousLocales")
	add(c.UseGivenOrder, "UseGivenOrder")
	add(c.DefaultLanguages != nil, "DefaultLanguages %q", c.DefaultLanguages)
	add(c.SkipTokens != nil, "SkipTokens %q", c.SkipTokens)
	add(formats != nil, "formats %q", formats)
	return strings.Join(s, ", ")
}

func instant(sec, ns int64) *time.Time { t := time.Unix(sec, ns); return &t }

func crossInputs(id string) []crossInput {
	switch id {
	case "C07":
		return []crossInput{
			on("en", "18/06/2014", 2014, 6, 18), on("en", "06/05/2014", 2014, 6, 5), on("fr", "06/05/2014", 2014, 5, 6), on("de", "29.02.2016", 2016, 2, 29),
			inOrder("YDM", on("en", "2014-05-06", 2014, 6, 5)), inOrder("MYD", on("en", "6 2014 5", 2014, 6, 5)), inOrder("DYM", on("en", "31/1999/12", 1999, 12, 31)),
			inOrder("YMD", on("en", "1999/12/31", 1999, 12, 31)), inOrder("DMY", on("ru", "01.02.2003", 2003, 2, 1)), on("zh", "2014/6/8", 2014, 6, 8),
		}
	case "C08":
		return []crossInput{
			on("fr", "5 mai 2014", 2014, 5, 5), on("fr", "mercredi 31 décembre 2014", 2014, 12, 31), on("de", "29. Februar 2016", 2016, 2, 29), on("es", "18 de junio de 2014", 2014, 6, 18), on("zh", "2014年6月18日", 2014, 6, 18),
			on("ru", "18 июня 2014", 2014, 6, 18), on("en", "Friday, Mar 7 2014", 2014, 3, 7), on("ja", "2014年6月18日", 2014, 6, 18), on("pl", "31 stycznia 1999", 1999, 1, 31), on("ar", "18 يونيو 2014", 2014, 6, 18),
		}
	case "C09":
		days := func(n int) func(time.Time) time.Time {
			return func(t time.Time) time.Time { return t.AddDate(0, 0, n) }
		}
		hours := func(d time.Duration) func(time.Time) time.Time {
			return func(t time.Time) time.Time { return t.Add(d) }
		}
		return []crossInput{
			moved("en", "3 days ago", date.Day, days(-3)), moved("en", "in 3 days", date.Day, days(3)), moved("en", "2 weeks ago", date.Day, days(-14)), moved("en", "yesterday", date.Day, days(-1)), moved("en", "tomorrow", date.Day, days(1)),
			moved("fr", "il y a 40 jours", date.Day, days(-40)), moved("en", "in 5 hours", date.Hour, hours(5*time.Hour)), moved("en", "90 minutes ago", date.Minute, hours(-90*time.Minute)), moved("de", "vor 7 Tagen", date.Day, days(-7)),
			moved("en", "1 day 2 hours ago", date.Hour, func(t time.Time) time.Time { return t.AddDate(0, 0, -1).Add(-2 * time.Hour) }),
		}
	case "C12":
		return []crossInput{
			on("en", "18 June 2014 10:20", 2014, 6, 18, 10, 20), on("en", "18 June 2014 10:20 UTC", 2014, 6, 18, 10, 20).in(0), on("en", "18 June 2014 23:20 EST", 2014, 6, 18, 23, 20).in(-5 * 3600), on("en", "2014-06-18T23:59:59+05:45", 2014, 6, 18, 23, 59, 59).in(5*3600 + 2700),
			on("en", "2014-06-18 00:00:00.5 -12:00", 2014, 6, 18, 0, 0, 0, 5e8).in(-12 * 3600), on("fr", "18 juin 2014 10:20 UTC-3", 2014, 6, 18, 10, 20).in(-3 * 3600), on("en", "18 June 2014 GMT+14", 2014, 6, 18).in(14 * 3600), on("en", "18 June 2014", 2014, 6, 18),
			func() crossInput {
				in := on("en", "20140618", 2014, 6, 18)
				in.utc = true
				return inOrder("YMD", in)
			}(),
		}
	case "C13":
		return []crossInput{
			on("en", "18 June 2014 00:00", 2014, 6, 18, 0, 0), on("en", "18 June 2014 12:00 am", 2014, 6, 18, 0, 0), on("en", "12:30 pm 18 June 2014", 2014, 6, 18, 12, 30), on("en", "2014-06-18T23:59:59.999999", 2014, 6, 18, 23, 59, 59, 999999000),
			on("en", "June 18 2014, 1:02:03 PM", 2014, 6, 18, 13, 2, 3), on("de", "18. Juni 2014 9:05", 2014, 6, 18, 9, 5), on("en", "2014-06-18 11:11:11", 2014, 6, 18, 11, 11, 11),
		}
	case "C14":
		ins := []crossInput{}
		for _, x := range []struct {
			s       string
			sec, ns int64
		}{{"1403086830", 1403086830, 0}, {"1403086830123", 1403086830, 123000000}, {"1403086830123456", 1403086830, 123456000}, {"0000000001", 1, 0}, {"-1403086830", -1403086830, 0}, {"9999999999999999", 9999999999, 999999000}} {
			for _, l := range []string{"en", "ar"} {
				ins = append(ins, crossInput{s: x.s, lang: l, stamp: instant(x.sec, x.ns), per: date.Day, perT: date.Second})
			}
		}
		return ins
	case "C15":
		f := func(format, lang, s string, clock ...int) crossInput {
			in := on(lang, s, clock...)
			in.perT, in.utc, in.formats = date.Day, true, []string{format}
			return in
		}
		return []crossInput{
			f("02/01/2006", "en", "05/06/2014", 2014, 6, 5), f("2006-02-01", "en", "2014-05-06", 2014, 6, 5), f("2 January 2006", "fr", "6 mai 2014", 2014, 5, 6),
			f("06.01.02 15:04", "de", "14.05.06 07:08", 2014, 5, 6, 7, 8), f("2006/02/01 3:04 PM -0700", "en", "2014/05/06 12:08 AM +0530", 2014, 6, 5, 0, 8).in(5*3600 + 1800),
		}
	case "C16":
		return []crossInput{
			inCal("jalali", on("fa", "28/3/1393", 2014, 6, 18)), inCal("jalali", on("fa", "30/12/1395", 2017, 3, 20)), inCal("jalali", on("fa", "۲۸ خرداد ۱۳۹۳", 2014, 6, 18)),
			inCal("jalali", on("fa", "1 فروردین 1400 ساعت 10:20:30", 2021, 3, 21, 10, 20, 30)), inCal("jalali", on("fa", "چهارشنبه 28 خرداد 1393", 2014, 6, 18)), inCal("jalali", on("fa", "28/3/1393 10:20 +03:30", 2014, 6, 18, 10, 20).in(3*3600+1800)),
		}
	case "C17":
		return []crossInput{
			inCal("hijri", on("ar", "20/08/1435", 2014, 6, 18)), inCal("hijri", on("ar", "1/1/1356", 1937, 3, 14)), inCal("hijri", on("ar", "٢٠-٠٨-١٤٣٥ ١٠:٢٠", 2014, 6, 18, 10, 20)),
			inCal("hijri", on("ar", "29/12/1500", 2077, 11, 15)), inCal("hijri", on("ar", "20/8/1435 10:20 +03:00", 2014, 6, 18, 10, 20).in(3*3600)),
		}
	case "C19":
		return []crossInput{
			inCal("search", on("en", "18 June 2014", 2014, 6, 18)), inCal("search", on("en", "2014-06-18", 2014, 6, 18)), inCal("search", on("en", "June 18, 2014 10:20 pm", 2014, 6, 18, 22, 20)),
			inCal("search", on("fr", "mercredi 18 juin 2014", 2014, 6, 18)), inCal("search", on("de", "18. Juni 2014", 2014, 6, 18)), inCal("search", on("en", "18 June 2014 10:20 UTC+3", 2014, 6, 18, 10, 20).in(3*3600)),
		}
	case "C24":
		f := func(order, s string, clock ...int) crossInput {
			in := on("en", s, clock...)
			in.utc, in.perT = true, date.Day
			return inOrder(order, in)
		}
		return []crossInput{
			f("YMD", "20140618", 2014, 6, 18), f("DMY", "18062014", 2014, 6, 18), f("MDY", "02292016", 2016, 2, 29), f("YMD", "20140618102030", 2014, 6, 18, 10, 20, 30),
		}
	}
	panic(id)
}

func init() {
	// crossprobe: the inputs of the checks under the quick combinations
	extraCmds["crossprobe"] = func(args []string) {
		for _, id := range args {
			for _, in := range crossInputs(id) {
				c := newCtx(runOpts{id: id, n: 1, secs: 1000})
				cross(c, []crossInput{in})
				fmt.Println(id, in.s, c.res.Cases, c.res.NViolations)
				for i, v := range c.res.Violations {
					if i < 2 {
						fmt.Println("   ", v.Key, v.What)
					}
				}
			}
		}
	}
}
