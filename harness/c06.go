package main

import (
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C06", Run: runC06, QuickSecs: 200, DeepSecs: 840,
		Statement:  "every call returns, without panicking, either a real date or an error",
		Assume:     []string{"a call that takes longer than 120 s is taken to hang (ordinary ones take milliseconds)", "dictionary words come from a table made of the released dictionaries"},
		Bounds:     map[string]string{"English": "all strings of up to 3 of 62 tokens without separators, and up to 2 with spaces", "configurations": "all pairs of tokens x 33 extreme configurations", "all languages": "all strings of up to 2 tokens, detection on", "every language": "pairs of its dictionary words and 8 general tokens, Parse and SearchWithLanguage", "calendars": "all strings of up to 3 of 44 tokens, Jalali and Hijri", "search": "all sequences of up to 3 of 30 tokens in English, up to 2 in eight more languages and detected", "formats": "all formats of up to 3 of 27 tokens x 12 texts", "zones": "all strings of up to 3 tokens", "long": "every token and pair of tokens repeated 3-2000 times on each entry point"},
		BoundsDeep: map[string]string{"English": "up to 3 tokens with and without spaces; up to 4 of 20 tokens", "configurations": "triples over 20 tokens x 33", "all languages": "up to 3 of 20 tokens", "every language": "triples", "calendars": "up to 3, and 4 of 16 tokens", "search": "up to 3 in nine languages", "formats": "up to 4 of 27 tokens", "zones": "up to 4", "long": "up to 20000 repetitions"},
	})
}

var c06Tokens = []string{"1", "18", "12", "2014", "", "0", "99", "31", "20140618", "1403086830", "000000000", "99999999999999999999", "1.5", "١٨",
	" ", "-", "/", ".", ":", ",", "'", "\"", "(", ")", "[", "}", "+", "T", "Z", "|", "%", "\\", "\n", "\u00a0", "\u200e", "\u200c", "\u0301", "é", "e\u0301", "\x00", "\xff", "\xe4\xb8", "中", "日", "ى", "😀", "İ", "ſ",
	"june", "wed", "am", "pm", "ago", "in", "day", "decade", "noon", "utc", "+0300", "est", "now", "second"}
var c06Few = []string{"1", "18", "2014", "", "99999999999999999999", " ", "-", ".", ":", "+", "\xff", "e\u0301", "june", "wed", "am", "ago", "in", "day", "utc", "'"}

func joins(toks []string, n int, seps []string, f func(string)) {
	lists(toks, n, func(seq []string) {
		for i, sep := range seps {
			if i > 0 && len(seq) < 2 {
				continue
			}
			f(strings.Join(seq, sep))
		}
	})
}

func runC06(c *Ctx) {
	known := map[string]bool{"": true}
	for _, l := range append(readLines(tablePath(c, "languages.txt")), readLines(tablePath(c, "locales.txt"))...) {
		known[l] = true
	}
	// wf says whether the outcome is a real date or an error.
	wf := func(d date.Date, err error) string {
		c.Call(1)
		if err != nil {
			c.Outcome("error")
			if d != (date.Date{}) {
				return fmt.Sprintf("an error (%v) with the date %v %v %q", err, d.Time, d.Period, d.Locale)
			}
			if err.Error() == "" {
				return "an error without a message"
			}
			return ""
		}
		c.Outcome(d.Period.String() + d.Locale)
		if d.IsZero() || d.Time.IsZero() {
			return "no error, but the zero date"
		}
		switch d.Period {
		case date.Second, date.Minute, date.Hour, date.Day, date.Month, date.Year:
		default:
			return fmt.Sprintf("no error, but the period %d", d.Period)
		}
		if !known[d.Locale] {
			return fmt.Sprintf("unknown locale %q", d.Locale)
		}
		_, off := d.Time.Zone()
		if off <= -24*3600 || off >= 24*3600 {
			return fmt.Sprintf("UTC offset of %d seconds", off)
		}
		return ""
	}
	now := utc(2015, 7, 31, 12, 0, 0)
	parse := func(kind string, cfg dps.Configuration, s string, formats ...string) {
		c.Case(kind+" "+fmt.Sprintf("%q %q", s, formats), func() string {
			return wf((&dps.Parser{}).Parse(&cfg, s, formats...))
		})
	}
	search := func(kind, lang, s string) {
		c.Case(kind+" "+lang+" "+fmt.Sprintf("%q", s), func() string {
			cfg := &dps.Configuration{CurrentTime: now}
			p := &dps.Parser{}
			var rs []dps.SearchResult
			var err error
			l := lang
			if lang == "" {
				l, rs, err = p.Search(cfg, s)
			} else {
				rs, err = p.SearchWithLanguage(cfg, lang, s)
			}
			c.Call(1)
			if err != nil {
				c.Outcome("error")
				if len(rs) > 0 || lang != "" {
					return "error: " + err.Error()
				}
				return "" // no language
			}
			if !known[l] {
				return fmt.Sprintf("unknown language %q", l)
			}
			c.Outcome(fmt.Sprint(l, len(rs)))
			for _, r := range rs {
				if m := wf(r.Date, nil); m != "" {
					return m
				}
				if r.Text == "" {
					return "empty text"
				}
			}
			return ""
		})
	}
	last := time.Now()
	sect := func(name string) { // how long the parts take, for the evidence
		c.Max("ms_"+name, time.Since(last).Milliseconds())
		if name != "words" {
			last = time.Now()
		}
	}
	en := dps.Configuration{Languages: []string{"en"}, CurrentTime: now}

	// English
	if c.Quick {
		joins(c06Tokens, 2, []string{"", " "}, func(s string) { parse("en", en, s) })
		joins(append(c06Few[:len(c06Few):len(c06Few)], "/", "(", "\"", "pm", "T", "\x00", "now", "+0300", "12", "noon"), 3, []string{""}, func(s string) { parse("en3", en, s) })
	} else {
		joins(c06Tokens, 3, []string{""}, func(s string) { parse("en", en, s) })
		joins(c06Tokens, 3, []string{" "}, func(s string) { parse("en", en, s) })
		joins(c06Few, 4, []string{"", " "}, func(s string) { parse("en4", en, s) })
	}
	sect("en")
	// extreme configurations
	for i, cfg := range c06Configs(now) {
		k := fmt.Sprintf("cfg%d", i)
		seps := []string{" ", ""}
		if c.Quick {
			joins(c06Few, 2, seps, func(s string) { parse(k, cfg, s) })
		} else {
			joins(c06Tokens, 2, seps, func(s string) { parse(k, cfg, s) })
			joins(c06Few, 3, seps, func(s string) { parse(k, cfg, s) })
		}
		for _, s := range c06Texts {
			parse(k, cfg, s)
			c.Case(k+fmt.Sprintf(" hijri %q", s), func() string { return wf(dps.ParseHijri(&cfg, s)) })
			c.Case(k+fmt.Sprintf(" jalali %q", s), func() string { return wf(dps.ParseJalali(&cfg, s)) })
			for _, f := range []string{"2006", "1", "", "15:04", "06002", "2 January", "Monday", "_2", "2006-01-02 MST"} {
				parse(k, cfg, s, f)
			}
		}
	}
	// partial dates from every kind of base time under all preferences, in all calendars
	bases := []time.Time{utc(1, 1, 1, 0, 0, 1), utc(0, 2, 29, 0, 0, 0), utc(-4000, 5, 5, 5, 5, 5), utc(9999, 12, 31, 23, 59, 59), utc(2016, 2, 29, 0, 0, 0), utc(2100, 3, 1, 0, 0, 0), utc(1899, 12, 31, 23, 0, 0),
		time.Unix(math.MaxInt64/4, 0), time.Unix(math.MinInt64/4, 0), time.Unix(math.MaxInt64, 999999999), time.Unix(math.MinInt64, 0)}
	for _, y := range []int{559, 560, 561, 621, 622, 1826, 1827, 2121, 2122, 3797, 3798, 3799, 3800} { // around the ends of the Jalali tables
		bases = append(bases, utc(y, 3, 19, 12, 0, 0), utc(y, 3, 22, 12, 0, 0))
	}
	for _, y := range []int{1936, 1937, 1938, 2076, 2077, 2078} { // around the ends of the Umm al-Qura table
		bases = append(bases, utc(y, 1, 1, 0, 0, 0), utc(y, 3, 14, 12, 0, 0), utc(y, 11, 16, 12, 0, 0), utc(y, 11, 17, 12, 0, 0))
	}
	for bi, b := range bases {
		for pi := 0; pi < 27; pi++ {
			if c.Quick && pi%9 != bi%9 && pi%4 != 0 {
				continue
			}
			cfg := dps.Configuration{Languages: []string{"en"}, CurrentTime: b, PreferredDateSource: dps.PreferredDateSource(pi % 3), PreferredMonthOfYear: dps.PreferredMonthOfYear(pi / 3 % 3), PreferredDayOfMonth: dps.PreferredDayOfMonth(pi / 9)}
			k := fmt.Sprintf("base%d pref%d", bi, pi)
			for _, s := range []string{"30/12", "30-12 10:00", "29/2", "29 february", "31", "31/12/16", "29/2/00", "10:20", "10:20 UTC-12:00", "wednesday", "2016", "12", "3 months ago", "in 9999 years", "1403086830"} {
				parse(k, cfg, s)
				c.Case(k+fmt.Sprintf(" hijri %q", s), func() string { return wf(dps.ParseHijri(&cfg, s)) })
				c.Case(k+fmt.Sprintf(" jalali %q", s), func() string { return wf(dps.ParseJalali(&cfg, s)) })
			}
			for _, s := range []string{"30 اسفند", "۳۰ اسفند ۱۰:۰۰", "اسفند", "شنبه", "30 ذو الحجة"} {
				c.Case(k+fmt.Sprintf(" jalali %q", s), func() string { return wf(dps.ParseJalali(&cfg, s)) })
				c.Case(k+fmt.Sprintf(" hijri %q", s), func() string { return wf(dps.ParseHijri(&cfg, s)) })
			}
		}
	}
	sect("cfg")
	// all languages
	all := dps.Configuration{CurrentTime: now}
	if c.Quick {
		joins(c06Few, 2, []string{" "}, func(s string) { parse("all", all, s) })
		joins(c06Tokens, 1, []string{" "}, func(s string) { parse("all", all, s) })
	} else {
		joins(c06Tokens, 2, []string{"", " "}, func(s string) { parse("all", all, s) })
		joins(c06Few, 3, []string{" "}, func(s string) { parse("all", all, s) })
	}
	sect("all")
	// the dictionaries
	type words struct {
		L string   `json:"l"`
		W []string `json:"w"`
	}
	for _, line := range readLines(tablePath(c, "words.jsonl")) {
		var w words
		if json.Unmarshal([]byte(line), &w) != nil {
			continue
		}
		cfg := dps.Configuration{Languages: []string{w.L}, CurrentTime: now}
		ws := append([]string{"18", "2014", "1", "10:20", "utc"}, w.W...)
		if c.Quick && len(ws) > 11 {
			ws = append(ws[:2:2], ws[4:]...)
			ws = append(ws[:8:8], ws[len(ws)-3:]...)
		}
		lists(ws, 2, func(seq []string) {
			for _, sep := range []string{" ", ""} {
				if sep == "" && (c.Quick || len(seq) < 2) {
					continue
				}
				s := strings.Join(seq, sep)
				parse(w.L, cfg, s)
				if len(seq) < 2 || sep == " " && !c.Quick && (slices.Contains(ws[:7], seq[0]) || slices.Contains(ws[:7], seq[1])) {
					search("w", w.L, s)
				}
			}
		})
		if !c.Quick {
			few := append([]string{"18", "2014"}, ws[5:min(len(ws), 9)]...)
			few = append(few, ws[max(9, len(ws)-3):]...)
			lists(few, 3, func(seq []string) {
				if len(seq) == 3 {
					parse(w.L, cfg, strings.Join(seq, " "))
				}
			})
		}
		for _, n := range []int{3, 30} {
			for i, t := range ws {
				if c.Quick && (i > 5 || i > 2 && n > 3) {
					break
				}
				if strings.TrimSpace(t) == "" {
					continue
				}
				parse("rep "+w.L, cfg, strings.Repeat(t+" ", n))
				if !c.Quick {
					search("rep", w.L, strings.Repeat(t+" ", n))
				}
			}
		}
		// all ambiguous words at once
		amb := strings.Repeat(strings.Join(w.W[:min(len(w.W), 12)], " ")+" ", 4)
		if !c.Quick || h64(w.L)%8 == 0 {
			parse("amb "+w.L, cfg, amb)
		}
		if !c.Quick {
			search("amb", w.L, amb)
		}
		sect("words")
	}
	// calendars
	jt := []string{"1", "18", "30", "31", "1393", "93", "0", "", "99999999999999999999", "۱۸", "٢٠", " ", "-", "/", ".", ":", ",", "خرداد", "اسفند", "هزار", "سیصد", "نود", "و", "سه", "چهارشنبه", "شعبان", "صفر", "رمضان", "صباحاً", "مساء", "م", "ص", "ساعت", "دقیقه", "صبح", "june", "utc", "pm", "am", "\xff", "\u200c", "ذو الحجة", "1500", "1501"}
	cal := func(s string) {
		cfg := &dps.Configuration{CurrentTime: now}
		c.Case(fmt.Sprintf("jalali %q", s), func() string { return wf(dps.ParseJalali(cfg, s)) })
		c.Case(fmt.Sprintf("hijri %q", s), func() string { return wf(dps.ParseHijri(cfg, s)) })
	}
	if c.Quick {
		joins(jt, 2, []string{" ", ""}, cal)
		joins(jt[:20], 3, []string{"/"}, cal)
	} else {
		joins(jt, 3, []string{" ", "", "/"}, cal)
	}
	for y := 0; y <= 10000; y += 1 {
		if c.Quick && y > 1600 && y%97 != 0 {
			continue
		}
		for _, m := range []int{1, 2, 12} {
			cal(fmt.Sprintf("%d/%d/%d", y, m, 29+y%3))
		}
	}
	sect("calendars")
	// formats
	ft := []string{"%", "Y", "y", "m", "d", "H", "I", "p", "M", "S", "f", "j", "z", "Z", "b", "A", "s", "-", "(", "[", "\\", "*", "+", " ", "é", "0", "\xff"}
	fd := 3
	if !c.Quick {
		fd = 4
	}
	texts := []string{"", "2014", "18 June 2014 10:20 PM", "0", "-1", "%", "Y", "é", "+", "(", "366", "99"}
	lists(ft, fd, func(seq []string) {
		f := strings.Join(seq, "")
		c.Case(fmt.Sprintf("format %q", f), func() string {
			for _, t := range texts {
				if len(seq) == fd && !c.Quick && t != "2014" && t != f && t != "366" {
					continue
				}
				cfg := en
				if m := wf((&dps.Parser{ParserTypes: []dps.ParserType{dps.CustomFormat}}).Parse(&cfg, t, f)); m != "" {
					return fmt.Sprintf("%q: %s", t, m)
				}
			}
			return ""
		})
	})
	sect("formats")
	// time zones
	zd := 3
	if !c.Quick {
		zd = 4
	}
	joins([]string{"10", ":", "utc", "gmt", "+", "-", "3", "12", "00", "99", "99999999999999999999", "est", "Z", "(", ")", " ", "\\", "", "bst", "à", "中", "AMST"}, zd, []string{"", " "}, func(s string) {
		c.Case(fmt.Sprintf("pop %q", s), func() string {
			clean, name, off := dps.PopTzOffset(s)
			c.Call(1)
			c.Outcome(fmt.Sprint(name, off))
			if off < -24*3600 || off > 24*3600 {
				return fmt.Sprintf("offset of %d seconds", off)
			}
			if len(clean) > len(s) {
				return fmt.Sprintf("%q is longer", clean)
			}
			return ""
		})
	})
	sect("zones")
	// searching
	st := []string{"18", "June", "2014", "2014-06-18", "10:20", "pm", "2", "days", "ago", "in", "Wednesday", "UTC", "flurb", ",", ".", "(", ")", "-", "and", "yesterday", "1403086830", "\xff", "\"", "'", "\n", "é", "中", ":", "?", "99999999999999999999"}
	for _, lang := range []string{"en", "fr", "ru", "zh", "yue", "th", "vi", "hu", "fi", ""} {
		do := func(s string) { search("search", lang, s) }
		if c.Quick {
			few := []string{"18", "June", "2014", "10:20", "ago", "flurb", ",", "(", "\xff", "中"}
			search("search", lang, "99999999999999999999 .")
			joins(few, 2, []string{" "}, do)
			if lang == "en" {
				joins(few[:6], 3, []string{" "}, do)
			}
			continue
		}
		joins(st, 2, []string{"", " "}, do)
		if lang != "" {
			joins(st[:17], 3, []string{" "}, do)
		}
	}
	// searches without CurrentTime, where dates are relative to the absolute ones before them
	for _, l := range c19Langs {
		rel := c06Relative[l.lang]
		if len(rel) == 0 {
			continue
		}
		pieces := append([]string{l.dates[0], l.fill[1], "10:20"}, rel...)
		d, gaps := 2, []string{" " + l.fill[0] + " ", "; "}
		if !c.Quick || l.lang == "en" {
			d = 3
		}
		if c.Quick {
			gaps = gaps[:1]
		}
		lists(pieces, d, func(seq []string) {
			for _, g := range gaps {
				s := strings.Join(seq, g)
				for _, cfg := range []*dps.Configuration{nil, {PreferredDateSource: dps.Past, DefaultTimezone: mustLoc("Asia/Tokyo"), Languages: []string{l.lang, "en"}}} {
					c.Case(fmt.Sprintf("now %s %q %v", l.lang, s, cfg != nil), func() string {
						p := &dps.Parser{}
						rs, err := p.SearchWithLanguage(cfg, l.lang, s)
						c.Call(1)
						if err != nil {
							return "error: " + err.Error()
						}
						if cfg != nil {
							_, more, err := p.Search(cfg, s)
							if err == nil {
								rs = append(rs, more...)
							}
						}
						for _, r := range rs {
							if m := wf(r.Date, nil); m != "" {
								return m
							}
						}
						return ""
					})
				}
			}
		})
	}
	sect("search")
	// long texts
	reps := []int{20, 200, 2000}
	if !c.Quick {
		reps = append(reps, 3, 20000)
	}
	for _, n := range reps {
		lt := c06Tokens
		if n > 20 {
			lt = c06Few
		}
		if c.Quick && n > 3 {
			lt = []string{"18", " ", "june", "-", ":", "ago", "\xff", "utc"}
		}
		joins(lt, 2, []string{"", " "}, func(t string) {
			if n*len(t) > 200000 || c.Quick && n*len(t) > 2400 {
				return
			}
			s := strings.Repeat(t, n)
			key := fmt.Sprintf("%d times %q", n, t)
			c.Case("long "+key, func() string {
				cfg := en
				if m := wf((&dps.Parser{}).Parse(&cfg, s)); m != "" {
					return m
				}
				if n <= 200 {
					if m := wf((&dps.Parser{}).Parse(&dps.Configuration{CurrentTime: now, Languages: []string{"fr", "ar", "zh"}}, s)); m != "" {
						return m
					}
				}
				for _, f := range []func(*dps.Configuration, string) (date.Date, error){dps.ParseJalali, dps.ParseHijri} {
					if m := wf(f(&cfg, s)); m != "" {
						return m
					}
				}
				dps.PopTzOffset(s)
				c.Call(1)
				return ""
			})
			if n <= 20 && (!c.Quick || len(t) < 3) {
				search("long", "en", s)
				if len(t) < 4 {
					search("long", "zh", s)
				}
			}
		})
	}
	sect("long")
}

var c06Relative = map[string][]string{
	"en": {"yesterday", "2 days ago", "in 3 weeks", "Wednesday", "June"},
	"fr": {"hier", "il y a 2 jours", "mercredi", "juin"},
	"de": {"gestern", "vor 2 Tagen", "Mittwoch", "Juni"},
	"es": {"ayer", "hace 2 días", "miércoles", "junio"},
	"it": {"ieri", "2 giorni fa", "mercoledì", "giugno"},
	"pt": {"ontem", "2 dias atrás", "quarta-feira", "junho"},
	"nl": {"gisteren", "2 dagen geleden", "woensdag", "juni"},
	"ru": {"вчера", "2 дня назад", "среда", "июнь"},
	"pl": {"wczoraj", "2 dni temu", "środa", "czerwiec"},
	"sv": {"igår", "2 dagar sedan", "onsdag", "juni"},
	"tr": {"dün", "2 gün önce", "çarşamba", "haziran"},
	"zh": {"昨天", "2天前", "星期三", "6月"},
	"ja": {"昨日", "2日前", "水曜日", "6月"},
	"ar": {"أمس", "الأربعاء", "يونيو"},
	"hi": {"कल", "बुधवार", "जून"},
	"vi": {"hôm qua", "2 ngày trước", "tháng 6"},
}

var c06Texts = []string{"june", "wednesday", "10:20", "31", "29 february", "2 days ago", "in 99999 years", "999999999 decades ago", "1 century ago", "14", "2014", "1403086830", "9999999999999", "-1403086830", "12/2015", "31/12", "365", "20140618", "00:00", "wednesday 10:20 est", "0001-01-01", "9999-12-31", "yesterday", "in 2 hours"}

func c06Configs(now time.Time) []dps.Configuration {
	var out []dps.Configuration
	add := func(f func(*dps.Configuration)) {
		cfg := dps.Configuration{Languages: []string{"en"}, CurrentTime: now}
		f(&cfg)
		out = append(out, cfg)
	}
	for _, t := range []time.Time{{}, utc(1, 1, 1, 0, 0, 1), utc(1, 3, 31, 0, 0, 0), utc(9999, 12, 31, 23, 59, 59), utc(2016, 2, 29, 0, 0, 0), utc(0, 2, 29, 0, 0, 0), utc(-4000, 5, 5, 5, 5, 5), time.Unix(math.MaxInt64/4, 0), time.Unix(math.MinInt64/4, 0), time.Date(2015, 3, 29, 2, 30, 0, 0, mustLoc("Europe/Berlin"))} {
		add(func(c *dps.Configuration) { c.CurrentTime = t })
	}
	for _, src := range []dps.PreferredDateSource{dps.Past, dps.Future} {
		for _, mo := range []dps.PreferredMonthOfYear{dps.FirstMonth, dps.LastMonth} {
			for _, da := range []dps.PreferredDayOfMonth{dps.First, dps.Last} {
				add(func(c *dps.Configuration) {
					c.PreferredDateSource, c.PreferredMonthOfYear, c.PreferredDayOfMonth = src, mo, da
					if mo == dps.FirstMonth {
						c.CurrentTime = utc(2016, 2, 29, 0, 0, 0)
					}
				})
			}
		}
	}
	for _, parts := range [][]string{{"day"}, {"month"}, {"year"}, {"day", "month", "year"}} {
		add(func(c *dps.Configuration) { c.RequiredParts = parts })
	}
	add(func(c *dps.Configuration) { c.StrictParsing = true })
	add(func(c *dps.Configuration) { c.ReturnTimeAsPeriod = true })
	add(func(c *dps.Configuration) { c.TryPreviousLocales = true })
	for _, o := range []string{"", "DD", "é", "YMDX", "ymd", "\xff\xff\xff"} {
		add(func(c *dps.Configuration) { c.DateOrder = func(string) string { return o } })
	}
	add(func(c *dps.Configuration) { c.DefaultTimezone = mustLoc("Pacific/Apia") })
	// a day that does not exist follows the base time
	apia := time.Date(2011, 12, 29, 12, 0, 0, 0, mustLoc("Pacific/Apia"))
	add(func(c *dps.Configuration) { c.CurrentTime, c.PreferredDateSource = apia, dps.Future })
	add(func(c *dps.Configuration) {
		c.CurrentTime, c.DefaultTimezone, c.PreferredDateSource = apia.AddDate(0, 0, 2).UTC(), mustLoc("Pacific/Apia"), dps.Past
	})
	add(func(c *dps.Configuration) { c.SkipTokens = []string{"", "june", "(", "\\", "1", "\xff"} })
	add(func(c *dps.Configuration) { c.DefaultLanguages = []string{"fr", "ar", "zz", ""} })
	add(func(c *dps.Configuration) { c.Region = "\xff" })
	return out
}
