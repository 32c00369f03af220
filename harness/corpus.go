package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// corpusCall is one call of the cross-section of the library's behaviour that
// the checks comparing two executions of the same call work with. The calls
// share nothing, and are listed in the same order in every process.
type corpusCall struct {
	key string
	run func() string
	one bool // searches a text with one date
}

type corpusOpt struct {
	verif string
	deep  bool
	now   time.Time // zero: left to the library
	zone  *time.Location
	force bool // also the configurations with a time of their own
	show  func(date.Date, error) string
}

func corpus(o corpusOpt) []corpusCall {
	var out []corpusCall
	seen := map[string]bool{}
	if o.show == nil {
		o.show = show
	}
	add := func(key string, run func() string) {
		if !seen[key] {
			seen[key] = true
			out = append(out, corpusCall{key: key, run: run})
		}
	}
	conf := func(f func(*dps.Configuration)) *dps.Configuration {
		c := &dps.Configuration{CurrentTime: o.now, DefaultTimezone: o.zone}
		if f != nil {
			f(c)
		}
		return c
	}
	lang := func(l string) func(*dps.Configuration) {
		return func(c *dps.Configuration) {
			if l != "" {
				c.Languages = []string{l}
			}
		}
	}
	locale := func(l string) func(*dps.Configuration) {
		return func(c *dps.Configuration) { c.Locales = []string{l} }
	}
	parse := func(name, text string, f func(*dps.Configuration), formats ...string) {
		add(fmt.Sprintf("parse %s %q %s", name, text, strings.Join(formats, "|")), func() string {
			return o.show((&dps.Parser{}).Parse(conf(f), text, formats...))
		})
	}
	searching := func(rs []dps.SearchResult, l string, err error) string {
		if err != nil {
			return "error"
		}
		s := l
		for _, r := range rs {
			s += fmt.Sprintf(" | %q %s", r.Text, o.show(r.Date, nil))
		}
		return s
	}
	search := func(l, text string, f func(*dps.Configuration)) {
		add(fmt.Sprintf("search %s %q", l, text), func() string {
			p := &dps.Parser{}
			if l == "" {
				l, rs, err := p.Search(conf(f), text)
				return searching(rs, l, err)
			}
			rs, err := p.SearchWithLanguage(conf(f), l, text)
			return searching(rs, l, err)
		})
	}
	one := func(l, text string) {
		search(l, text, nil)
		out[len(out)-1].one = true
	}
	every := func(q, t int) int { // the stride of a section
		if o.deep {
			return t
		}
		return q
	}

	// common forms
	for _, l := range c19Langs {
		for _, d := range l.dates {
			parse(l.lang, d, lang(l.lang))
			parse("any", d, nil)
			for i, f := range c19Frames {
				if i < every(4, 99) {
					one(l.lang, expand(f, d, l))
				}
				if i < every(1, 99) {
					one("", expand(f, d, l))
				}
			}
			for i, g := range c19Gaps {
				if i%every(9, 1) == 0 {
					search(l.lang, d+expand(g, "", l)+c19Rotate(d, 1), nil)
				}
			}
		}
	}
	// every locale
	for i, n := range nameCases(filepath.Join(o.verif, "tables", "names.jsonl")) {
		if i%every(19, 1) != 0 {
			continue
		}
		s, _, _ := n.base()
		parse(n.l, s, locale(n.l))
		if i%every(171, 9) == 0 {
			parse("any", s, nil)
			search("", s, nil)
		}
	}
	i := 0
	for _, r := range loadJSONL[relRow](filepath.Join(o.verif, "tables", "rel.jsonl")) {
		for _, e := range r.E {
			s, _ := e[0].(string)
			if i++; i%every(17, 1) == 0 {
				parse(r.L, s, locale(r.L))
			}
			if i%every(170, 11) == 0 {
				parse("any", s, nil)
			}
		}
	}
	for i, l := range readLines(filepath.Join(o.verif, "tables", "locales.txt")) {
		if l = strings.TrimSpace(l); l == "" {
			continue
		}
		for j, s := range []string{"02/03/04", "2014-06-18 10:20", "18.06.14", "31 12 2014 23:59:59 EST", "1/2", "20140618"} {
			if (i+j)%every(3, 1) == 0 {
				parse(l, s, locale(l))
			}
		}
	}
	for _, line := range readLines(filepath.Join(o.verif, "tables", "words.jsonl")) {
		var w struct {
			L string   `json:"l"`
			W []string `json:"w"`
		}
		if json.Unmarshal([]byte(line), &w) != nil {
			continue
		}
		for i, s := range w.W {
			if i%every(4, 1) == 0 {
				parse(w.L, s, lang(w.L))
			}
			if i%every(12, 1) == 0 {
				parse(w.L, "18 "+s+" 2014", lang(w.L))
			}
			if i%every(30, 3) == 0 {
				search(w.L, "18 "+s+" 2014 "+s, nil)
			}
		}
	}
	// odd strings
	joins(c06Few, 2, []string{" ", ""}, func(s string) {
		parse("en", s, lang("en"))
		if len(out)%every(20, 1) == 0 {
			parse("any", s, nil)
			search("en", "18 June 2014 "+s+" flurb", nil)
		}
	})
	// incomplete dates under the preferences
	for i := range c06Configs(o.now) {
		for j, s := range c06Texts {
			if (i+j)%every(4, 1) != 0 {
				continue
			}
			f := func(c *dps.Configuration) {
				now, z := c.CurrentTime, c.DefaultTimezone
				*c = c06Configs(o.now)[i]
				fixNow(c, now, z, o.force)
			}
			parse(fmt.Sprintf("cfg%d", i), s, f)
		}
	}
	for _, src := range []dps.PreferredDateSource{dps.CurrentPeriod, dps.Past, dps.Future} {
		for _, dom := range []dps.PreferredDayOfMonth{dps.Current, dps.First, dps.Last} {
			for _, moy := range []dps.PreferredMonthOfYear{dps.CurrentMonth, dps.FirstMonth, dps.LastMonth} {
				f := func(c *dps.Configuration) {
					c.Languages = []string{"en"}
					c.PreferredDateSource, c.PreferredDayOfMonth, c.PreferredMonthOfYear = src, dom, moy
				}
				for i, s := range []string{"june", "february", "december", "31", "1", "30 june", "29 february", "1 january", "31 december", "june 14", "june 2014", "14", "2014", "99", "sunday", "wednesday", "sunday 10:20", "00:00", "10:20", "23:59:59", "10:20 EST", "23:00 +1400", "00:30 -1200", "6/14", "12/2015", "15:00 31", "monday june", "0618", "061814", "1018", "10:20 pm"} {
					if (i+int(src)*2+int(dom)+int(moy))%every(4, 1) == 0 {
						parse(fmt.Sprint(src, dom, moy), s, f)
					}
				}
				for _, fm := range []string{"%d %B", "%B", "%Y", "%H:%M", "%d", "%A", "%y-%m", "%m/%d"} {
					text := map[string]string{"%d %B": "18 June", "%B": "February", "%Y": "2014", "%H:%M": "10:20", "%d": "31", "%A": "Sunday", "%y-%m": "14-06", "%m/%d": "06/18"}[fm]
					parse(fmt.Sprint(src, dom, moy), text, f, fm)
				}
			}
		}
	}
	// relative dates
	for _, u := range c09Units {
		for _, s := range []string{"1 %s ago", "in 2 %ss", "7 %ss", "last %s", "next %s", "this %s", "in 1.5 %ss", "2 %ss and 30 minutes ago", "in 1 %s at 10:20", "3 %ss ago EST"} {
			parse("en", strings.Replace(s, "%s", u, 1), lang("en"))
			one("en", "it happened "+strings.Replace(s, "%s", u, 1)+" there")
		}
	}
	for _, s := range []string{"now", "today", "yesterday", "tomorrow", "day before yesterday", "yesterday 10:20", "tomorrow at noon", "now UTC+3", "today 23:59 PST", "in 1 hour EST", "just now", "a minute ago", "an hour from now", "yesterday and tomorrow"} {
		parse("en", s, lang("en"))
		parse("any", s, nil)
		one("en", "it happened "+s+" there")
	}
	// many units, many dates, many words
	units := []string{"1 year", "2 months", "1 week", "3 days", "4 hours", "5 minutes", "6 seconds", "1 decade", "2 years", "1 hour"}
	for n := 1; n <= len(units); n++ {
		for _, sep := range []string{" ", ", ", " and ", " , "} {
			for r := 0; r < len(units); r += every(3, 1) {
				var us []string
				for k := 0; k < n; k++ {
					us = append(us, units[(r+k)%len(units)])
				}
				e := strings.Join(us, sep)
				parse("en", e+" ago", lang("en"))
				parse("en", "in "+e, lang("en"))
				if r%every(6, 1) == 0 {
					one("en", "it happened "+e+" ago there")
				}
			}
		}
	}
	for n := 2; n <= 12; n++ {
		for _, sep := range []string{" ", ", ", ". ", "; ", "\n", " - ", " word "} {
			var ds, ns, ts []string
			for k := 0; k < n; k++ {
				ds = append(ds, fmt.Sprintf("%d June 20%02d", k+11, k+1))
				ns = append(ns, fmt.Sprintf("20%02d-0%d-1%d", k+1, k%9+1, k%10))
				ts = append(ts, fmt.Sprintf("1%d:2%d", k%10, k%10))
			}
			for _, x := range [][]string{ds, ns, ts} {
				e := strings.Join(x, sep)
				one("en", e)
				parse("en", e, lang("en"))
			}
		}
	}
	// digits only
	for n := 1; n <= 14; n++ {
		for k, base := range []string{"20140618102030", "18062014102030", "06182014102030", "99123123595999", "00000000000000", "11111111111111", "19991231235959", "31129923595912", "01020304050607", "29020010203040", "02290010203040", "00022910203040", "20000229102030"} {
			for _, ord := range allOrders {
				if (n+k+len(out))%every(3, 1) == 0 {
					parse(ord, base[:n], func(c *dps.Configuration) { c.Languages, c.DateOrder = []string{"en"}, orderFn(ord) })
				}
			}
			parse("any", base[:n], nil)
		}
	}
	for _, s := range []string{"1403086830", "1403086830123", "1403086830123456", "-1403086830", "0", "9999999999", "14030868301"} {
		parse("en", s, lang("en"))
		add("negative "+s, func() string {
			return o.show((&dps.Parser{ParserTypes: []dps.ParserType{dps.NegativeTimestamp, dps.Timestamp}}).Parse(conf(nil), s))
		})
	}
	// zones
	for i, l := range readLines(filepath.Join(o.verif, "tables", "zones.tsv")) {
		z, _, _ := strings.Cut(l, "\t")
		if i%every(2, 1) == 0 {
			parse("en", "18 June 2014 10:20 "+z, lang("en"))
		}
		add("zone "+z, func() string {
			c, n, off := dps.PopTzOffset("10:20 " + z)
			return fmt.Sprintf("%q %s %d", c, n, off)
		})
		if i%every(9, 1) == 0 {
			parse("en", "in 2 hours "+z, lang("en"))
		}
	}
	for _, z := range c12Offsets {
		for _, s := range []string{"10:20 UTC" + z, "18 June 2014 10:20 " + z, "18 June 2014 10:20 GMT" + z, "2014-06-18T10:20:30" + z} {
			parse("en", s, lang("en"))
			add("zone "+s, func() string {
				c, n, off := dps.PopTzOffset(s)
				return fmt.Sprintf("%q %s %d", c, n, off)
			})
		}
	}
	// formats
	for _, f := range []string{"%Y-%m-%d", "%d/%m/%y %H:%M", "%A, %d %B %Y", "%a %b %d %H:%M:%S %Y", "%I:%M %p", "%j %Y", "%Y%m%d", "%d %B", "%S.%f", "%y", "%m-%Y", "%H:%M %Z", "%d %B %H:%M %z", "%s"} {
		for _, s := range []string{"2014-06-18", "18/06/14 10:20", "Wednesday, 18 June 2014", "Wed Jun 18 10:20:30 2014", "10:20 PM", "169 2014", "20140618", "18 June", "30.123456", "14", "06-2014", "10:20 JST", "10:20 EST", "18 June 10:20 +0900", "1403086830", "mercredi, 18 juin 2014", "Среда, 18 июня 2014"} {
			parse("any", s, nil, f)
			parse("fr", s, lang("fr"), f, "%d")
		}
	}
	// calendars
	cal := func(s string) {
		add(fmt.Sprintf("jalali %q", s), func() string { return o.show(dps.ParseJalali(conf(nil), s)) })
		add(fmt.Sprintf("hijri %q", s), func() string { return o.show(dps.ParseHijri(conf(nil), s)) })
	}
	for _, s := range []string{"جمعه سی ام اسفند ۱۳۸۷", "پنجشنبه 21 خرداد 1394", "۱۳ آبان", "شنبه", "چهارشنبه ۱۸ تیر", "هفده شهریور هزار و سیصد و نود و سه", "ساعت 10:20", "1393", "93/3/28", "۱۴۰۰/۱۲/۲۹ ۲۳:۵۹", "14-09-1432 هـ, 09:40 صباحاً", "20-02-1430 هـ, 07:21 مساءً", "1435/8/20", "20/8/1435 10:20", "رمضان 1435", "20 شعبان 1435", "١٤٣٥/٨/٢٠", "الجمعة", "17-10-1437 هـ، 03:35 مساءً"} {
		cal(s)
		parse("fa", s, lang("fa"))
	}
	for y := 1206; y <= 1500; y += every(40, 3) {
		for m := 1; m <= 12; m++ {
			cal(fmt.Sprintf("%d/%d/%d", y, m, 29))
			if y%2 == 0 {
				cal(fmt.Sprintf("%d-%d-%d 10:20", 30, m, y))
			}
		}
	}
	// odd characters next to and inside words, numbers, times and zones: white
	// space and case variants, marks, other digits, control characters, bytes
	// that are not UTF-8
	odd := []string{"\x00", "\x01", "\x1f", "\x7f", "\xff", "\xc3", "\xe2\x80", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\ufffd", "\ufeff", "\U0001F600", "\U0010FFFF"}
	for r := rune(0); r <= 0xffff; r++ {
		// every code point whose treatment (\s, \d, \w, case folding, normalization) engines may disagree on
		fold := r > 127 && r != unicode.SimpleFold(r) && func() bool {
			for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
				if f < 128 {
					return true
				}
			}
			return false
		}()
		if r > 0 && (unicode.IsSpace(r) || unicode.Is(unicode.Zs, r) || unicode.Is(unicode.Cf, r) || unicode.Is(unicode.Pc, r) || fold) || unicode.Is(unicode.Pd, r) || o.deep && (unicode.Is(unicode.Nd, r) && digitsEnd(r) || unicode.Is(unicode.Po, r) || r > 127 && r < 0x250 || r >= 0x300 && r < 0x370) {
			odd = append(odd, string(r))
		}
	}
	for i, x := range odd {
		for k, f := range []string{"12x March 2014", "x12 March 2014 10:20", "12 Mxarch 2014", "12 March 2014 10:20xpm", "12 March 2014 10:20 xUTC", "2 dayxs ago", "2xdays ago", "12xMarchx2014", "10x20", "2014x03x12", "14000000x00", "UTC+05x30 10:20"} {
			if o.deep || (i+k)%3 == 0 || i < 14 {
				parse("en", strings.ReplaceAll(f, "x", x), lang("en"))
			}
			if o.deep && (i+k)%5 == 0 || (i+k)%23 == 0 {
				search("en", strings.ReplaceAll("We met "+f+" there", "x", x), nil)
			}
		}
		if o.deep || i%3 == 0 {
			cal("12/3/1400 " + x + "10:20")
			cal("12" + x + "3" + x + "1400")
		}
	}
	// language settings
	for _, s := range []string{"18 June 2014", "mar 18 2014", "02/03/2014", "le 18 juin 2014", "18 juni 2014", "10:20", "2014年6月18日", "1 mar", "18 mai 2014"} {
		for i, f := range []func(*dps.Configuration){
			func(c *dps.Configuration) { c.Languages = []string{"fr", "en", "es", "nl"} },
			func(c *dps.Configuration) { c.Languages, c.UseGivenOrder = []string{"nl", "es", "en", "fr"}, true },
			func(c *dps.Configuration) { c.Languages, c.Region = []string{"en", "fr", "es"}, "CA" },
			func(c *dps.Configuration) { c.Locales = []string{"fr-BE", "en-GB", "es-MX", "zh-Hant-HK"} },
			func(c *dps.Configuration) { c.DefaultLanguages = []string{"en", "fr"} },
			func(c *dps.Configuration) {
				c.Languages, c.DefaultLanguages = []string{"ja"}, []string{"de", "fr", "en"}
			},
			func(c *dps.Configuration) { c.SkipTokens = []string{"le", "mar"} },
			func(c *dps.Configuration) { c.Languages, c.StrictParsing = []string{"en", "fr"}, true },
			func(c *dps.Configuration) { c.RequiredParts = []string{"day", "month", "year"} },
			func(c *dps.Configuration) { c.UseGivenOrder = true },
			func(c *dps.Configuration) { c.UseGivenOrder, c.Region = true, "CH" },
		} {
			parse(fmt.Sprintf("set%d", i), s, f)
			search("", s+" flurb "+s, f)
		}
	}
	for _, op := range histOps() {
		if !o.now.IsZero() && o.zone == nil {
			add("op "+op.name, func() string { return op.run(&histState{}) })
		}
	}
	return out
}

// fixNow puts the corpus' time and zone into a configuration.
func fixNow(c *dps.Configuration, now time.Time, z *time.Location, force bool) {
	if force || c.CurrentTime.IsZero() {
		c.CurrentTime = now
	} else {
		c.CurrentTime = c.CurrentTime.UTC()
	}
	if z != nil {
		c.DefaultTimezone = z
	}
}

var corpusNow = utc(2015, 7, 31, 12, 0, 0)

func init() {
	// corpus VERIF deep|quick FROM STEP: the results of every STEP-th call
	extraCmds["corpus"] = func(args []string) {
		from, _ := strconv.Atoi(args[2])
		step, _ := strconv.Atoi(args[3])
		calls := corpus(corpusOpt{verif: args[0], deep: args[1] == "deep", now: corpusNow})
		res := []string{}
		for i := from; i < len(calls); i += step {
			res = append(res, safely(calls[i].run))
		}
		json.NewEncoder(os.Stdout).Encode(map[string]any{"r": res, "x": corpusExtra()})
	}
}

func safely(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

// corpusPart runs a part of the corpus in a process of the given build.
func corpusPart(bin, verif string, deep bool, from, step int, env ...string) ([]string, map[string]int64, error) {
	tier := "quick"
	if deep {
		tier = "deep"
	}
	cmd := exec.Command(bin, "corpus", verif, tier, fmt.Sprint(from), fmt.Sprint(step))
	cmd.Env = append(append(os.Environ(), "GOMAXPROCS=2"), env...)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	var v struct {
		R []string         `json:"r"`
		X map[string]int64 `json:"x"`
	}
	if err == nil {
		err = json.Unmarshal(out, &v)
	}
	return v.R, v.X, err
}

// corpusAll runs the whole corpus in parallel processes.
func corpusAll(bin, verif string, deep bool, env ...string) ([]string, error) {
	const n = 16
	parts := make([][]string, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range parts {
		wg.Add(1)
		sem <- true
		go func() {
			parts[i], _, errs[i] = corpusPart(bin, verif, deep, i, n, env...)
			<-sem
			wg.Done()
		}()
	}
	wg.Wait()
	var out []string
	for i := 0; ; i++ {
		p := parts[i%n]
		if errs[i%n] != nil {
			return nil, errs[i%n]
		}
		if i/n >= len(p) {
			return out, nil
		}
		out = append(out, p[i/n])
	}
}

// digitsEnd tells the first and the last digit of a script.
func digitsEnd(r rune) bool { return !unicode.Is(unicode.Nd, r-1) || !unicode.Is(unicode.Nd, r+1) }
