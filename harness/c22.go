package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"unicode"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"golang.org/x/text/unicode/norm"
)

func init() {
	register(&Check{ID: "C22", Run: runC22, QuickSecs: 120, DeepSecs: 800,
		Statement:  "how a date is typeset does not change its meaning",
		Assume:     []string{"the Unicode tables of Go and of golang.org/x/text name the digits, the cases, the forms and the white space", "letter case: not for Turkish, Azeri, Lithuanian and Greek final sigma; custom formats see the string as it is", "marks and spaces are added between words, numbers and signs, not inside them"},
		Bounds:     map[string]string{"strings": "75 strings: every kind of date in 12 languages, Jalali and Hijri", "digits": "every decimal digit script of Unicode, uniform", "case": "lower, upper, title, alternating", "forms": "NFC, NFD, NFKC, NFKD", "full width": "digits, letters, signs, all of them", "white space": "17 white space characters around the string and in place of or next to every space", "brackets": "four kinds around the string and around every word group", "marks": "LRM and RLM around the string and at every boundary", "pairs": "1 in 21 of all pairs of two families, on every third string", "names": "every CLDR month name in upper, lower and decomposed form"},
		BoundsDeep: map[string]string{"pairs": "every third pair on every string, each pair on a third of the strings", "names": "every CLDR month and weekday name and formatted date in six forms"},
	})
	extraCmds["typeset"] = func([]string) {
		for _, b := range c22Base {
			dt, err := c22Parse(b.kind, b.s, "UTC")
			fmt.Printf("%-8s %-40s %s\n", b.kind, b.s, show(dt, err))
		}
		os.Exit(0)
	}
}

var c22Base = []struct{ kind, s string }{
	{"en", "18 June 2014"}, {"en", "June 18, 2014"}, {"en", "Wednesday, 18 June 2014 10:20:30 PM"}, {"en", "2014-06-18"}, {"en", "06/18/2014"}, {"en", "6.18.14"}, {"en", "2014-06-18 10:20:30"}, {"en", "2014-06-18T10:20:30+02:00"},
	{"en", "18 June 2014 10:20 UTC+3"}, {"en", "18 June 2014 10:20 EST"}, {"en", "June 2014"}, {"en", "June"}, {"en", "2014"}, {"en", "Wednesday"}, {"en", "10:20"}, {"en", "10:20:30.5"}, {"en", "5 pm"}, {"en", "29 Feb"}, {"en", "18 jun"},
	{"en", "2 days ago"}, {"en", "in 3 weeks"}, {"en", "yesterday"}, {"en", "tomorrow 10:20"}, {"en", "1 year, 2 months and 3 days ago"}, {"en", "2.5 hours ago"}, {"en", "now"}, {"en", "last month"}, {"en", "30 seconds"}, {"en", "a week ago"},
	{"en", "1403086830"}, {"en", "1403086830123"}, {"en", "1403086830123456"}, {"en", "-1403086830"},
	{"en", "06182014"}, {"en", "20140618"}, {"en", "20140618102030"},
	{"fr", "18 août 2014"}, {"fr", "1er février 2014 à 10:20"}, {"fr", "il y a 2 années"}, {"fr", "mercredi 18 décembre 2013"}, {"fr", "14/06/2014"},
	{"de", "18. März 2014"}, {"de", "vor 2 Stunden"}, {"de", "Samstag"}, {"de", "18.6.2014 10:20"},
	{"es", "18 de junio de 2014"}, {"es", "miércoles 18 de junio"}, {"es", "hace 2 días"},
	{"ru", "18 июня 2014"}, {"ru", "2 дня назад"}, {"ru", "вчера"}, {"ru", "18 мая 2014 г."},
	{"vi", "18 tháng 6 năm 2014"}, {"vi", "hôm qua"},
	{"hi", "18 जून 2014"}, {"hi", "2 दिन पहले"}, {"cs", "18. září 2014"}, {"cs", "před 2 dny"}, {"pl", "18 września 2014"}, {"pt", "18 de março de 2014"}, {"sv", "18 maj 2014"},
	{"ar", "18 يونيو 2014"}, {"he", "18 ביוני 2014"}, {"th", "18 มิถุนายน 2014"}, {"ko", "2014년 6월 18일"}, {"ja", "2014年6月18日"}, {"zh", "2014年6月18日"}, {"bn", "18 জুন 2014"}, {"el", "18 Ιουνίου 2014"}, {"uk", "18 червня 2014"},
	{"jalali", "28 خرداد 1393"}, {"jalaliY", "1393/03/28 10:20"}, {"jalali", "28/03/1393"}, {"jalali", "چهارشنبه 28 خرداد 1393"},
	{"hijri", "20/08/1435"}, {"hijri", "20-8-1435 10:20 مساء"},
}

func c22Parse(kind, s, zone string) (date.Date, error) {
	cfg := &dps.Configuration{CurrentTime: utc(2015, 7, 31, 12, 0, 0)}
	switch kind {
	case "jalali":
		return dps.ParseJalali(cfg, s)
	case "jalaliY":
		cfg.DateOrder = dps.YMD
		return dps.ParseJalali(cfg, s)
	case "hijri":
		return dps.ParseHijri(cfg, s)
	}
	cfg.Languages = []string{kind}
	return dps.Parse(cfg, s)
}

// digitScripts lists the zero of every decimal digit script of Unicode.
func digitScripts() []rune {
	var zs []rune
	n := 0
	last := rune(-2)
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if unicode.Is(unicode.Nd, r) {
			if r != last+1 {
				n = 0
			}
			if n%10 == 0 {
				zs = append(zs, r)
			}
			n++
			last = r
		}
	}
	return zs
}

// A word of its own in brackets: only where the words are parts of a date, not
// of an expression ("last month", "il y a").
var rxYear4 = regexp.MustCompile(`\b\d{4}\b|[٠-٩]{4}`)

func fullWidth(s string, which func(r rune) bool) string {
	return strings.Map(func(r rune) rune {
		if r > ' ' && r <= '~' && which(r) {
			return r - '!' + '！'
		}
		return r
	}, s)
}

type variant struct {
	family, name string
	f            func(kind, s string) string // "" if it does not apply
}

func c22Variants() []variant {
	var vs []variant
	add := func(family, name string, f func(kind, s string) string) { vs = append(vs, variant{family, name, f}) }
	for _, z := range digitScripts() {
		if z != '0' {
			add("digits", fmt.Sprintf("%U", z), func(_, s string) string { return digitsTo(s, z) })
		}
	}
	cased := func(f func(string) string) func(kind, s string) string {
		return func(kind, s string) string {
			if kind == "el" { // final sigma has no upper case of its own
				return ""
			}
			return f(s)
		}
	}
	add("case", "lower", cased(strings.ToLower))
	add("case", "upper", cased(strings.ToUpper))
	add("case", "title", cased(func(s string) string {
		prev := ' '
		return strings.Map(func(r rune) rune {
			l := unicode.IsLetter(prev) || unicode.Is(unicode.Mn, prev)
			prev = r
			if l {
				return unicode.ToLower(r)
			}
			return unicode.ToTitle(r)
		}, s)
	}))
	add("case", "mixed", cased(func(s string) string {
		i := 0
		return strings.Map(func(r rune) rune {
			i++
			if i%2 == 0 {
				return unicode.ToUpper(r)
			}
			return unicode.ToLower(r)
		}, s)
	}))
	for i, f := range []norm.Form{norm.NFC, norm.NFD, norm.NFKC, norm.NFKD} {
		add("form", []string{"NFC", "NFD", "NFKC", "NFKD"}[i], func(_, s string) string { return f.String(s) })
	}
	add("width", "digits", func(_, s string) string { return fullWidth(s, unicode.IsDigit) })
	add("width", "letters", func(_, s string) string { return fullWidth(s, unicode.IsLetter) })
	add("width", "signs", func(_, s string) string {
		return fullWidth(s, func(r rune) bool { return !unicode.IsDigit(r) && !unicode.IsLetter(r) })
	})
	add("width", "all", func(_, s string) string { return fullWidth(s, func(rune) bool { return true }) })
	for _, w := range []string{" ", "\t", "\n", "\r\n", "\v", "\f", "\u0085", "\u00a0", "\u1680", "\u2002", "\u2003", "\u2009", "\u200a", "\u202f", "\u205f", "\u3000", "\u2028", "   "} {
		q := fmt.Sprintf("%q", w)
		add("space", "before "+q, func(_, s string) string { return w + s })
		add("space", "after "+q, func(_, s string) string { return s + w })
		add("space", "around "+q, func(_, s string) string { return w + w + s + w + w })
		add("space", "instead "+q, func(_, s string) string { return strings.ReplaceAll(s, " ", w) })
		add("space", "next to "+q, func(_, s string) string { return strings.ReplaceAll(s, " ", w+" ") })
		add("space", "behind "+q, func(_, s string) string { return strings.ReplaceAll(s, " ", " "+w) })
	}
	for _, b := range []string{"()", "[]", "{}", "<>"} {
		l, r := b[:1], b[1:]
		add("bracket", b, func(_, s string) string { return l + s + r })
		add("bracket", "double "+b, func(_, s string) string { return l + l + s + r + r })
		add("bracket", "space "+b, func(_, s string) string { return l + " " + s + " " + r })
		add("bracket", "first word "+b, func(_, s string) string {
			if i := strings.Index(s, " "); i > 0 && rxYear4.MatchString(s) {
				return l + s[:i] + r + s[i:]
			}
			return ""
		})
		add("bracket", "last word "+b, func(_, s string) string {
			if i := strings.LastIndex(s, " "); i > 0 && rxYear4.MatchString(s) {
				return s[:i+1] + l + s[i+1:] + r
			}
			return ""
		})
	}
	for _, m := range []string{"\u200e", "\u200f"} {
		q := fmt.Sprintf("%q", m)
		add("mark", "before "+q, func(_, s string) string { return m + s })
		add("mark", "after "+q, func(_, s string) string { return s + m })
		add("mark", "around "+q, func(_, s string) string { return m + m + s + m + m })
		add("mark", "spaces "+q, func(_, s string) string { return strings.ReplaceAll(s, " ", m+" "+m) })
		add("mark", "separators "+q, func(_, s string) string {
			if strings.ContainsAny(s, "/") {
				return strings.ReplaceAll(s, "/", m+"/"+m)
			}
			return ""
		})
	}
	return vs
}

func runC22(c *Ctx) {
	vs := c22Variants()
	compare := func(key, kind, s string) {
		c.Case(key, func() string {
			var orig string
			for _, b := range c22Base {
				if strings.HasPrefix(key, b.kind+" "+fmt.Sprintf("%q", b.s)+" ") {
					orig = b.s
				}
			}
			want, werr := c22Parse(kind, orig, "UTC")
			got, err := c22Parse(kind, s, "UTC")
			c.Call(2)
			c.Outcome(show(got, err))
			if werr != nil {
				return werr.Error()
			}
			if err != nil || !want.Time.Equal(got.Time) || show(want, nil) != show(got, nil) {
				return fmt.Sprintf("%q means %s, %q means %s", orig, show(want, werr), s, show(got, err))
			}
			return ""
		})
	}
	for bi, b := range c22Base {
		for vi, v := range vs {
			s := v.f(b.kind, b.s)
			if s == "" || s == b.s {
				continue
			}
			key := fmt.Sprintf("%s %q %s %s", b.kind, b.s, v.family, v.name)
			compare(key, b.kind, s)
			if c.Quick && bi%3 != 0 {
				continue
			}
			for wi, w := range vs {
				if w.family <= v.family || v.family == "digits" && w.family == "form" || c.Quick && (wi+bi)%7 != 0 || (wi+vi+bi)%3 != 0 {
					continue
				}
				if s2 := w.f(b.kind, s); s2 != "" && s2 != s {
					compare(key+" "+w.family+" "+w.name, b.kind, s2)
				}
			}
		}
	}

	// every CLDR name of every locale, in other cases and forms
	unsup := map[string]bool{}
	if bt, err := os.ReadFile(tablePath(c, "names-unsupported.tsv")); err == nil {
		for _, l := range strings.Split(string(bt), "\n") {
			unsup[l] = true
		}
	}
	for ni, nc := range nameCases(tablePath(c, "names.jsonl")) {
		if nc.inherited || nc.kind == "x" || nc.kind == "d" && (c.Quick) || unsup[nc.l+"\t"+nc.kind+"\t"+nc.form] {
			continue
		}
		str, _, _ := nc.base()
		cfg := dps.Configuration{Locales: []string{nc.l}, CurrentTime: utc(2014, 6, 18, 10, 20, 30)}
		for _, v := range vs {
			switch {
			case v.family == "case", v.family == "form" && v.name != "NFC", v.name == "all", v.name == "instead \"\\u00a0\"", v.name == "()" && ni%4 == 0, v.name == "around \"\\u200f\"":
			case c.Quick:
				continue
			case v.family == "digits" && (nc.kind != "m" || ni%16 != 0), v.family == "space" && ni%8 != 0, v.family == "bracket" && strings.Contains(v.name, "word"):
				continue
			}
			if v.family == "case" && (strings.ToLower(strings.ToUpper(str)) != strings.ToLower(str) || c22NoCase[strings.Split(nc.l, "-")[0]]) {
				continue
			}
			s := v.f(nc.l, str)
			if s == "" || s == str {
				continue
			}
			c.Case(fmt.Sprintf("name %s %q %s %s", nc.l, str, v.family, v.name), func() string {
				cfg, cfg2 := cfg, cfg
				want, werr := dps.Parse(&cfg, str)
				got, err := dps.Parse(&cfg2, s)
				c.Call(2)
				c.Outcome(show(got, err))
				if werr == nil && show(want, nil) != show(got, err) {
					return fmt.Sprintf("%q means %s, %q means %s", str, show(want, werr), s, show(got, err))
				}
				return ""
			})
		}
	}
}

// Languages in which letter case is not that of Unicode's default tables.
var c22NoCase = map[string]bool{"tr": true, "az": true, "lt": true, "el": true, "crh": true}
