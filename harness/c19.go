package main

import (
	"fmt"
	"os"
	"strings"
	"time"
	"unicode"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C19", Run: runC19, QuickSecs: 150, DeepSecs: 850,
		Statement:  "searching a text finds the dates planted in it, exactly and in order, and reports text that is there",
		Assume:     []string{"the filler words are in no dictionary of the language", "(language, date) rows of tables/search-unsupported.tsv are outside the domain", "the README calls searching limited: dates without anything between them, and dates behind a colon or in dots in languages that end sentences with dots after numbers, are outside the domain"},
		Bounds:     map[string]string{"sentences": "17 languages x 4-9 date forms x 22 frames with one date; all pairs of forms x 9 gaps; triples of forms x gaps (rotating)", "every locale": "every supported CLDR month name of every language in 3 frames", "arbitrary": "all sequences of up to 3 of 24 tokens in 6 languages, invariants only", "order": "ambiguous numeric dates x 7 date orders x 8 languages", "detection": "Search against SearchWithLanguage of the detected language over the one-date sentences", "relative": "all sequences of up to 4 dates and relative expressions without CurrentTime"},
		BoundsDeep: map[string]string{"sentences": "all pairs and triples", "arbitrary": "sequences of up to 4", "every locale": "in 10 frames"},
	})
	extraCmds["searchsurvey"] = func(args []string) { c19Survey(args[0]) }
}

type c19Lang struct {
	lang    string
	fill    [2]string
	dates   []string // all of them mean 18 June 2014, some with a time
	nospace bool
}

var c19Langs = []c19Lang{
	{"en", [2]string{"Xqzzle", "flurb"}, []string{"18 June 2014", "June 18, 2014", "2014-06-18", "06/18/2014", "Wednesday, June 18, 2014", "18 June 2014 10:20", "June 18th, 2014 at 10:20 pm", "18 Jun 2014", "2014/06/18 10:20:30", "18 June 2014 12:30 am", "18 June 2014 10:20 UTC+3"}, false},
	{"fr", [2]string{"Xqzzle", "flurbe"}, []string{"18 juin 2014", "mercredi 18 juin 2014", "18/06/2014", "18 juin 2014 10:20", "2014-06-18"}, false},
	{"de", [2]string{"Xqzzle", "Flurb"}, []string{"18. Juni 2014", "Mittwoch, 18. Juni 2014", "18.06.2014", "18 Juni 2014 10:20", "2014-06-18"}, false},
	{"es", [2]string{"Xqzzle", "flurbo"}, []string{"18 de junio de 2014", "18/06/2014", "miércoles 18 de junio de 2014", "18 junio 2014 10:20"}, false},
	{"it", [2]string{"Xqzzle", "flurbo"}, []string{"18 giugno 2014", "18/06/2014", "mercoledì 18 giugno 2014", "18 giugno 2014 10:20"}, false},
	{"pt", [2]string{"Xqzzle", "flurbo"}, []string{"18 de junho de 2014", "18/06/2014", "18 junho 2014 10:20"}, false},
	{"nl", [2]string{"Xqzzle", "flurb"}, []string{"18 juni 2014", "18-06-2014", "woensdag 18 juni 2014", "18 juni 2014 10:20"}, false},
	{"ru", [2]string{"Ъщдлрп", "ыыгхрм"}, []string{"18 июня 2014", "18 июня 2014 10:20", "среда, 18 июня 2014", "18 июня 2014 года", "18/06/2014"}, false},
	{"uk", [2]string{"Ъщдлрп", "ьгхрм"}, []string{"18 червня 2014", "18 червня 2014 10:20", "18/06/2014"}, false},
	{"pl", [2]string{"Xqzzle", "flurb"}, []string{"18 czerwca 2014", "18 czerwca 2014 10:20", "18/06/2014"}, false},
	{"cs", [2]string{"Xqzzle", "flurb"}, []string{"18. června 2014", "18. června 2014 10:20", "18.06.2014"}, false},
	{"sv", [2]string{"Xqzzle", "flurb"}, []string{"18 juni 2014", "onsdag 18 juni 2014", "2014-06-18"}, false},
	{"tr", [2]string{"Xqzzle", "flurb"}, []string{"18 Haziran 2014", "18 Haziran 2014 10:20", "18/06/2014"}, false},
	{"vi", [2]string{"Xqzzle", "flurb"}, []string{"18 tháng 6 năm 2014", "18/06/2014"}, false},
	{"hu", [2]string{"Xqzzle", "flurb"}, []string{"2014. június 18", "2014-06-18"}, false},
	{"ar", [2]string{"ظظغض", "ضضثغ"}, []string{"18 يونيو 2014", "18/06/2014"}, false},
	{"ja", [2]string{"ヱヰ", "ゑゐ"}, []string{"2014年6月18日", "2014-06-18"}, true},
	{"zh", [2]string{"齉龘", "龖靐"}, []string{"2014年6月18日", "2014-06-18"}, true},
}

var c19Frames = []string{"%s", "%[2]s %[1]s %[3]s", "%[2]s %[1]s.", "%[2]s. %[1]s. %[3]s", "(%s) %[2]s", "%[2]s (%[1]s) %[3]s", "%[2]s, %[1]s, %[3]s", "%[2]s - %[1]s - %[3]s", "%[2]s\n%[1]s\n%[3]s", "%[2]s: %[1]s; %[3]s", "[%s] %[2]s", "%[2]s \"%[1]s\" %[3]s", "%[2]s %[1]s!", "%[2]s? %[1]s?", "  %[2]s   %[1]s   %[3]s  ", "%[2]s\t%[1]s\t%[3]s", "%[2]s %[3]s %[2]s %[1]s %[3]s %[2]s", "%[2]s %[1]s, %[3]s", "%[2]s, %[1]s %[3]s", "%[2]s; %[1]s", "{%s}, %[2]s", "%[1]s, %[2]s"}
var c19Gaps = []string{" %[2]s ", ", %[2]s ", ". %[2]s ", " %[2]s, ", " (%[2]s) ", " - %[2]s - ", "\n%[2]s\n", " %[2]s %[3]s ", "! %[2]s: "}

// expand fills a frame; fmt's complaints about unused arguments are avoided.
func expand(f, d string, l c19Lang) string {
	return strings.NewReplacer("%[1]s", d, "%[2]s", l.fill[0], "%[3]s", l.fill[1], "%s", d).Replace(f)
}

func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

// c19Invariant says what is wrong with the results whatever the text is.
func c19Invariant(lang, text string, rs []dps.SearchResult) string {
	t := squeeze(text)
	pos := 0
	for _, r := range rs {
		if r.Date.IsZero() || r.Date.Time.IsZero() {
			return fmt.Sprintf("zero date for %q", r.Text)
		}
		if r.Date.Locale != lang {
			return fmt.Sprintf("locale %q reported for %q, want %q", r.Date.Locale, r.Text, lang)
		}
		if strings.TrimSpace(r.Text) == "" {
			return "empty text"
		}
		i := strings.Index(t[pos:], squeeze(r.Text))
		if i < 0 {
			return fmt.Sprintf("%q is not in the text, or not behind the results before it", r.Text)
		}
		pos += i
	}
	return ""
}

func c19Rotate(d string, k int) string { // another day, for texts with several dates
	day := []string{"18", "17", "16", "12"}[k]
	year := []string{"2014", "1999", "2031", "2008"}[k]
	s := strings.Replace(d, "18", day, 1)
	if strings.Contains(d, "T") {
		s = d
	}
	s = strings.Replace(s, "2014", year, 1)
	// a weekday that is not that day's would do no harm, but spare the reader
	return s
}

var c19Now = utc(2015, 7, 31, 12, 0, 0)

func c19Parse(l c19Lang, s string, order dps.DateOrder) (date.Date, error) {
	return (&dps.Parser{}).Parse(&dps.Configuration{Locales: []string{l.lang}, CurrentTime: c19Now, DateOrder: order}, s)
}

// c19Planted checks that exactly the planted dates are found.
func c19Planted(l c19Lang, text string, planted []string, rs []dps.SearchResult, err error, order dps.DateOrder) string {
	if err != nil {
		return "error: " + err.Error()
	}
	if bad := c19Invariant(l.lang, text, rs); bad != "" {
		return bad
	}
	if len(rs) != len(planted) {
		return fmt.Sprintf("%d dates planted, found %s", len(planted), showSearch(l.lang, rs, nil))
	}
	pos := 0
	for i, d := range planted {
		want, werr := c19Parse(l, d, order)
		if t, err := time.Parse("2006-01-02", d); err == nil && werr != nil {
			want, werr = date.Date{Time: t, Period: date.Day}, nil // not in the order of every language, but plain
		}
		if werr != nil {
			return "harness: " + d + " is not a date"
		}
		if !want.Time.Equal(rs[i].Date.Time) || want.Time.Format("-0700") != rs[i].Date.Time.Format("-0700") || want.Period != rs[i].Date.Period {
			return fmt.Sprintf("%q alone is %s, found %s", d, show(want, nil), show(rs[i].Date, nil))
		}
		// the reported text is where the date is, and only it and its prepositions
		at := strings.Index(squeeze(text)[pos:], squeeze(d))
		if !strings.Contains(squeeze(rs[i].Text), strings.TrimRight(squeeze(d), ".日")) {
			return fmt.Sprintf("%q is found as %q", d, rs[i].Text)
		}
		for _, f := range l.fill {
			// where words aren't separated the library splits at random, and may take one more word in
			if !l.nospace && strings.Contains(strings.ToLower(rs[i].Text), strings.ToLower(f)) {
				return fmt.Sprintf("%q is reported with the words around it: %q", d, rs[i].Text)
			}
		}
		pos += at + len(squeeze(d))
	}
	return ""
}

func c19NowCfg(order dps.DateOrder) *dps.Configuration {
	return &dps.Configuration{CurrentTime: c19Now, DateOrder: order}
}

// c19Names are the month-name dates of every language.
func c19Names(path string) []c19Lang {
	var out []c19Lang
	seen := map[string]bool{}
	for _, nc := range nameCases(path) {
		if nc.kind != "m" || nc.inherited || seen[nc.l+nc.form] {
			continue
		}
		seen[nc.l+nc.form] = true
		out = append(out, c19Lang{lang: nc.l, fill: [2]string{"Xqzzle", "ΞΨΞ"}, dates: []string{"17 " + nc.form + " 2014"}})
	}
	return out
}

var c19NameFrames = []string{"%[2]s %[1]s %[3]s", "%[1]s", "%[2]s (%[1]s) %[3]s", "%[2]s, %[1]s, %[3]s", "%[2]s\n%[1]s\n%[3]s", "%[2]s \"%[1]s\"", "%[2]s - %[1]s - %[3]s", "%[2]s; %[1]s; %[3]s", "%[2]s %[1]s!", "[%[1]s] %[3]s"}

// c19Survey writes which rows of the alphabets the released code does not find.
func c19Survey(verif string) {
	c := &Ctx{Verif: verif}
	unsup := map[string]bool{}
	for _, l := range readLines(tablePath(c, "names-unsupported.tsv")) {
		unsup[l] = true
	}
	w, _ := os.Create(tablePath(c, "search-unsupported.tsv"))
	defer w.Close()
	p := &dps.Parser{}
	for _, l := range append(append([]c19Lang{}, c19Langs...), c19Names(tablePath(c, "names.jsonl"))...) {
		for _, d := range l.dates {
			if unsup[l.lang+"\tm\t"+strings.TrimSuffix(strings.TrimPrefix(d, "17 "), " 2014")] {
				continue
			}
			ok := true
			for _, f := range c19NameFrames[:5] {
				t := expand(f, d, l)
				rs, err := p.SearchWithLanguage(c19NowCfg(nil), l.lang, t)
				if c19Planted(l, t, []string{d}, rs, err, nil) != "" {
					ok = false
				}
			}
			if !ok {
				fmt.Fprintf(w, "%s\t%s\n", l.lang, d)
			}
		}
	}
	os.Exit(0)
}

func runC19(c *Ctx) {
	cross(c, crossInputs("C19"))
	unsup := map[string]bool{}
	for _, f := range []string{"names-unsupported.tsv", "search-unsupported.tsv"} {
		for _, l := range readLines(tablePath(c, f)) {
			unsup[l] = true
		}
	}
	search := func(l c19Lang, text string, order dps.DateOrder) ([]dps.SearchResult, error) {
		c.Call(1)
		return (&dps.Parser{}).SearchWithLanguage(c19NowCfg(order), l.lang, text)
	}
	for _, l := range c19Langs {
		var dates []string
		for _, d := range l.dates {
			if !unsup[l.lang+"\t"+d] {
				dates = append(dates, d)
			}
		}
		l.dates = dates
		// one date
		for _, d := range l.dates {
			for fi, f := range c19Frames {
				text := expand(f, d, l)
				key := fmt.Sprintf("one %s %q", l.lang, text)
				c.Case(key, func() string {
					rs, err := search(l, text, nil)
					c.Outcome(showSearch(l.lang, rs, err))
					return c19Planted(l, text, []string{d}, rs, err, nil)
				})
				// detection
				for _, ls := range [][]string{{l.lang}, {l.lang, "en"}, {"en", "fr", "ru", l.lang}, nil} {
					if ls == nil && c.Quick && fi > 3 {
						continue
					}
					c.Case(fmt.Sprintf("detect %q %q", ls, text), func() string {
						cfg := c19NowCfg(nil)
						cfg.Languages = ls
						lang, rs, err := (&dps.Parser{}).Search(cfg, text)
						c.Call(2)
						c.Outcome(showSearch(lang, rs, err))
						if err != nil {
							return "error: " + err.Error()
						}
						if len(ls) == 1 && lang != l.lang {
							return "detected " + lang
						}
						if bad := c19Invariant(lang, text, rs); bad != "" {
							return bad
						}
						want, werr := (&dps.Parser{}).SearchWithLanguage(c19NowCfg(nil), lang, text)
						if lang == l.lang {
							if bad := c19Planted(l, text, []string{d}, rs, err, nil); bad != "" {
								return bad
							}
						}
						if showSearch(lang, rs, err) != showSearch(lang, want, werr) {
							return fmt.Sprintf("Search finds %s, SearchWithLanguage %s", showSearch(lang, rs, err), showSearch(lang, want, werr))
						}
						return ""
					})
				}
			}
		}
		// two and three dates
		for a := range l.dates {
			for b := range l.dates {
				for gi, g := range c19Gaps {
					if l.nospace && strings.Contains(g, ",") {
						continue // the library may take the comma and the words behind it for a part of a date
					}
					da, db := c19Rotate(l.dates[a], 0), c19Rotate(l.dates[b], 1)
					for _, fr := range []string{"%[2]s %[1]s %[3]s", "%[1]s"} {
						text := expand(fr, da+expand(g, "", l)+db, l)
						c.Case(fmt.Sprintf("two %s %q", l.lang, text), func() string {
							rs, err := search(l, text, nil)
							c.Outcome(showSearch(l.lang, rs, err))
							return c19Planted(l, text, []string{da, db}, rs, err, nil)
						})
					}
					for d := range l.dates {
						if c.Quick && (a > 2 || b > 2 || d > 2 || gi > 2) {
							continue
						}
						dc := c19Rotate(l.dates[d], 2)
						g2 := c19Gaps[(gi+a+d)%len(c19Gaps)]
						if l.nospace {
							g2 = c19Gaps[0]
						}
						text := expand("%[3]s %[1]s %[2]s", da+expand(g, "", l)+db+expand(g2, "", l)+dc, l)
						c.Case(fmt.Sprintf("three %s %q", l.lang, text), func() string {
							rs, err := search(l, text, nil)
							c.Outcome(showSearch(l.lang, rs, err))
							return c19Planted(l, text, []string{da, db, dc}, rs, err, nil)
						})
					}
				}
			}
		}
	}
	// every locale's months
	for _, l := range c19Names(tablePath(c, "names.jsonl")) {
		d := l.dates[0]
		form := strings.TrimSuffix(strings.TrimPrefix(d, "17 "), " 2014")
		if unsup[l.lang+"\tm\t"+form] || unsup[l.lang+"\t"+d] {
			continue
		}
		frames := c19NameFrames[:3]
		if !c.Quick {
			frames = c19NameFrames
		}
		for _, f := range frames {
			text := expand(f, d, l)
			c.Case(fmt.Sprintf("name %s %q", l.lang, text), func() string {
				rs, err := search(l, text, nil)
				c.Outcome(showSearch(l.lang, rs, err))
				return c19Planted(l, text, []string{d}, rs, err, nil)
			})
		}
	}
	// ambiguous numbers and date orders
	for _, l := range c19Langs {
		for _, d := range []string{"05/06/2014", "05-06-2014", "2014/05/06", "05/06/07", "5/6/2014 10:20"} {
			for oi, o := range append([]dps.DateOrder{nil}, c19Orders()...) {
				for _, f := range []string{"%[2]s %[1]s %[3]s", "%[2]s (%[1]s)", "%[1]s, %[2]s"} {
					text := expand(f, d, l)
					c.Case(fmt.Sprintf("order %s %d %q", l.lang, oi, text), func() string {
						rs, err := search(l, text, o)
						c.Outcome(showSearch(l.lang, rs, err))
						return c19Planted(l, text, []string{d}, rs, err, o)
					})
				}
			}
		}
	}
	// arbitrary texts
	alph := map[string][]string{
		"en":  {"18", "June", "2014", "2014-06-18", "10:20", "pm", "am", "2", "days", "ago", "in", "Wednesday", "UTC", "flurb", ",", ".", "(", ")", "-", "and", "at", "yesterday", "1403086830", "EST"},
		"fr":  {"18", "juin", "2014", "18/06/2014", "10:20", "mar", "mer", "2", "jours", "il y a", "dans", "mercredi", "hier", "flurb", ",", ".", "(", ")", "-", "et", "à", "le", "20140618", "sept"},
		"ru":  {"18", "июня", "2014", "года", "г.", "10:20", "2", "дня", "назад", "через", "среда", "вчера", "ъщд", ",", ".", "(", ")", "-", "и", "в", "сент", "мая", "18.06.2014", "час"},
		"zh":  {"18", "日", "2014", "年", "6", "月", "10:20", "2", "天", "前", "星期三", "昨天", "龘", ",", "。", "(", ")", "-", "和", "在", "2014年6月18日", "下午", "小时", "周"},
		"th":  {"18", "มิถุนายน", "2014", "2557", "10:20", "2", "วัน", "ที่แล้ว", "วันพุธ", "เมื่อวาน", "ฮฮฮ", ",", ".", "(", ")", "-", "และ", "ใน", "18/06/2014", "น.", "ชั่วโมง", "ก่อน", "เดือน", "ปี"},
		"yue": {"18", "日", "2014", "年", "6", "月", "10:20", "2", "天", "前", "星期三", "尋日", "龘", ",", "。", "(", ")", "-", "同", "喺", "2014年6月18日", "下晝", "小時", "週"},
		"vi":  {"18", "tháng", "6", "năm", "2014", "18/06/2014", "10:20", "2", "ngày", "trước", "thứ", "tư", "hôm", "qua", "flurb", ",", ".", "(", ")", "-", "và", "lúc", "giờ", "chủ nhật"},
	}
	for _, lang := range []string{"en", "fr", "ru", "zh", "th", "yue", "vi"} {
		depth, few, fewer := 3, 10, 4
		if c.Quick {
			depth, few, fewer = 2, 8, 3
		}
		var small []string // every other token, so that there are some of each kind
		for i := 0; i < 2*few; i += 2 {
			small = append(small, alph[lang][i])
		}
		each := func(f func([]string)) {
			lists(alph[lang], depth, f)
			lists(small, fewer, func(seq []string) {
				if len(seq) > depth {
					f(seq)
				}
			})
		}
		each(func(seq []string) {
			for si, sep := range []string{" ", ""} {
				if si == 1 && (len(seq) < 2 || len(seq) > 2 && lang != "zh" && lang != "yue" && lang != "th") {
					continue
				}
				text := strings.Join(seq, sep)
				c.Case(fmt.Sprintf("any %s %q", lang, text), func() string {
					rs, err := search(c19Lang{lang: lang}, text, nil)
					c.Outcome(showSearch(lang, rs, err))
					if err != nil {
						return "error: " + err.Error()
					}
					return c19Invariant(lang, text, rs)
				})
			}
		})
	}
	// relative dates without CurrentTime refer to the last date before them
	units := []struct {
		s   string
		rel func(time.Time) time.Time
	}{
		{"18 June 2014", nil}, {"2 March 1999", nil}, {"2 days ago", func(t time.Time) time.Time { return t.AddDate(0, 0, -2) }}, {"in 3 weeks", func(t time.Time) time.Time { return t.AddDate(0, 0, 21) }}, {"yesterday", func(t time.Time) time.Time { return t.AddDate(0, 0, -1) }},
	}
	abs := map[string]time.Time{"18 June 2014": utc(2014, 6, 18, 0, 0, 0), "2 March 1999": utc(1999, 3, 2, 0, 0, 0)}
	var names []string
	for _, u := range units {
		names = append(names, u.s)
	}
	lists(names, 4, func(seq []string) {
		if len(seq) == 0 {
			return
		}
		text := "Xqzzle " + strings.Join(seq, " flurb ") + " flurb"
		c.Case(fmt.Sprintf("base %q", text), func() string {
			t0 := time.Now().UTC()
			rs, err := (&dps.Parser{}).SearchWithLanguage(nil, "en", text)
			c.Call(1)
			t1 := time.Now().UTC()
			if err != nil || len(rs) != len(seq) {
				return fmt.Sprintf("found %s (%v)", showSearch("en", rs, err), err)
			}
			if bad := c19Invariant("en", text, rs); bad != "" {
				return bad
			}
			var base time.Time
			for k, s := range seq {
				got := rs[k].Date.Time
				if t, ok := abs[s]; ok {
					if !got.Equal(t) {
						return fmt.Sprintf("%q is %v", s, got)
					}
					base = t
					continue
				}
				for _, u := range units {
					if u.s != s {
						continue
					}
					lo, hi := u.rel(base), u.rel(base)
					if base.IsZero() {
						lo, hi = u.rel(t0.Add(-time.Microsecond)), u.rel(t1.Add(time.Microsecond))
					}
					if got.Before(lo) || got.After(hi) {
						return fmt.Sprintf("%q in %q is %v, want %v (relative to the last date before it, or now)", s, text, got, lo)
					}
				}
			}
			c.Outcome(strings.Join(seq, "|"))
			return ""
		})
	})
}

func c19Orders() []dps.DateOrder {
	return []dps.DateOrder{dps.YMD, dps.YDM, dps.MYD, dps.MDY, dps.DYM, dps.DMY}
}
