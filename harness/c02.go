package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	dps "github.com/markusmobius/go-dateparser"
)

func init() {
	register(&Check{ID: "C02", Run: runC02, Prep: histFresh, QuickSecs: 150, DeepSecs: 850,
		Statement:  "the result of a call equals that of the same call in a fresh process, whatever was called before",
		Assume:     []string{"TryPreviousLocales is off (C03 covers it)", "every case runs in a process that has run other cases before it: a difference is tried again in a process of its own, and reported with the whole history if it doesn't show there"},
		Bounds:     map[string]string{"calls": "140 calls over two Parsers and the package functions", "histories": "every call behind 16 histories of 60 to 400 further calls (all locales, other texts, other configurations, other searches); all of length 2; all of length 3 over 12 calls"},
		BoundsDeep: map[string]string{"calls": "140 calls over two Parsers and the package functions", "histories": "every call behind 16 histories of 60 to 400 further calls (all locales, other texts, other configurations, other searches); all of length 2; all of length 3 over 62 calls, and of length 4 over 16"},
	})
	extraCmds["c02"] = func(args []string) { // calls to make in this process, one after the other
		ops := histOps()
		st := &histState{}
		var out []string
		for _, a := range args {
			var i int
			fmt.Sscan(a, &i)
			out = append(out, ops[i].run(st))
		}
		bt, _ := json.Marshal(out)
		os.Stdout.Write(bt)
	}
}

// histState is what the calls of one history share.
type histState struct{ p [2]dps.Parser }

type histOp struct {
	name string
	run  func(*histState) string
	core int // 2: also in the longer histories, 3: in the longest
}

func histOps() []histOp {
	now := utc(2015, 7, 31, 12, 0, 0)
	var ops []histOp
	core := 0
	add := func(name string, run func(*histState) string) {
		ops = append(ops, histOp{fmt.Sprintf("%d:%s", len(ops), name), run, core})
		core = 0
	}
	type cfgf = func(*dps.Configuration)
	langs := func(l ...string) cfgf { return func(c *dps.Configuration) { c.Languages = l } }
	mk := func(fs []cfgf) *dps.Configuration {
		c := &dps.Configuration{CurrentTime: now}
		for _, f := range fs {
			f(c)
		}
		return c
	}
	parse := func(p int, text string, fs ...cfgf) {
		add(fmt.Sprintf("p%d %q", p, text), func(st *histState) string {
			st.p[p].ParserTypes, st.p[p].DetectLanguagesFunction = nil, nil
			return show(st.p[p].Parse(mk(fs), text))
		})
	}
	format := func(text, f string, fs ...cfgf) {
		add(fmt.Sprintf("%q as %q", text, f), func(st *histState) string {
			st.p[0].ParserTypes, st.p[0].DetectLanguagesFunction = nil, nil
			return show(st.p[0].Parse(mk(fs), text, f))
		})
	}
	search := func(p int, text string, fs ...cfgf) {
		add(fmt.Sprintf("search p%d %q", p, text), func(st *histState) string {
			st.p[p].ParserTypes, st.p[p].DetectLanguagesFunction = nil, nil
			return showSearch(st.p[p].Search(mk(fs), text))
		})
	}
	searchIn := func(lang, text string, fs ...cfgf) {
		add(fmt.Sprintf("search %s %q", lang, text), func(st *histState) string {
			st.p[0].ParserTypes, st.p[0].DetectLanguagesFunction = nil, nil
			r, err := st.p[0].SearchWithLanguage(mk(fs), lang, text)
			return showSearch(lang, r, err)
		})
	}
	// languages whose words have no, one or several translations
	core = 3
	parse(0, "le 18 juin 2014 à 10h20", langs("fr"))
	core = 2
	parse(1, "le 18 juin 2014 à 10h20", langs("fr"))
	core = 3
	parse(0, "mar 18 mar 2014", langs("fr"))
	core = 2
	parse(0, "18 sept 2014", langs("fr"))
	core = 2
	parse(0, "il y a 2 jours", langs("fr"))
	parse(0, "hier", langs("fr"))
	core = 2
	parse(0, "18 de junio de 2014 a las 10:20", langs("es"))
	core = 2
	parse(0, "18 июня 2014 г. в 10:20", langs("ru"))
	parse(0, "2 дня назад", langs("ru"))
	core = 3
	parse(0, "2014年6月18日 下午 3:20", langs("zh"))
	parse(0, "18 มิถุนายน 2014", langs("th"))
	parse(0, "18 tháng 6 năm 2014", langs("vi"))
	parse(0, "18. kesäkuuta 2014 klo 10.20", langs("fi"))
	parse(0, "18 t 2014", langs("fi"))
	parse(0, "18 يونيو 2014", langs("ar"))
	parse(0, "２０１４年６月１８日", langs("ja"))
	parse(0, "18 Haziran 2014", langs("tr"))
	parse(0, "18. Juni 2014 um 10:20 Uhr", langs("de"))
	parse(0, "18 juni 2014", langs("sv"))
	parse(0, "18 giugno 2014", langs("it"))
	parse(0, "18 Mac 2014", langs("ms"))
	// English, all kinds of readers
	core = 3
	parse(0, "June 18, 2014 at 10:20 pm EST", langs("en"))
	core = 2
	parse(0, "2 days and 3 hours ago", langs("en"))
	core = 2
	parse(0, "in 1 month", langs("en"))
	core = 2
	parse(0, "wednesday", langs("en"))
	parse(0, "june", langs("en"))
	parse(0, "10:20", langs("en"))
	core = 2
	parse(0, "1403086830", langs("en"))
	parse(0, "-1403086830", langs("en"))
	core = 2
	parse(0, "20140618", langs("en"))
	parse(0, "may 1st", langs("en"))
	parse(0, "noon", langs("en"))
	parse(0, "18 June 2014 10:20 UTC+3", langs("en"))
	parse(0, "18 June 2014 10:20 +0530", langs("en"))
	core = 2
	parse(0, "02/03/04", langs("en"))
	parse(0, "02/03/04", langs("en"), func(c *dps.Configuration) { c.DateOrder = func(string) string { return "YMD" } })
	core = 2
	parse(0, "02/03/04", langs("en"), func(c *dps.Configuration) { c.DateOrder = func(string) string { return "DMY" } })
	// configurations
	core = 3
	parse(0, "june", langs("en"), func(c *dps.Configuration) { c.PreferredDayOfMonth = dps.Last; c.PreferredDateSource = dps.Future })
	core = 2
	parse(0, "wednesday", langs("en"), func(c *dps.Configuration) { c.PreferredDateSource = dps.Past })
	parse(0, "2014", langs("en"), func(c *dps.Configuration) { c.PreferredMonthOfYear = dps.FirstMonth })
	parse(0, "10:20", langs("en"), func(c *dps.Configuration) { c.ReturnTimeAsPeriod = true })
	core = 2
	parse(0, "june", langs("en"), func(c *dps.Configuration) { c.StrictParsing = true })
	core = 2
	parse(0, "june 2014", langs("en"), func(c *dps.Configuration) { c.RequiredParts = []string{"day"} })
	core = 2
	parse(0, "18 June 2014 10:20", langs("en"), func(c *dps.Configuration) { c.DefaultTimezone = mustLoc("Asia/Tokyo") })
	parse(0, "yesterday", langs("en"), func(c *dps.Configuration) { c.CurrentTime = utc(1999, 3, 1, 1, 1, 1) })
	core = 3
	parse(0, "18 xyz June 2014", langs("en"), func(c *dps.Configuration) { c.SkipTokens = []string{"xyz"} })
	core = 2
	parse(0, "18 xyz June 2014", langs("en"))
	parse(0, "18 t June 2014", langs("en"))
	parse(0, "18 juin 2014", langs("en"), func(c *dps.Configuration) { c.DefaultLanguages = []string{"fr"} })
	core = 2
	parse(0, "18 juin 2014", langs("en"))
	parse(0, "02/03/2014", func(c *dps.Configuration) { c.Locales = []string{"en-GB"} })
	parse(0, "02/03/2014", func(c *dps.Configuration) { c.Languages = []string{"en", "fr"}; c.Region = "CA" })
	parse(0, "02/03/2014", func(c *dps.Configuration) { c.Languages = []string{"fr", "en"}; c.UseGivenOrder = true })
	core = 2
	parse(0, "02/03/2014")
	core = 2
	parse(0, "10 mar 2014")
	parse(1, "10 mar 2014")
	// formats
	core = 2
	format("18/06/14", "%d/%m/%y", langs("en"))
	format("18 juin", "%d %B", langs("fr"))
	core = 3
	format("le 18 juin 2014", "le %d %B %Y", langs("fr"))
	format("10:20", "%H:%M", langs("en"))
	format("17", "%d", langs("en"), func(c *dps.Configuration) { c.PreferredDateSource = dps.Future })
	format("18 de junio de 2014", "%d de %B de %Y", langs("es"))
	// errors
	core = 2
	parse(0, "nonsense", langs("en"))
	core = 2
	parse(0, "18 June 2014", langs("zz"))
	parse(0, "18 June 2014", func(c *dps.Configuration) { c.Locales = []string{"en", "en-GB"} })
	core = 2
	parse(0, "18 June 2014", langs("en"), func(c *dps.Configuration) { c.PreferredDateSource = 77 })
	parse(0, "31 February 2014", langs("en"))
	parse(0, "", langs("en"))
	// fields of the Parser
	types := func(text string, ts ...dps.ParserType) {
		add(fmt.Sprintf("types %v %q", ts, text), func(st *histState) string {
			st.p[0].ParserTypes, st.p[0].DetectLanguagesFunction = ts, nil
			return show(st.p[0].Parse(mk([]cfgf{langs("en")}), text))
		})
	}
	core = 2
	types("20140618", dps.NoSpacesTime)
	types("20140618", dps.AbsoluteTime)
	types("1403086830", dps.Timestamp)
	core = 2
	types("2 days ago", dps.AbsoluteTime, dps.RelativeTime)
	types("2 days ago", dps.ParserType(99))
	detect := func(text string, ls ...string) {
		add(fmt.Sprintf("detector %v %q", ls, text), func(st *histState) string {
			st.p[0].ParserTypes = nil
			st.p[0].DetectLanguagesFunction = func(string) []string { return ls }
			return show(st.p[0].Parse(mk(nil), text))
		})
	}
	core = 2
	detect("02/03/2014", "fr")
	detect("02/03/2014", "en")
	detect("18 juin 2014")
	add("types kept", func(st *histState) string { // what an earlier call left in the field
		st.p[0].DetectLanguagesFunction = nil
		st.p[0].ParserTypes = []dps.ParserType{dps.Timestamp, dps.RelativeTime}
		a := show(st.p[0].Parse(mk([]cfgf{langs("en")}), "1403086830"))
		return a + fmt.Sprint(st.p[0].ParserTypes)
	})
	// searching, with the cached character sets
	core = 3
	search(0, "Xqz 18 June 2014 flurb")
	core = 2
	search(1, "Xqz 18 June 2014 flurb")
	core = 3
	search(0, "їхав 18 червня 2014", langs("ru", "uk"))
	core = 2
	search(0, "їхав 18 червня 2014", langs("uk", "be"))
	core = 2
	search(0, "ыл 18 июня 2014", langs("ru", "uk"))
	core = 3
	search(0, "ыл 18 июня 2014", langs("en", "ru"))
	search(0, "ыл 18 июня 2014", langs("ru", "bg"))
	core = 2
	search(0, "ñu 18 de junio de 2014", langs("es", "pt"))
	search(0, "ñu 18 de junio de 2014", langs("es", "gl"))
	core = 2
	search(0, "ção 18 de junho de 2014", langs("es", "pt"))
	search(0, "œu 18 juin 2014", langs("fr", "en"))
	core = 2
	search(0, "2014年6月18日です", langs("ja", "zh"))
	core = 2
	search(0, "2014年6月18日", langs("zh", "ja"))
	search(1, "їхав 18 червня 2014", langs("ru", "uk"))
	search(0, "їхав 18 червня 2014")
	search(0, "中文 2014年6月18日")
	search(0, "ыл", langs("en", "fr"))
	search(0, "18 June 2014", langs("zz"))
	search(0, "Xqz 18 juin 2014", langs("en", "fr"), func(c *dps.Configuration) { c.UseGivenOrder = true })
	search(0, "18 June 2014 flurb yesterday", func(c *dps.Configuration) { c.Languages = []string{"en"} })
	core = 3
	add("search detector", func(st *histState) string {
		st.p[0].ParserTypes = nil
		st.p[0].DetectLanguagesFunction = func(string) []string { return []string{"uk", "ru"} }
		return showSearch(st.p[0].Search(mk(nil), "їхав 18 червня 2014"))
	})
	core = 2
	searchIn("fr", "le 18 juin 2014, mar 17 mar 1999")
	searchIn("vi", "18 tháng 6 năm 2014 flurb")
	searchIn("hu", "2014. június 18")
	searchIn("zh", "齉 2014年6月18日 龘")
	searchIn("en", "02/03/04 flurb", func(c *dps.Configuration) { c.DateOrder = func(string) string { return "DMY" } })
	core = 2
	searchIn("en", "flurb 02/03/04")
	searchIn("de", "(18. Juni 2014) flurb")
	searchIn("zz", "18 June 2014")
	add("search order, no now", func(st *histState) string {
		st.p[0].ParserTypes, st.p[0].DetectLanguagesFunction = nil, nil
		r, err := st.p[0].SearchWithLanguage(nil, "en", "18 June 2014 flurb 2 days ago")
		return showSearch("en", r, err)
	})
	// calendars
	jh := func(kind, text string, fs ...cfgf) {
		add(kind+fmt.Sprintf(" %q", text), func(*histState) string {
			if kind == "jalali" {
				return show(dps.ParseJalali(mk(fs), text))
			}
			return show(dps.ParseHijri(mk(fs), text))
		})
	}
	core = 2
	jh("jalali", "چهارشنبه ۲۸ خرداد ۱۳۹۳ ساعت ۱۰:۲۰")
	jh("jalali", "بیست و هشت خرداد هزار و سیصد و نود و سه")
	core = 3
	jh("jalali", "خرداد", func(c *dps.Configuration) { c.PreferredDayOfMonth = dps.First })
	core = 2
	jh("hijri", "20 شعبان 1435 10:20 م")
	jh("hijri", "20/08/1435", func(c *dps.Configuration) { c.DateOrder = func(string) string { return "DMY" } })
	jh("hijri", "20/08/1550")
	// package functions, zones
	add("pkg", func(*histState) string { return show(dps.Parse(mk([]cfgf{langs("en")}), "June 18, 2014 10:20 PST")) })
	core = 2
	add("pkg all", func(*histState) string { return show(dps.Parse(mk(nil), "02/03/2014")) })
	add("pkg search", func(*histState) string {
		return showSearch(dps.Search(mk([]cfgf{langs("ru", "uk")}), "їхав 18 червня 2014"))
	})
	core = 2
	add("pop", func(*histState) string { return fmt.Sprint(dps.PopTzOffset("10:20 EST UTC+3")) })
	add("pop none", func(*histState) string { return fmt.Sprint(dps.PopTzOffset("flurb")) })
	add("known", func(*histState) string {
		return fmt.Sprint(dps.IsKnownLocale("en-GB"), dps.IsKnownLocale("zz"))
	})
	// configurations that look alike
	skip := func(ts ...string) cfgf { return func(c *dps.Configuration) { c.SkipTokens = ts } }
	fl := langs("en")
	parse(0, "18 June flurb 2014", fl, skip("fl", "urb"))
	parse(0, "18 June flurb 2014", fl, skip("flurb"))
	parse(0, "18 June flurb 2014", fl, skip("fl urb"))
	parse(0, "18 June flurb 2014", fl, skip("fl,urb"))
	parse(0, "18 June fl urb 2014", fl, skip("urb", "fl"))
	searchIn("en", "18 June flurb 2014", skip("flurb"))
	parse(0, "18 June 2014 10:20", fl, func(c *dps.Configuration) { c.DefaultTimezone = time.FixedZone("XYZ", 3600) })
	parse(0, "18 June 2014 10:20", fl, func(c *dps.Configuration) { c.DefaultTimezone = time.FixedZone("XYZ", 7200) })
	parse(0, "18 June 2014 10:20 PST", fl, func(c *dps.Configuration) { c.DefaultTimezone = time.FixedZone("PST", 7200) })
	parse(0, "yesterday", fl, func(c *dps.Configuration) { c.CurrentTime = now.In(time.FixedZone("XYZ", 14*3600)) })
	parse(0, "yesterday", fl, func(c *dps.Configuration) { c.CurrentTime = now.In(time.FixedZone("XYZ", -13*3600)) })
	parse(0, "2 hours ago", fl, func(c *dps.Configuration) { c.CurrentTime = now.Add(7) })
	parse(0, "2 hours ago", fl)
	parse(0, "02/03/2014", langs("fr"), func(c *dps.Configuration) { c.Region = "CA" })
	parse(0, "02/03/2014", func(c *dps.Configuration) { c.Locales = []string{"fr-CA", "en"} })
	parse(0, "02/03/2014", func(c *dps.Configuration) { c.Locales = []string{"fr", "en-CA"} })
	format("18/06/14 7", "%d/%m/%y 7", fl)
	format("18/06/14", "%m/%d/%y", fl)
	format("06/07/14", "%m/%d/%y", fl)
	format("06/07/14", "%d/%m/%y", fl)
	// default and nil configurations
	add("nil cfg", func(st *histState) string {
		st.p[0].ParserTypes, st.p[0].DetectLanguagesFunction = nil, nil
		return show(st.p[0].Parse(nil, "18 June 2014 10:20"))
	})
	return ops
}

// histProcess makes the calls in a process of their own.
func histProcess(seq []int) []string {
	self, _ := os.Executable()
	args := []string{"c02"}
	for _, i := range seq {
		args = append(args, fmt.Sprint(i))
	}
	out, err := exec.Command(self, args...).Output()
	var res []string
	if err != nil || json.Unmarshal(out, &res) != nil {
		return []string{"process: " + fmt.Sprint(err)}
	}
	return res
}

// histFresh gives the result of every call in a process of its own.
func histFresh() any {
	fresh := make([]string, len(histOps()))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i := range fresh {
		wg.Add(1)
		sem <- true
		go func() {
			fresh[i] = histProcess([]int{i})[0]
			<-sem
			wg.Done()
		}()
	}
	wg.Wait()
	return fresh
}

func runC02(c *Ctx) {
	ops := histOps()
	var fresh []string
	loadPrep(&fresh)
	do := func(seq []int) {
		var names []string
		for _, i := range seq {
			names = append(names, ops[i].name)
		}
		c.Case(strings.Join(names, " ; "), func() string {
			st := &histState{}
			for k, i := range seq {
				got := ops[i].run(st)
				c.Call(1)
				c.Outcome(got)
				if want := fresh[i]; got != want {
					if res := histProcess(seq); len(res) == len(seq) && res[k] == want {
						return fmt.Sprintf("%s: %s, in a fresh process %s (behind all the cases of this worker before it, not behind this history alone)", ops[i].name, got, want)
					}
					return fmt.Sprintf("%s: %s, in a fresh process %s", ops[i].name, got, want)
				}
			}
			return ""
		})
	}
	seqs := func(min, n int, core int) {
		var idx []int
		for i, o := range ops {
			if o.core >= core {
				idx = append(idx, i)
			}
		}
		c.Max(fmt.Sprintf("calls_in_histories_of_%d", n), int64(len(idx)))
		cur := make([]int, n)
		var rec func(k int)
		rec = func(k int) {
			if k == n {
				do(append([]int{}, cur...))
				return
			}
			for _, i := range idx {
				cur[k] = i
				rec(k + 1)
			}
		}
		rec(0)
	}
	// long histories: every call once more behind hundreds of others
	long := func(name string, n int, call func(i int)) {
		c.Case("long: "+name, func() string {
			for i := 0; i < n; i++ {
				call(i)
			}
			c.Call(n)
			st := &histState{}
			for i, o := range ops {
				got := o.run(st)
				c.Call(1)
				c.Outcome(got)
				if got != fresh[i] {
					return fmt.Sprintf("%s: %s, in a fresh process %s", o.name, got, fresh[i])
				}
			}
			return ""
		})
	}
	now := utc(2015, 7, 31, 12, 0, 0)
	scale := 1
	if !c.Quick {
		scale = 8
	}
	locales := append(readLines(tablePath(c, "languages.txt")), readLines(tablePath(c, "locales.txt"))...)
	p := &dps.Parser{}
	for part := 0; part < 4; part++ {
		long(fmt.Sprint("locales ", part), len(locales)/4, func(i int) {
			l := locales[i*4+part]
			p.Parse(&dps.Configuration{CurrentTime: now, Locales: []string{l}}, "18 06 2014 10:20")
		})
		long(fmt.Sprint("texts ", part), 400*scale, func(i int) {
			t := now.AddDate(0, 0, i).Format([]string{"2 January 2006", "Monday 2 Jan 2006 15:04", "01/02/2006", "January 2 2006 3:04 PM -0700"}[part])
			p.Parse(&dps.Configuration{CurrentTime: now, Languages: []string{"en"}}, t)
		})
		long(fmt.Sprint("configurations ", part), 250*scale, func(i int) {
			cfg := &dps.Configuration{CurrentTime: now.Add(time.Duration(i) * time.Hour), Languages: []string{"en"}}
			switch part {
			case 0:
				cfg.SkipTokens = []string{fmt.Sprint("skip", i)}
			case 1:
				cfg.DefaultTimezone = time.FixedZone("XYZ", i*60)
			case 2:
				cfg.Languages = []string{"en", []string{"fr", "de", "es", "ru", "it", "pt", "nl"}[i%7]}
				cfg.Region = []string{"", "CA", "GB", "AU"}[i%4]
			case 3:
				p.Parse(cfg, "17 06 2014", fmt.Sprintf("%%d %%m %%Y %d", i), "%d %m %Y")
			}
			p.Parse(cfg, "18 June skip1 2014 10:20")
		})
		long(fmt.Sprint("searches ", part), 60*scale, func(i int) {
			t := now.AddDate(0, 0, i).Format("2 January 2006")
			switch part {
			case 0:
				p.SearchWithLanguage(&dps.Configuration{CurrentTime: now}, "en", "it was "+t)
			case 1:
				l := []string{"ru", "uk", "bg", "be", "mk", "sr", "kk", "ky"}
				p.Search(&dps.Configuration{CurrentTime: now, Languages: []string{l[i%8], l[(i/8)%8]}}, "18 июня 2014")
			case 2:
				l := []string{"en", "fr", "de", "es", "it", "pt", "nl", "sv"}
				p.Search(&dps.Configuration{CurrentTime: now, Languages: []string{l[i%8], l[(i/8)%8]}}, "on "+t)
			case 3:
				dps.ParseJalali(&dps.Configuration{CurrentTime: now.AddDate(0, 0, i)}, "خرداد")
				dps.ParseHijri(&dps.Configuration{CurrentTime: now.AddDate(0, 0, i)}, "20 شعبان 1435")
			}
		})
	}
	seqs(1, 1, 0)
	seqs(2, 2, 0)
	if c.Quick {
		seqs(3, 3, 3)
		return
	}
	seqs(4, 4, 3)
	seqs(3, 3, 2)
}
