package main

import (
	"fmt"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C16", Run: runC16, QuickSecs: 120, DeepSecs: 800,
		Statement:  "every Jalali day converts to its Gregorian day, however it is written",
		Assume:     []string{"the first day of every Jalali year is taken from ICU (tables/jalali.tsv); month lengths are 31x6, 30x5 and the rest", "a two-digit year is 1361-1460", "numeric dates are written in the configured order (day, month, year by default)"},
		Bounds:     map[string]string{"days": "every day of 1206-1500 (107747 days) in one of ten notations each, rotating; every day of 8 years in all notations", "notations": "three digit scripts, padded or not, three separators, six orders, month names (all spellings), weekday names, number words, two-digit years, clock times in figures and words, zones, strictness"},
		BoundsDeep: map[string]string{"days": "every day of 1206-1500 in every notation"},
	})
}

var jalMonths = [][]string{{"فروردین"}, {"اردیبهشت"}, {"خرداد"}, {"تیر"}, {"مرداد", "امرداد"}, {"شهریور", "شهريور"}, {"مهر"}, {"آبان", "ابان"}, {"آذر", "اذر"}, {"دی"}, {"بهمن"}, {"اسفند"}}

// Saturday first, as the Persian week does
var jalWeekdays = [][]string{{"شنبه"}, {"یکشنبه"}, {"دوشنبه"}, {"سه شنبه", "سه‌شنبه"}, {"چهارشنبه", "چهار شنبه"}, {"پنجشنبه", "پنج شنبه"}, {"جمعه"}}

var jalUnits = []string{"", "یک", "دو", "سه", "چهار", "پنج", "شش", "هفت", "هشت", "نه", "ده", "یازده", "دوازده", "سیزده", "چهارده", "پانزده", "شانزده", "هفده", "هجده", "نوزده"}

func jalDayWord(d int, ordinal bool) string {
	w := ""
	switch {
	case d == 30:
		w = "سی"
		if ordinal {
			return "سی ام"
		}
	case d == 31:
		w = "سی و یک"
	case d == 20:
		w = "بیست"
	case d > 20:
		w = "بیست و " + jalUnits[d-20]
	default:
		w = jalUnits[d]
	}
	if !ordinal {
		return w
	}
	if strings.HasSuffix(w, "سه") && d != 20 {
		return strings.TrimSuffix(w, "سه") + "سوم"
	}
	return w + "م"
}

func jalMonthLen(m, yearLen int) int {
	if m <= 6 {
		return 31
	}
	if m < 12 {
		return 30
	}
	return yearLen - 336
}

func digitsTo(s string, zero rune) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return zero + r - '0'
		}
		return r
	}, s)
}

func runC16(c *Ctx) {
	cross(c, crossInputs("C16"))
	start := map[int]time.Time{}
	for _, l := range readLines(tablePath(c, "jalali.tsv")) {
		var y int
		var iso string
		if n, _ := fmt.Sscanf(l, "%d\t%s", &y, &iso); n == 2 {
			start[y], _ = time.Parse("2006-01-02", iso)
		}
	}
	ny := mustLoc("America/New_York")
	teh := mustLoc("Asia/Tehran")
	const variants = 10
	one := func(y, m, d int, g time.Time, v, n int) {
		c.Case(fmt.Sprintf("%d/%d/%d v%d n%d", y, m, d, v, n), func() string {
			cfg := &dps.Configuration{CurrentTime: utc(2014, 6, 18, 10, 20, 30)}
			loc := time.UTC
			h, mi, s, ns := 0, 0, 0, 0
			per := date.Day
			month := jalMonths[m-1][n%len(jalMonths[m-1])]
			str := ""
			sep := []string{"/", "-", ".", " "}[n%4]
			switch v {
			case 0:
				str = fmt.Sprintf("%d%s%d%s%04d", d, sep, m, sep, y)
			case 1:
				str = digitsTo(fmt.Sprintf("%02d%s%02d%s%04d", d, sep, m, sep, y), '۰')
			case 2:
				o := allOrders[n%6]
				cfg.DateOrder = orderFn(o)
				str = strings.NewReplacer("D", fmt.Sprintf("%02d ", d), "M", fmt.Sprintf("%02d ", m), "Y", fmt.Sprintf("%04d ", y)).Replace(o)
				str = strings.ReplaceAll(strings.TrimSpace(str), " ", sep)
				if n%2 == 0 {
					str = digitsTo(str, '٠')
				}
			case 3:
				str = fmt.Sprintf("%d %s %d", d, month, y)
				if n%2 == 1 {
					str = digitsTo(fmt.Sprintf("%s %02d، %d", month, d, y), '۰')
				}
			case 4:
				wds := jalWeekdays[(int(g.Weekday())+1)%7]
				str = fmt.Sprintf("%s %d %s %d", wds[n%len(wds)], d, month, y)
				if n%3 == 0 {
					str = digitsTo(str, '۰')
				}
				cfg.StrictParsing = n%2 == 0
			case 5:
				str = jalDayWord(d, true) + " " + month + fmt.Sprintf(" %d", y)
				if d == 1 && n%2 == 0 {
					str = fmt.Sprintf("اول %s %d", month, y)
				}
				if n%3 == 0 {
					wds := jalWeekdays[(int(g.Weekday())+1)%7]
					str = wds[0] + " " + digitsTo(str, '۰')
				}
			case 6:
				h, mi = (n*7+d)%24, (n*11+y)%60
				clock := fmt.Sprintf("%d:%02d", h, mi)
				if n%2 == 0 {
					s = n % 60
					clock = fmt.Sprintf("%02d:%02d:%02d", h, mi, s)
				}
				str = fmt.Sprintf("%d %s %d ساعت %s", d, month, y, clock)
				if n%3 == 0 {
					str = digitsTo(str, '۰')
				}
				if n%5 == 0 {
					cfg.ReturnTimeAsPeriod, per = true, date.Minute
					if n%2 == 0 {
						per = date.Second
					}
				}
			case 7:
				h, mi = 10+(n*5+d)%14, (n*13+d)%60
				str = fmt.Sprintf("%d %s %d ساعت %02d و %02d دقیقه", d, month, y, h, mi)
				if n%2 == 0 {
					s = (n * 3) % 60
					str += fmt.Sprintf(" و %02d ثانیه", s)
				}
			case 8:
				// two-digit year, or zones
				if y >= 1361 && y <= 1460 && n%2 == 0 {
					str = fmt.Sprintf("%d %s %02d", d, month, y%100)
				} else {
					h, mi = n%24, n%60
					zo := []struct {
						name string
						off  int
					}{{"+03:30", 12600}, {"UTC+03:30", 12600}, {"GMT+0430", 16200}, {"-0330", -12600}, {"UTC-11:00", -39600}}[(n/6)%5]
					str = fmt.Sprintf("%d %s %d %02d:%02d %s", d, month, y, h, mi, zo.name)
					loc = time.FixedZone("", zo.off)
					if n%4 == 1 {
						str = digitsTo(str, []rune{'۰', '٠'}[n/4%2])
					}
				}
			case 9:
				switch n % 3 {
				case 0:
					cfg.DefaultTimezone = teh
					loc = teh
				case 1:
					cfg.CurrentTime = time.Date(2016, 12, 31, 23, 59, 59, 0, ny)
					loc = ny
				case 2:
					cfg.RequiredParts = []string{"day", "month", "year"}
					cfg.PreferredDateSource, cfg.PreferredDayOfMonth, cfg.PreferredMonthOfYear = dps.Past, dps.Last, dps.LastMonth
				}
				str = fmt.Sprintf("  %d %s %d ", d, month, y)
			}
			dt, err := dps.ParseJalali(cfg, str)
			c.Call(1)
			c.Outcome(wall(dt, err))
			want := time.Date(g.Year(), g.Month(), g.Day(), h, mi, s, ns, loc)
			if r := diffDate(dt, err, want, per); r != "" {
				return fmt.Sprintf("%q: %s", str, r)
			}
			return ""
		})
	}
	all := map[int]bool{1210: true, 1309: true, 1375: true, 1391: true, 1399: true, 1403: true, 1408: true, 1460: true}
	n := 0
	for y := 1206; y <= 1500; y++ {
		ylen := int(start[y+1].Sub(start[y]).Hours() / 24)
		g := start[y]
		for m := 1; m <= 12; m++ {
			for d := 1; d <= jalMonthLen(m, ylen); d++ {
				n++
				if !c.Quick || all[y] {
					for v := 0; v < variants; v++ {
						one(y, m, d, g, v, n)
						if all[y] {
							one(y, m, d, g, v, n*7+3)
						}
					}
				} else {
					one(y, m, d, g, n%variants, n/variants)
				}
				g = g.AddDate(0, 0, 1)
			}
		}
	}

	// two-digit years, moved by a century to where PreferredDateSource wants them
	for yy := 0; yy < 100; yy++ {
		for _, md := range [][2]int{{1, 1}, {6, 31}, {12, 29}, {12, 30}, {3, 28}} {
			for bi, base := range []time.Time{utc(2016, 2, 29, 12, 0, 0), utc(1990, 3, 21, 0, 0, 0), utc(2080, 12, 31, 23, 59, 59)} {
				for src := 0; src < 3; src++ {
					m, d := md[0], md[1]
					day := func(y int) (time.Time, bool) {
						if y < 1206 || y > 1500 {
							return time.Time{}, false
						}
						ylen := int(start[y+1].Sub(start[y]).Hours() / 24)
						n := min(d, jalMonthLen(m, ylen))
						for i := 1; i < m; i++ {
							n += jalMonthLen(i, ylen)
						}
						return start[y].AddDate(0, 0, n-1), true
					}
					y := yy + 1400
					if yy > 60 {
						y = yy + 1300
					}
					want, ok := day(y)
					switch {
					case src == 1 && want.After(base):
						want, ok = day(y - 100)
					case src == 2 && !want.After(base):
						want, ok = day(y + 100)
					}
					if !ok {
						continue
					}
					c.Case(fmt.Sprintf("two %02d/%d/%d base%d src%d", yy, m, d, bi, src), func() string {
						cfg := &dps.Configuration{CurrentTime: base, PreferredDateSource: dps.PreferredDateSource(src)}
						c.Call(1)
						dt, err := dps.ParseJalali(cfg, fmt.Sprintf("%02d/%02d/%02d", d, m, yy))
						c.Outcome(want.String())
						return diffDate(dt, err, want, date.Day)
					})
				}
			}
		}
	}
}
