package main

import (
	"fmt"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func init() {
	register(&Check{ID: "C14", Run: runC14, QuickSecs: 120, DeepSecs: 800,
		Statement:  "a string of 10, 13 or 16 digits is exactly that Unix instant, other digit strings never are",
		Assume:     []string{"time.Unix is trusted", "the zone the instant is shown in is not part of the property"},
		Bounds:     map[string]string{"seconds": "0, 1, powers of ten, month, leap day and year boundaries 1970-2286, both signs", "fractions": "all 1000 milliseconds; 10x10 boundary micro/millisecond pairs and all 1000 microseconds", "configurations": "16", "lengths": "1-20 digits"},
		BoundsDeep: map[string]string{"seconds": "every month start and end second 1970-2286 and every 99991st million", "fractions": "all milliseconds x 6 seconds; 100x100 pairs", "configurations": "16", "lengths": "1-20 digits"},
	})
}

func runC14(c *Ctx) {
	cross(c, crossInputs("C14"))
	p := &dps.Parser{}
	ny, _ := time.LoadLocation("America/New_York")
	lh, _ := time.LoadLocation("Australia/Lord_Howe")
	base := utc(2015, 7, 31, 12, 0, 0)
	cfgs := []dps.Configuration{
		{Languages: []string{"en"}, CurrentTime: base},
		{Languages: []string{"fr"}, CurrentTime: base, DateOrder: dps.YMD},
		{Locales: []string{"ja"}, CurrentTime: base},
		{Languages: []string{"ar", "he", "hi"}, CurrentTime: base},
		{Languages: []string{"en"}, CurrentTime: time.Date(2015, 3, 8, 2, 30, 0, 0, ny)},
		{Languages: []string{"en"}, CurrentTime: base, DefaultTimezone: ny},
		{Languages: []string{"en"}, CurrentTime: base, DefaultTimezone: lh, ReturnTimeAsPeriod: true},
		{Languages: []string{"de"}, CurrentTime: time.Date(1999, 12, 31, 23, 59, 59, 999999999, lh), ReturnTimeAsPeriod: true},
		{Languages: []string{"en"}, CurrentTime: base, StrictParsing: true},
		{Languages: []string{"en"}, CurrentTime: base, RequiredParts: []string{"day", "month", "year"}},
		{Languages: []string{"en"}, CurrentTime: base, PreferredDateSource: dps.Future, PreferredDayOfMonth: dps.Last, PreferredMonthOfYear: dps.LastMonth},
		{Languages: []string{"en"}, CurrentTime: base, PreferredDateSource: dps.Past, PreserveEndOfMonth: true},
		{Languages: []string{"en"}, CurrentTime: base, SkipTokens: []string{"t"}},
		{Locales: []string{"en-GB", "zh"}, CurrentTime: base, UseGivenOrder: true},
		{CurrentTime: base},
		{DefaultLanguages: []string{"en"}, Languages: []string{"ko"}, CurrentTime: base},
	}
	secs := []int64{0, 1, 59, 60, 3599, 86399, 86400, 951782399, 951868799, 951868800, 1234567890, 1570308760, 2147483647, 2147483648, 4294967295, 4294967296, 9999999999, 1000000000, 999999999, 31535999, 31536000, 5097599, 1425798000, 1446357600}
	for y := 1970; y <= 2286; y += 1 {
		for m := time.January; m <= time.December; m++ {
			if c.Quick && (y%9 != 0 || m != 1 && m != 3 && m != 12) {
				continue
			}
			s := time.Date(y, m, 1, 0, 0, 0, 0, time.UTC).Unix()
			secs = append(secs, s)
			if s > 0 {
				secs = append(secs, s-1)
			}
		}
	}
	for s := int64(1); s < 10000000000; s *= 10 {
		secs = append(secs, s, s*10-1)
	}
	if !c.Quick {
		for s := int64(7); s < 10000000000; s += 999910007 / 1000 {
			secs = append(secs, s)
		}
	}
	n := 0
	exec := func(digits string, ci int, formats ...string) {
		n++
		key := fmt.Sprintf("cfg%d %q %v", ci, digits, formats)
		c.Case(key, func() string {
			cfg := cfgs[ci]
			dt, err := p.Parse(&cfg, digits, formats...)
			c.Call(1)
			c.Outcome(show(dt, err))
			s := strings.TrimSpace(digits)
			neg := strings.HasPrefix(s, "-")
			s = strings.TrimPrefix(s, "-")
			var sec, frac int64
			fmt.Sscanf(s[:10], "%d", &sec)
			f := (s[10:] + "000000")[:6]
			fmt.Sscanf(strings.TrimLeft(f, "0")+" ", "%d", &frac)
			if neg {
				sec = -sec
			}
			want := time.Unix(sec, frac*1000)
			per := date.Day
			if cfg.ReturnTimeAsPeriod {
				per = date.Second
			}
			if err != nil || !dt.Time.Equal(want) || dt.Period != per {
				return fmt.Sprintf("want %s %s, got %s", want.UTC().Format(time.RFC3339Nano), per, show(dt, err))
			}
			return ""
		})
	}
	for i, s := range secs {
		if s > 9999999999 {
			continue
		}
		for ci := range cfgs {
			if (i+ci)%10 != 0 && i > 12 && (c.Quick || (i+ci)%4 != 0) {
				continue
			}
			if len(cfgs[ci].Languages)+len(cfgs[ci].Locales) == 0 && i%8 != 0 {
				continue // all languages: slower
			}
			d := fmt.Sprintf("%010d", s)
			exec(d, ci)
			exec("-"+d, ci)
			if i%5 == ci%5 {
				exec(d+"123", ci)
				exec(d+"999999", ci)
				exec("-"+d+"001002", ci)
				exec("-"+d+"500", ci)
				exec(" "+d+"007 ", ci)
				exec(d, ci, "2006-01-02", time.RFC3339)
			}
		}
	}
	bounds := []int{0, 1, 9, 10, 99, 100, 499, 500, 501, 999}
	fsecs := []int64{0, 1570308760, 9999999999}
	if !c.Quick {
		fsecs = append(fsecs, 1, 951782399, 2147483648)
		bounds = nil
		for i := 0; i < 1000; i += 10 {
			bounds = append(bounds, i, i+9)
		}
	}
	for fi, s := range fsecs {
		for ms := 0; ms < 1000; ms++ {
			exec(fmt.Sprintf("%010d%03d", s, ms), ms%2*6)
			if !c.Quick || ms%3 == fi {
				exec(fmt.Sprintf("-%010d%03d", s, ms), 0)
			}
			exec(fmt.Sprintf("%010d123%03d", s, ms), 0)
		}
		for _, a := range bounds {
			for _, b := range bounds {
				exec(fmt.Sprintf("%010d%03d%03d", s, a, b), (a+b)%14)
				exec(fmt.Sprintf("-%010d%03d%03d", s, a, b), (a+b)%14)
			}
		}
	}
	// Other lengths, and anything that is not all digits, are not timestamps;
	// and the timestamp parsers decide only when they are listed.
	only := &dps.Parser{ParserTypes: []dps.ParserType{dps.Timestamp, dps.NegativeTimestamp}}
	pos := &dps.Parser{ParserTypes: []dps.ParserType{dps.Timestamp}}
	neg := &dps.Parser{ParserTypes: []dps.ParserType{dps.NegativeTimestamp}}
	none := &dps.Parser{ParserTypes: []dps.ParserType{dps.RelativeTime, dps.CustomFormat, dps.AbsoluteTime, dps.NoSpacesTime}}
	digits := []string{"15703087602631112229", "00000000000000000000", "99999999999999999999", "20140305102030123456", "-1234567890123456789"}
	for _, ds := range digits {
		for l := 1; l <= 20; l++ {
			for ci := range cfgs {
				if len(cfgs[ci].Languages)+len(cfgs[ci].Locales) == 0 && l != 10 && l != 11 && l != 13 {
					continue // all languages: slow when nothing matches
				}
				for _, sign := range []string{"", "-"} {
					s := sign + strings.TrimPrefix(ds, "-")[:min(l, len(strings.TrimPrefix(ds, "-")))]
					nd := len(strings.TrimPrefix(s, "-"))
					c.Case(fmt.Sprintf("lengths cfg%d %q", ci, s), func() string {
						for pi, q := range []*dps.Parser{only, pos, neg, none} {
							cfg := cfgs[ci]
							dt, err := q.Parse(&cfg, s)
							c.Call(1)
							c.Outcome(show(dt, err))
							isTs := nd == 10 || nd == 13 || nd == 16
							wantOK := isTs && (pi == 0 || pi == 1 && sign == "" || pi == 2 && sign == "-")
							if pi < 3 && wantOK != (err == nil) {
								return fmt.Sprintf("parser list %d: timestamp expected %v, got %s", pi, wantOK, show(dt, err))
							}
							if pi == 3 && isTs && err == nil {
								var sec int64
								fmt.Sscanf(strings.TrimPrefix(s, "-")[:10], "%d", &sec)
								if sign == "-" {
									sec = -sec
								}
								if dt.Time.Unix() == sec {
									return "read as a timestamp although the timestamp parsers are excluded: " + show(dt, err)
								}
							}
						}
						if nd < 10 || nd == 11 || nd == 12 || nd > 13 && nd != 16 {
							// with every method allowed, still not that instant
							cfg := cfgs[ci]
							dt, err := p.Parse(&cfg, s)
							c.Call(1)
							if err == nil && nd >= 10 {
								var sec int64
								fmt.Sscanf(strings.TrimPrefix(s, "-")[:10], "%d", &sec)
								if sign == "-" {
									sec = -sec
								}
								if dt.Time.Unix() == sec {
									return "read as a timestamp: " + show(dt, err)
								}
							}
						}
						return ""
					})
				}
			}
		}
	}
	// embedded in other text it is not (only) a timestamp
	for _, s := range []string{"1570308760x", "x1570308760", "1570308760263x", "15703087602631x", "1570308760-", "1570308760/1", "+1570308760", "--1570308760", "- 1570308760", "1570 308760", "157030876O", "0x1570308760", "1570308760263111x", "-1570308760x"} {
		c.Case("not a timestamp "+s, func() string {
			cfg := cfgs[0]
			dt, err := only.Parse(&cfg, s)
			c.Call(1)
			if err == nil {
				return "accepted as a timestamp: " + show(dt, err)
			}
			return ""
		})
	}
	c.Add("instants", int64(n))
}
