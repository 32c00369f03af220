package main

import (
	"fmt"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

// parts is what a date string states. Zero (or -1 for wd and h) means "absent".
type parts struct {
	y, yw   int // year as an absolute number, and the number of digits it was written with
	m, d    int
	wd      int // 0..6, -1 absent
	h       int // -1 absent
	mi, s   int
	ns      int
	tper    date.Period // smallest written time unit
	zone    string      // zone written in the string
	zoneOff int
	hasZone bool
}

func noParts() parts { return parts{wd: -1, h: -1} }

func nearestLeap(y int, src dps.PreferredDateSource) int {
	n, p := y+1, y-1
	for !leap(n) {
		n++
	}
	for !leap(p) {
		p--
	}
	switch src {
	case dps.Future:
		return n
	case dps.Past:
		return p
	}
	if n-y < y-p {
		return n
	}
	return p
}

// fillModel is the reference semantics of incomplete dates (C10): what the
// stated parts mean against a base time under the configured preferences.
func fillModel(p parts, now time.Time, cfg *dps.Configuration) (time.Time, date.Period) {
	loc := now.Location()
	if p.hasZone {
		loc = time.FixedZone(p.zone, p.zoneOff)
	} else if cfg.DefaultTimezone != nil {
		loc = cfg.DefaultTimezone
	}
	src := cfg.PreferredDateSource
	h, mi, s, ns := 0, 0, 0, 0
	if p.h >= 0 {
		h, mi, s, ns = p.h, p.mi, p.s, p.ns
	}
	mk := func(y, m, d int) time.Time { return time.Date(y, time.Month(m), d, h, mi, s, ns, loc) }

	per := date.Day
	switch {
	case p.d != 0:
	case p.m != 0:
		per = date.Month
	case p.y != 0:
		per = date.Year
	}
	if p.h >= 0 && cfg.ReturnTimeAsPeriod && p.tper < per {
		per = p.tper
	}

	ny, nm, nd := now.Year(), int(now.Month()), now.Day()

	// bare weekday: the nearest such day, strictly in the preferred direction
	if p.wd >= 0 && p.y == 0 && p.m == 0 && p.d == 0 {
		today := int(time.Date(ny, time.Month(nm), nd, 0, 0, 0, 0, time.UTC).Weekday())
		back := (today - p.wd + 7) % 7
		fwd := (p.wd - today + 7) % 7
		switch src {
		case dps.Past:
			if back == 0 {
				back = 7
			}
			return mk(ny, nm, nd-back), per
		case dps.Future:
			if fwd == 0 {
				fwd = 7
			}
			return mk(ny, nm, nd+fwd), per
		}
		return mk(ny, nm, nd-back), per
	}

	// bare time: today, moved by whole days into the preferred direction
	if p.h >= 0 && p.wd < 0 && p.y == 0 && p.m == 0 && p.d == 0 {
		t := mk(ny, nm, nd)
		for k := 1; src == dps.Past && t.After(now); k++ {
			t = mk(ny, nm, nd-k)
		}
		for k := 1; src == dps.Future && t.Before(now); k++ {
			t = mk(ny, nm, nd+k)
		}
		return t, per
	}

	y, m, d := p.y, p.m, p.d
	if y == 0 {
		y = ny
	}
	if m == 0 {
		switch cfg.PreferredMonthOfYear {
		case dps.FirstMonth:
			m = 1
		case dps.LastMonth:
			m = 12
		default:
			m = nm
		}
	}
	borrow := d == 0
	if borrow {
		d = nd
	}
	if p.y == 0 && p.m == 2 && p.d == 29 && !leap(y) {
		y = nearestLeap(y, src)
	}
	clip := func() int { return min(d, dim(y, m)) }
	if p.m != 0 && p.y == 0 {
		t := mk(y, m, clip())
		if borrow && (p.h >= 0 || p.wd >= 0) {
			d = clip() // a borrowed day is limited by the base year's month first
		}
		if t.After(now) {
			if src == dps.Past {
				y--
			}
		} else if src == dps.Future {
			y++
		}
		if p.m == 2 && p.d == 29 && !leap(y) {
			y = nearestLeap(y, src)
		}
	}
	if p.y != 0 && p.yw == 2 {
		t := mk(y, m, clip())
		if t.After(now) {
			if src == dps.Past {
				y -= 100
			}
		} else if src == dps.Future {
			y += 100
		}
	}
	if borrow && p.h < 0 && p.wd < 0 {
		switch cfg.PreferredDayOfMonth {
		case dps.First:
			d = 1
		case dps.Last:
			d = 31
		}
	}
	return mk(y, m, clip()), per
}

// pp returns a pointer-free compact description of a configuration.
func prefKey(c *dps.Configuration) string {
	return fmt.Sprintf("src%d,mon%d,day%d,rt%v", c.PreferredDateSource, c.PreferredMonthOfYear, c.PreferredDayOfMonth, c.ReturnTimeAsPeriod)
}

var enMonths = []string{"", "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
var enWeekdays = []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}

// sameInstantWall compares wall clock, offset and period.
func diffDate(dt date.Date, err error, want time.Time, per date.Period) string {
	if err != nil {
		return "want " + want.Format("2006-01-02 15:04:05.999999999 -07:00:00") + " " + per.String() + ", got an error: " + err.Error()
	}
	_, wo := want.Zone()
	_, go_ := dt.Time.Zone()
	if !dt.Time.Equal(want) || wo != go_ || dt.Period != per {
		return "want " + want.Format("2006-01-02 15:04:05.999999999 -07:00:00") + " " + per.String() + ", got " + show(dt, err)
	}
	return ""
}
