package main

import (
	"bufio"
	"fmt"
	"os"
	"slices"
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

func utc(y int, m time.Month, d, h, mi, s int) time.Time {
	return time.Date(y, m, d, h, mi, s, 0, time.UTC)
}

// show renders a parse outcome: wall clock, zone offset, period, locale.
func show(d date.Date, err error) string {
	if err != nil {
		if !d.Time.IsZero() || d.Period != 0 || d.Locale != "" {
			return "error with non-zero date " + d.Time.String()
		}
		return "error"
	}
	return fmt.Sprintf("%s %s [%s]", d.Time.Format("2006-01-02T15:04:05.999999999-07:00:00"), d.Period, d.Locale)
}

// wall renders only the wall clock and period.
func wall(d date.Date, err error) string {
	if err != nil {
		return "error"
	}
	return d.Time.Format("2006-01-02 15:04:05.999999999") + " " + d.Period.String()
}

func wallT(t time.Time, p date.Period) string {
	return t.Format("2006-01-02 15:04:05.999999999") + " " + p.String()
}

func dim(y, m int) int { // days in month, independent of the code under test
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

func leap(y int) bool { return dim(y, 2) == 29 }

func catch(fn func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	fn()
	return ""
}

func init() {
	// probe: reads lines "lang<TAB>string[<TAB>format]" and prints the result.
	extraCmds["probe"] = func(args []string) {
		sc := bufio.NewScanner(os.Stdin)
		now := utc(2015, 7, 31, 12, 0, 0)
		for sc.Scan() {
			f := strings.Split(sc.Text(), "\t")
			cfg := &dps.Configuration{CurrentTime: now}
			kind := f[0]
			var d date.Date
			var err error
			m := catch(func() {
				switch kind {
				case "hijri":
					d, err = dps.ParseHijri(cfg, f[1])
				case "jalali":
					d, err = dps.ParseJalali(cfg, f[1])
				case "search":
					l, r, e := dps.Search(cfg, f[1])
					fmt.Println(l, r, e)
					return
				case "tz":
					fmt.Println(dps.PopTzOffset(f[1]))
					return
				default:
					if kind != "" && kind != "*" {
						cfg.Languages = strings.Split(kind, ",")
					}
					if len(args) > 0 {
						cfg.DateOrder = func(string) string { return args[0] }
					}
					d, err = dps.Parse(cfg, f[1], f[2:]...)
				}
			})
			fmt.Printf("%q => %s %s\n", f[1], show(d, err), m)
		}
	}
}

func sortStrings(s []string) { slices.Sort(s) }

func mustLoc(n string) *time.Location {
	l, err := time.LoadLocation(n)
	if err != nil {
		panic(err)
	}
	return l
}

func readLines(path string) []string {
	bt, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return strings.Split(string(bt), "\n")
}
