package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

type relRow struct {
	L string   `json:"l"`
	E [][3]any `json:"e"`
}

type nameRow struct {
	L string     `json:"l"`
	M [][]string `json:"m"`
	W [][]string `json:"w"`
	D [][4]any   `json:"d"`
}

func loadJSONL[T any](path string) []T {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var out []T
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<22), 1<<22)
	for sc.Scan() {
		var v T
		if json.Unmarshal(sc.Bytes(), &v) == nil {
			out = append(out, v)
		}
	}
	return out
}

func tablePath(c *Ctx, name string) string { return filepath.Join(c.Verif, "tables", name) }

func relWant(now time.Time, n int, unit string) (time.Time, date.Period) {
	switch unit {
	case "year":
		return now.AddDate(n, 0, 0), date.Year
	case "month":
		return now.AddDate(0, n, 0), date.Month
	case "week":
		return now.AddDate(0, 0, 7*n), date.Day
	case "day":
		return now.AddDate(0, 0, n), date.Day
	case "hour":
		return now.Add(time.Duration(n) * time.Hour), date.Hour
	case "minute":
		return now.Add(time.Duration(n) * time.Minute), date.Minute
	}
	return now.Add(time.Duration(n) * time.Second), date.Second
}

func init() {
	extraCmds["survey"] = func(args []string) {
		now := time.Date(2014, 6, 18, 10, 20, 30, 0, time.UTC)
		p := &dps.Parser{}
		switch args[0] {
		case "rel":
			cnt := map[string]int{}
			for _, r := range loadJSONL[relRow]("/verif/tables/rel.jsonl") {
				for _, e := range r.E {
					s, n, u := e[0].(string), int(e[1].(float64)), e[2].(string)
					dt, err := p.Parse(&dps.Configuration{Locales: []string{r.L}, CurrentTime: now, ReturnTimeAsPeriod: true}, s)
					want, per := relWant(now, n, u)
					cl := "ok"
					if err != nil {
						cl = "err"
					} else if !dt.Time.Equal(want) || dt.Period != per {
						cl = "wrong"
					}
					cnt[cl]++
					fmt.Printf("%s\t%s\t%q\t%d\t%s\t%s\n", cl, r.L, s, n, u, show(dt, err))
				}
			}
			fmt.Fprintln(os.Stderr, cnt)
		case "names":
			cnt := map[string]int{}
			for _, nc := range nameCases("/verif/tables/names.jsonl") {
				str, want, wd := nc.base()
				dt, err := p.Parse(&dps.Configuration{Locales: []string{nc.l}, CurrentTime: now}, str)
				cl := "ok"
				if err != nil {
					cl = "err"
				} else if nc.badName(dt, want, wd, now) != "" {
					cl = "wrong"
				}
				cnt[nc.kind+nc.style+"-"+cl]++
				fmt.Printf("%s-%s\t%s\t%s\t%q\t%d-%d\t%s\n", nc.kind, cl, nc.l, nc.style, nc.form, nc.m, nc.day, show(dt, err))
			}
			fmt.Fprintln(os.Stderr, cnt)
		}
	}
}
