package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/markusmobius/go-dateparser/zzvrt"
)

func init() {
	register(&Check{ID: "C04", Run: runC04, Prep: prepC04, QuickSecs: 200, DeepSecs: 850,
		Statement:  "every call of the cross-section gives the same result in processes whose map iterations (those of package initialization included) are run in sorted order, in each of the other orders, and in Go's own",
		Assume:     []string{"the iterations over maps by `range` and by package maps are the only choices left to the runtime: the library starts no goroutine", "iterations inside the standard library and the regular expression engines are left as they are"},
		Bounds:     map[string]string{"orders": "sorted, reversed, two rotations, the third key first, the second key last; Go's own once", "calls": "14 657 calls: all languages and locales, formats, calendars, searching, zones"},
		BoundsDeep: map[string]string{"orders": "as quick and 18 more rotations and exchanges on the quick calls; sorted, reversed, a rotation and Go's own on the deep ones", "calls": "see calls_in_corpus"},
	})
	extraCmds["corpuskeys"] = func(args []string) {
		for i, cc := range corpus(corpusOpt{verif: args[0], deep: args[1] == "deep", now: corpusNow}) {
			fmt.Println(i, cc.key)
		}
	}
}

func corpusExtra() map[string]int64 {
	return map[string]int64{"ranges": zzvrt.Ranges.Load(), "biggest": zzvrt.Biggest.Load(), "sites": int64(zzvrt.Sites())}
}

type c04Base struct {
	Quick, Deep []string
	Err         string
}

func c04Instr() string {
	if b := os.Getenv("VERIF_INSTR"); b != "" {
		return b
	}
	b, _ := os.Executable()
	return b
}

func prepC04() any {
	var b c04Base
	var err error
	verif, deep := os.Getenv("VERIF_ROOT"), os.Getenv("VERIF_DEEP") != ""
	if b.Quick, err = corpusAll(c04Instr(), verif, false, "VERIF_ORDER=sorted"); err == nil && deep {
		b.Deep, err = corpusAll(c04Instr(), verif, true, "VERIF_ORDER=sorted")
	}
	if err != nil {
		b.Err = err.Error()
	}
	return b
}

func runC04(c *Ctx) {
	var base c04Base
	loadPrep(&base)
	self, _ := os.Executable()
	instr := os.Getenv("VERIF_INSTR")
	if instr == "" {
		c.res.Stopped = true // can't choose the order
	}
	if base.Err != "" {
		panic("the calls couldn't be made: " + base.Err)
	}
	var keys [2][]corpusCall
	keys[0] = corpus(corpusOpt{verif: c.Verif, now: corpusNow})
	if !c.Quick {
		keys[1] = corpus(corpusOpt{verif: c.Verif, deep: true, now: corpusNow})
		c.Max("calls_in_corpus", int64(len(keys[1])))
	}
	run := func(order string, deep bool, from, step int) ([]string, map[string]int64) {
		bin, env := instr, "VERIF_ORDER="+order
		if strings.HasPrefix(order, "native") || instr == "" {
			bin, env = self, "VERIF_NONE="
		}
		res, x, err := corpusPart(bin, c.Verif, deep, from, step, env)
		if err != nil {
			panic(fmt.Sprintf("order %s: %v", order, err))
		}
		return res, x
	}
	sweep := func(order string, deep bool) {
		calls, want, n := keys[0], base.Quick, 8
		if deep {
			calls, want, n = keys[1], base.Deep, 64
		}
		if want0, _, ok := strings.Cut(c.only, " :: "); ok {
			if want0 != order {
				return
			}
			for i, cc := range calls {
				if order+" :: "+cc.key == c.only {
					c.Case(c.only, func() string {
						a, _ := run("sorted", deep, i, len(calls))
						b, _ := run(order, deep, i, len(calls))
						if a[0] != b[0] {
							return fmt.Sprintf("sorted order: %s, %s: %s", a[0], order, b[0])
						}
						return ""
					})
				}
			}
			return
		}
		for part := 0; part < n; part++ {
			c.Case(fmt.Sprintf("%s, deep %v, part %d of %d", order, deep, part, n), func() string {
				res, x := run(order, deep, part, n)
				for k, got := range res {
					i := part + k*n
					c.State(order + calls[i].key)
					c.Call(1)
					c.Outcome(got)
					if got != want[i] {
						c.Fail(order+" :: "+calls[i].key, fmt.Sprintf("sorted order: %s, %s: %s", want[i], order, got))
					}
				}
				c.Add("map_iterations", x["ranges"])
				c.Max("biggest_map", x["biggest"])
				c.Max("places_iterating", x["sites"])
				c.Add("pairs_of_executions_compared", int64(len(res)))
				return ""
			})
		}
	}
	orders := []string{"reversed", "rot:1", "rot:7", "front:2", "back:1", "native"}
	if !c.Quick {
		for _, k := range []string{"rot", "front", "back"} {
			for _, i := range []int{1, 2, 3, 5, 11, 23} {
				if o := fmt.Sprintf("%s:%d", k, i); o != "rot:1" {
					orders = append(orders, o)
				}
			}
		}
		orders = append(orders, "native2", "native3")
		for _, o := range []string{"reversed", "native", "rot:3"} {
			sweep(o, true)
		}
	}
	for _, o := range orders {
		sweep(o, false)
	}
}
