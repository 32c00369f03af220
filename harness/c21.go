package main

import (
	"fmt"
	"os"
	"strings"
)

func init() {
	register(&Check{ID: "C21", Run: runC21, QuickSecs: 250, DeepSecs: 850,
		Statement:  "every call of the cross-section gives the same result in the default build and in the one with the re2_wasm tag",
		Assume:     []string{"the engines themselves (package regexp and go-re2 on wazero) are part of what is compared; the other tag, re2_cgo, can't be built here (no libre2)"},
		Bounds:     map[string]string{"calls": "the quick cross-section: all languages and locales, formats, calendars, searching, zones; and odd characters (every kind of white space, format and dash character, case variants of ASCII letters, control characters, broken UTF-8) inside twelve forms of date"},
		BoundsDeep: map[string]string{"calls": "the deep cross-section, see calls_in_corpus"},
	})
}

func runC21(c *Ctx) {
	self, _ := os.Executable()
	alt := os.Getenv("VERIF_ALT")
	calls := corpus(corpusOpt{verif: c.Verif, deep: !c.Quick, now: corpusNow})
	c.Max("calls_in_corpus", int64(len(calls)))
	if alt == "" {
		c.res.Stopped = true // there is no other build to compare with
		alt = self
	}
	run := func(bin string, from, step int) []string {
		res, _, err := corpusPart(bin, c.Verif, !c.Quick, from, step)
		if err != nil {
			panic(fmt.Sprintf("%s: %v", bin, err))
		}
		return res
	}
	if key, ok := strings.CutPrefix(c.only, "call "); ok {
		for i, cc := range calls {
			if cc.key == key {
				c.Case(c.only, func() string {
					if a, b := run(self, i, len(calls)), run(alt, i, len(calls)); a[0] != b[0] {
						return fmt.Sprintf("default build: %s, re2_wasm: %s", a[0], b[0])
					}
					return ""
				})
			}
		}
		return
	}
	n := 32
	if !c.Quick {
		n = 256
	}
	for part := 0; part < n; part++ {
		c.Case(fmt.Sprintf("part %d of %d", part, n), func() string {
			ch := make(chan []string)
			go func() { ch <- run(self, part, n) }()
			other := run(alt, part, n)
			for k, got := range <-ch {
				i := part + k*n
				c.State(calls[i].key)
				c.Call(2)
				c.Outcome(got)
				c.Add("pairs_of_executions_compared", 1)
				if got != other[k] {
					c.Fail("call "+calls[i].key, fmt.Sprintf("default build: %s, re2_wasm: %s", got, other[k]))
				}
			}
			return ""
		})
	}
}
