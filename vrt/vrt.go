// Package zzvrt is what the rewritten copies of the library call (see vinstr):
// map iteration in a chosen order, a chosen clock, and a cooperative scheduler
// that runs goroutines one at a time and switches where it is told to.
package zzvrt

import (
	"cmp"
	"fmt"
	"iter"
	"os"
	"slices"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// ---- maps

var (
	order   = parseOrder(os.Getenv("VERIF_ORDER"))
	Ranges  atomic.Int64 // iterations done
	Biggest atomic.Int64 // the biggest map iterated over
	visited [1 << 12]atomic.Bool
)

type orderSpec struct {
	kind string
	n    int
}

func parseOrder(s string) orderSpec {
	k, n, _ := strings.Cut(s, ":")
	i, _ := strconv.Atoi(n)
	return orderSpec{k, i}
}

// SetOrder chooses the order of the iterations from now on: "sorted",
// "reversed", "front:i" (the i-th key first), "back:i", "rot:i", or "" for
// Go's own.
func SetOrder(s string) { order = parseOrder(s) }

// Sites gives the number of places that iterated.
func Sites() (n int) {
	for i := range visited {
		if visited[i].Load() {
			n++
		}
	}
	return
}

func keys[K comparable, V any](site int, m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	Ranges.Add(1)
	if n := int64(len(m)); n > Biggest.Load() {
		Biggest.Store(n)
	}
	if len(m) > 1 && site < len(visited) {
		visited[site].Store(true)
	}
	if order.kind == "" || len(ks) < 2 {
		return ks
	}
	switch s := any(ks).(type) {
	case []string:
		slices.Sort(s)
	case []rune:
		slices.Sort(s)
	case []int:
		slices.Sort(s)
	default:
		txt := make(map[K]string, len(ks))
		for _, k := range ks {
			txt[k] = fmt.Sprintf("%#v", k)
		}
		slices.SortFunc(ks, func(a, b K) int { return cmp.Compare(txt[a], txt[b]) })
	}
	i := order.n % len(ks)
	switch order.kind {
	case "reversed":
		slices.Reverse(ks)
	case "rot":
		ks = append(ks[i:len(ks):len(ks)], ks[:i]...)
	case "front":
		k := ks[i]
		copy(ks[1:], ks[:i])
		ks[0] = k
	case "back":
		k := ks[i]
		copy(ks[i:], ks[i+1:])
		ks[len(ks)-1] = k
	}
	return ks
}

func Range[M ~map[K]V, K comparable, V any](site int, m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range keys(site, map[K]V(m)) {
			v, ok := m[k]
			if !ok {
				continue // deleted by the loop
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func MapAll[M ~map[K]V, K comparable, V any](site int, m M) iter.Seq2[K, V] { return Range(site, m) }

func MapKeys[M ~map[K]V, K comparable, V any](site int, m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range Range(site, m) {
			if !yield(k) {
				return
			}
		}
	}
}

func MapValues[M ~map[K]V, K comparable, V any](site int, m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range Range(site, m) {
			if !yield(v) {
				return
			}
		}
	}
}

// ---- clock

// Clock gives the time of the library's clock, if it isn't nil.
var Clock func() time.Time

func Now() time.Time {
	if Clock != nil {
		return Clock()
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
