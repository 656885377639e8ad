// Package vrt is the runtime that instrumented copies of the code under test link against. It owns
// the nondeterminism that Go's runtime would otherwise decide (map iteration order, thread
// schedules), so that the explorers can enumerate it.
package vrt

import (
	"fmt"
	"iter"
	"sort"
	"sync/atomic"
)

// Map iteration order modes.
const (
	Asc  = 0 // ascending by key
	Desc = 1 // descending by key
)

var order atomic.Int32

// SetOrder sets the iteration order for all instrumented map ranges.
func SetOrder(o int) { order.Store(int32(o)) }

// Order returns the current mode.
func Order() int { return int(order.Load()) }

// Range iterates over a map in the order chosen by the explorer.
func Range[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		if len(m) == 1 {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		desc := order.Load() == Desc
		if ss, ok := any(keys).([]string); ok {
			sort.Strings(ss)
			if desc {
				for i, j := 0, len(ss)-1; i < j; i, j = i+1, j-1 {
					ss[i], ss[j] = ss[j], ss[i]
				}
			}
		} else {
			strs := make(map[K]string, len(keys))
			for _, k := range keys {
				strs[k] = fmt.Sprint(k)
			}
			sort.SliceStable(keys, func(i, j int) bool {
				if desc {
					return strs[keys[i]] > strs[keys[j]]
				}
				return strs[keys[i]] < strs[keys[j]]
			})
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
