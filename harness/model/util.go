package model

import (
	"iter"
	"sort"

	"verif/core"
)

// sortedOnce iterates over the keys in a fixed order, so that cases are the
// same on every run.
func sortedOnce(m map[string]interface{}) iter.Seq[string] {
	keys := SortedKeys(m)
	return func(yield func(string) bool) {
		for _, k := range keys {
			if !yield(k) {
				return
			}
		}
	}
}

func SortedKeys(m map[string]interface{}) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// Lookalike makes a different value that is easily confused with v.
func Lookalike(r *core.Rng, v interface{}) interface{} { return lookalike(r, v) }
