package sim

import (
	"cmp"
	"fmt"
	"slices"
)

// MapKeys returns the keys of m in an order chosen by the run: sorted, then
// permuted by seeded choices, because Go's own order is not repeatable.
func MapKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k) // sPush would be compiled into instrumented packages
	}
	if len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
	case []int:
		slices.Sort(ks)
	default:
		slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b)) })
	}
	if cur != nil && !cur.killed && len(keys) <= 64 {
		permute(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	}
	return keys
}

// permute draws one seed for the whole permutation; 0 keeps the order.
func permute(n int, swap func(i, j int)) {
	s := w.Ch.N(1 << 16)
	if s == 0 {
		return
	}
	r := NewRand(uint64(s))
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
