package sim

// The runtime's slice copies of pointer-bearing elements are instrumented in
// race builds even when called from packages that are not, and would report
// the simulator's own bookkeeping. These loops are not.

func sDel[T any](s []T, i int) []T {
	for ; i+1 < len(s); i++ {
		s[i] = s[i+1]
	}
	var z T
	s[len(s)-1] = z
	return s[:len(s)-1]
}

func sClone[T any](s []T) []T {
	out := make([]T, len(s), len(s)+1)
	for i := range s {
		out[i] = s[i]
	}
	return out
}

func sPush[T any](s []T, v T) []T {
	if len(s) == cap(s) {
		n := make([]T, len(s), 2*len(s)+4)
		for i := range s {
			n[i] = s[i]
		}
		s = n
	}
	s = s[:len(s)+1]
	s[len(s)-1] = v
	return s
}

func sFront[T any](s []T, v T) []T {
	s = sPush(s, v)
	for i := len(s) - 1; i > 0; i-- {
		s[i] = s[i-1]
	}
	s[0] = v
	return s
}
