package harness

import "fmt"

// lop is one completed (or pending: Ret == 0) operation of a history.
type lop struct {
	Call, Ret int64
	In, Out   interface{}
	Desc      string
}

// linearizable searches for an order of the operations that respects real time
// and that step accepts. States must be comparable. It gives up (true) after
// too many configurations; gaveUp says so.
func linearizable(ops []lop, init interface{}, step func(s interface{}, o *lop) (interface{}, bool)) (ok, gaveUp bool) {
	n := len(ops)
	if n == 0 {
		return true, false
	}
	type conf struct {
		mask string
		st   interface{}
	}
	seen := map[conf]bool{}
	mask := make([]byte, (n+7)/8)
	left := 0
	for i := range ops {
		if ops[i].Ret != 0 {
			left++
		}
	}
	budget := 200000
	var dfs func(st interface{}, left int) bool
	dfs = func(st interface{}, left int) bool {
		if left == 0 {
			return true
		}
		c := conf{string(mask), st}
		if seen[c] {
			return false
		}
		seen[c] = true
		if budget--; budget < 0 {
			gaveUp = true
			return true
		}
		minRet := int64(1<<62 - 1)
		for i := range ops {
			if mask[i/8]&(1<<(i%8)) == 0 && ops[i].Ret != 0 && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := range ops {
			if mask[i/8]&(1<<(i%8)) != 0 || ops[i].Call > minRet {
				continue
			}
			s2, good := step(st, &ops[i])
			if !good {
				continue
			}
			mask[i/8] |= 1 << (i % 8)
			l := left
			if ops[i].Ret != 0 {
				l--
			}
			if dfs(s2, l) {
				return true
			}
			mask[i/8] &^= 1 << (i % 8)
		}
		return false
	}
	return dfs(init, left), gaveUp
}

func histString(ops []lop) string {
	s := ""
	for i, o := range ops {
		if i == 30 {
			return s + "..."
		}
		s += fmt.Sprintf("[%d,%d] %s; ", o.Call, o.Ret, o.Desc)
	}
	return s
}
