package runtime

import (
	"verif/dst/sim"
)

func Gosched() { sim.Gosched() }
func NumGoroutine() int {
	if p := sim.CurProc(); p != nil {
		return p.NGs()
	}
	return 1
}
func GC()                {}
func NumCPU() int        { return 4 }
func GOMAXPROCS(int) int { return 4 }
