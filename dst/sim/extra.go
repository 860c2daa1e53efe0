package sim

import "unsafe"

// AfterProc schedules f for a timer created by process p. spawn runs f on a new
// goroutine of p (time.AfterFunc); otherwise f runs in scheduler context. A
// dead process's timers do nothing.
func (w *World) AfterProc(p *Proc, d int64, spawn bool, f func()) *Event {
	if d < 0 {
		d = 0
	}
	edge := new(int64)
	RaceReleaseMerge(unsafe.Pointer(edge))
	return w.at(w.Now()+d, func() {
		if p != nil && !p.alive {
			return
		}
		if spawn {
			g := w.newG("timer", p, p == nil, func() {
				RaceAcquire(unsafe.Pointer(edge))
				f()
			})
			w.makeReady(g)
			return
		}
		f()
	})
}

// RandU64 is the code under test's own randomness, drawn from the run.
func RandU64() uint64 {
	enter()
	w.appRand++
	return Mix(uint64(w.Ch.N(1<<16)), w.appRand)
}

func RandInt(n int) int { return int(RandU64() % uint64(n)) }

// SignalSelf delivers a signal to the current process.
func SignalSelf(sig int) {
	enter()
	p := cur.P
	handled := false
	for _, r := range p.sigs {
		for _, s := range r.Sigs {
			if s == sig {
				handled = true
				r.Deliver(sig)
			}
		}
	}
	if !handled {
		Exit(128 + sig)
	}
}

// Held is the memory the record of the run takes.
func (w *World) Held() int64 { return 4 * int64(cap(w.Ch.rec)) }
