// Package time is the simulated clock behind the names of package time.
package time

import (
	real "time"
	"unsafe"

	"verif/dst/sim"
)

type rtime struct {
	wall uint64
	ext  int64
	loc  *real.Location
}

// mk builds a Time with a wall and a monotonic reading, as time.Now does.
func mk(wallNs, monoNs int64) real.Time {
	t := real.Unix(wallNs/1e9, wallNs%1e9).UTC()
	const wallToInternal int64 = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	sec := wallNs/1e9 + unixToInternal - wallToInternal
	if sec>>33 != 0 || sec < 0 {
		return t
	}
	r := (*rtime)(unsafe.Pointer(&t))
	r.wall = 1<<63 | uint64(sec)<<30 | uint64(wallNs%1e9)
	r.ext = monoNs + 1
	return t
}

func Now() real.Time {
	if sim.W() == nil {
		return real.Unix(0, sim.Epoch).UTC()
	}
	sim.Y()
	w := sim.W()
	return mk(w.Wall(), w.Now())
}

func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }
func Sleep(d real.Duration)           { sim.Sleep(int64(d)) }

type Timer struct {
	C  <-chan real.Time
	c  chan real.Time
	f  func()
	ev *sim.Event
	p  *sim.Proc
}

func (t *Timer) arm(d real.Duration) {
	w := sim.W()
	p := sim.CurProc()
	if t.f != nil {
		f := t.f
		t.ev = w.AfterProc(p, int64(d), true, f)
		return
	}
	t.ev = w.AfterProc(p, int64(d), false, func() {
		sim.TrySendEvent(t.c, mk(w.Wall(), w.Now()))
	})
}

func NewTimer(d real.Duration) *Timer {
	sim.Y()
	t := &Timer{c: make(chan real.Time, 1)}
	t.C = t.c
	t.arm(d)
	return t
}
func AfterFunc(d real.Duration, f func()) *Timer {
	sim.Y()
	t := &Timer{f: f}
	t.arm(d)
	return t
}
func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	sim.Y()
	return sim.W().Cancel(t.ev)
}
func (t *Timer) Reset(d real.Duration) bool {
	sim.Y()
	was := sim.W().Cancel(t.ev)
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	t.arm(d)
	return was
}

type Ticker struct {
	C  <-chan real.Time
	c  chan real.Time
	d  real.Duration
	ev *sim.Event
	p  *sim.Proc
}

func (t *Ticker) arm() {
	w := sim.W()
	t.ev = w.AfterProc(t.p, int64(t.d), false, func() {
		sim.TrySendEvent(t.c, mk(w.Wall(), w.Now()))
		t.arm()
	})
}
func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	sim.Y()
	t := &Ticker{c: make(chan real.Time, 1), d: d, p: sim.CurProc()}
	t.C = t.c
	t.arm()
	return t
}
func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
func (t *Ticker) Stop() { sim.Y(); sim.W().Cancel(t.ev) }
func (t *Ticker) Reset(d real.Duration) {
	sim.Y()
	sim.W().Cancel(t.ev)
	t.d = d
	t.arm()
}
