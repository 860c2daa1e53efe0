// Package sim is the deterministic simulator: a cooperative scheduler for real
// goroutines (one runs at a time; a seeded chooser decides which, and when one
// is preempted), a virtual clock, and simulated hosts, processes, network and
// file systems. The code under test reaches it through the import-compatible
// packages in ../shim and through calls inserted by ../weave.
package sim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

type gstate uint8

const (
	gNew gstate = iota
	gReady
	gRunning
	gBlocked
	gDead
)

// G is one simulated goroutine (backed by one real goroutine).
type G struct {
	ID      int
	Name    string
	P       *Proc
	harness bool
	state   gstate
	killed  bool
	reaper  *G
	wake    chan struct{}
	prio    int64
	why     string
	sig     int // value passed by the waker
	qnext   *G  // proc list
	qprev   *G
	started bool
	lost    int
	f       func()
}

// Outcome of a run.
type Outcome struct {
	End      string // "done", "deadlock", "runaway", "harness-panic"
	Detail   string
	Steps    int64
	Switches int64
	Preempts int64
	Events   int64
	Now      int64
	Hash     uint64 // rolling hash of the event log (determinism check)
	IHash    uint64 // interleaving hash: sequence of (goroutine, switch kind)
	Choices  []uint32
	Gs       int
}

// Policy is the scheduling policy of one run.
type Policy struct {
	Kind     int   // 0 FIFO, 1 random, 2 PCT, 3 LIFO-ish
	Gap      int   // mean yields between preemptions; 0 = run to block
	Tick     int64 // virtual ns per yield
	StallP   float64
	StallMax int64
	MaxSteps int64
}

// World is one simulated universe: one run.
type World struct {
	StallNs   int64 // total length of the stalls so far
	Ch        *Chooser
	Pol       Policy
	base      int64 // virtual ns at the start of the current budget
	yStart    int64
	runq      []*G
	nextG     int
	events    evHeap
	evSeq     uint64
	procs     []*Proc
	freeGs    *G // list head for goroutines without a process
	out       Outcome
	over      bool
	done      chan struct{}
	main      *G
	exec      *executor
	chans     [256]*chanState
	Net       *Net
	FSs       []*FS
	wall      int64 // wall clock offset
	prioLo    int64
	noPreempt bool
	Faults    Counters
	Probes    Counters
	Trace     func(string)
	wsync     int64
	appRand   uint64
	hsync     int64
	exclusive int
}

// Counters is a small named counter set that avoids builtin maps (see race.go).
type Counters struct {
	names []string
	n     []int64
}

func (c *Counters) Add(name string, d int64) {
	for i := range c.names {
		if c.names[i] == name {
			c.n[i] += d
			return
		}
	}
	c.names = sPush(c.names, name)
	c.n = sPush(c.n, d)
}
func (c *Counters) Get(name string) int64 {
	for i := range c.names {
		if c.names[i] == name {
			return c.n[i]
		}
	}
	return 0
}
func (c *Counters) Each(f func(string, int64)) {
	for i := range c.names {
		f(c.names[i], c.n[i])
	}
}

var (
	w   *World // the one live world
	cur *G     // the running goroutine
	yb  int64  // yields left before the slow path
)

const Epoch = int64(1600000000) * 1e9

// W returns the live world.
func W() *World { return w }

func NewWorld(ch *Chooser, pol Policy) *World {
	if pol.Tick <= 0 {
		pol.Tick = 1000
	}
	if pol.MaxSteps <= 0 {
		pol.MaxSteps = 5_000_000
	}
	nw := &World{Ch: ch, Pol: pol, done: make(chan struct{}, 1)}
	nw.Net = newNet(nw)
	return nw
}

// Run executes main as the harness goroutine and returns when it is over and
// every goroutine of the run has been unwound.
func (nw *World) Run(main func()) Outcome {
	w = nw
	if RaceEnabled {
		nw.exec = startExecutor()
	}
	RaceAcquire(unsafe.Pointer(&globalSync))
	cur = nil
	g := nw.newG("main", nil, true, func() {
		defer func() {
			if r := recover(); r != nil {
				if nw.out.End == "" {
					nw.out.End = "harness-panic"
					nw.out.Detail = fmt.Sprint(r) + "\n" + string(debug.Stack())
				}
			}
		}()
		main()
	})
	nw.main = g
	nw.makeReady(g)
	raceDisable()
	nw.dispatch(nw.pick())
	<-nw.done
	raceEnable()
	if nw.exec != nil {
		nw.exec.stop()
	}
	RaceAcquire(unsafe.Pointer(&globalSync))
	nw.out.Now = nw.base
	nw.out.Choices = nw.Ch.Recorded()
	nw.out.Gs = nw.nextG
	if nw.out.End == "" {
		nw.out.End = "done"
	}
	w, cur = nil, nil
	return nw.out
}

var globalSync int64

// Now is the virtual (monotonic) time in ns.
func (w *World) Now() int64 { return w.base + (w.yStart-yb)*w.Pol.Tick }

// Wall is the wall clock in ns since the Unix epoch, with injected jumps.
func (w *World) Wall() int64 { return Epoch + w.Now() + w.wall }

// JumpWall moves the wall clock (not the monotonic one).
func (w *World) JumpWall(d int64) { w.wall += d; w.Faults.Add("clock_jump", 1) }

func (w *World) Steps() int64 { return w.out.Steps + (w.yStart - yb) }

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

// Log mixes an observable event into the determinism hash.
func (w *World) Log(kind string, a ...uint64) {
	h := w.out.Hash
	for i := 0; i < len(kind); i++ {
		h = mix(h, uint64(kind[i]))
	}
	h = mix(h, uint64(w.Now()))
	for _, x := range a {
		h = mix(h, x)
	}
	w.out.Hash = h
	w.out.Events++
	if w.Trace != nil {
		s := kind
		for _, x := range a {
			s += fmt.Sprintf(" %d", x)
		}
		w.Trace(fmt.Sprintf("t=%.6fs %s", float64(w.Now())/1e9, s))
	}
}

// Note is Log with free text, traced only.
func (w *World) Note(format string, a ...interface{}) {
	if w.Trace != nil {
		w.Trace(fmt.Sprintf("t=%.6fs ", float64(w.Now())/1e9) + fmt.Sprintf(format, a...))
	}
}

func (w *World) newG(name string, p *Proc, harness bool, f func()) *G {
	g := &G{ID: w.nextG, Name: name, P: p, harness: harness, wake: make(chan struct{}, 1), f: f}
	w.nextG++
	if w.Pol.Kind == 2 {
		g.prio = int64(w.Ch.N(1 << 20))
	}
	var head **G
	if p != nil {
		head = &p.gs
	} else {
		head = &w.freeGs
	}
	g.qnext = *head
	if *head != nil {
		(*head).qprev = g
	}
	*head = g
	go gmain(w, g)
	return g
}

func (w *World) unlinkG(g *G) {
	head := &w.freeGs
	if g.P != nil {
		head = &g.P.gs
	}
	if g.qprev != nil {
		g.qprev.qnext = g.qnext
	} else {
		*head = g.qnext
	}
	if g.qnext != nil {
		g.qnext.qprev = g.qprev
	}
	g.qnext, g.qprev = nil, nil
}

func gmain(w *World, g *G) {
	raceDisable()
	<-g.wake
	raceEnable()
	if g.harness {
		RaceAcquire(unsafe.Pointer(&w.hsync))
	}
	normal := false
	defer func() {
		// reached on return, on an uncaught panic and on Goexit
		var r interface{}
		if !normal {
			r = recover()
		}
		if r != nil && !g.killed {
			if g.P != nil {
				w.procPanic(g, r)
			} else {
				if w.out.End == "" {
					w.out.End = "harness-panic"
					w.out.Detail = g.Name + ": " + fmt.Sprint(r) + "\n" + string(debug.Stack())
				}
				w.over = true
			}
		}
		w.gexit(g)
	}()
	if !g.killed {
		g.started = true
		g.f()
	}
	normal = true
}

func (w *World) gexit(g *G) {
	if g.P != nil && g.P.mainG == g && g.P.alive && !g.killed {
		// main returned: the process exits
		w.procExit(g.P, "exit", 0, g)
	}
	g.state = gDead
	w.unlinkG(g)
	RaceReleaseMerge(unsafe.Pointer(&globalSync))
	RaceReleaseMerge(unsafe.Pointer(&w.wsync))
	if g.harness {
		RaceReleaseMerge(unsafe.Pointer(&w.hsync))
	}
	raceDisable()
	if g.reaper != nil {
		r := g.reaper
		g.reaper = nil
		r.wake <- struct{}{}
		raceEnable()
		return
	}
	w.settleTime()
	if g == w.main || w.over {
		w.finish(g)
		raceEnable()
		return
	}
	n := w.pick()
	if n == nil {
		w.finish(g)
		raceEnable()
		return
	}
	w.dispatch(n)
	raceEnable()
}

// finish unwinds everything left and ends the run. It runs on the goroutine of
// the last simulated goroutine (g is dead or, for a runaway, still alive).
func (w *World) finish(g *G) {
	w.over = true
	// reap with a pseudo G that owns this real goroutine
	me := &G{ID: -1, wake: make(chan struct{}, 1), state: gRunning, harness: true}
	for i := len(w.procs) - 1; i >= 0; i-- {
		for w.procs[i].gs != nil {
			w.reap(w.procs[i].gs, me)
		}
		w.procs[i].alive = false
	}
	for w.freeGs != nil {
		w.reap(w.freeGs, me)
	}
	cur = nil
	w.done <- struct{}{}
}

// reap unwinds t (parked) on behalf of me.
func (w *World) reap(t *G, me *G) {
	if t.state == gDead {
		return
	}
	if t.state == gReady {
		w.unqueue(t)
	}
	t.killed = true
	t.state = gRunning
	t.reaper = me
	save := cur
	saveYb, saveStart := yb, w.yStart
	cur = t
	yb = 0
	w.yStart = 0
	raceDisable()
	t.wake <- struct{}{}
	<-me.wake
	raceEnable()
	cur = save
	yb, w.yStart = saveYb, saveStart
}

// settleTime folds the running budget into base.
func (w *World) settleTime() {
	used := w.yStart - yb
	if used > 0 {
		w.out.Steps += used
		w.base += used * w.Pol.Tick
	}
	w.yStart, yb = 0, 0
}

func (w *World) unqueue(g *G) {
	for i, x := range w.runq {
		if x == g {
			w.runq = sDel(w.runq, i)
			return
		}
	}
}

// makeReady puts a blocked or new goroutine on the run queue.
func (w *World) makeReady(g *G) {
	if g.killed || (g.state != gBlocked && g.state != gNew) {
		return
	}
	g.state = gReady
	w.runq = sPush(w.runq, g)
}

// pick runs due events and chooses the next goroutine, advancing the clock
// when nothing is runnable. nil means deadlock (recorded).
func (w *World) pick() *G {
	for {
		w.fireDue()
		if w.out.Steps > w.Pol.MaxSteps {
			w.out.End = "runaway"
			w.out.Detail = w.dumpGs()
			return nil
		}
		n := len(w.runq)
		if n == 0 {
			if w.events.len() == 0 {
				w.out.End = "deadlock"
				w.out.Detail = w.dumpGs()
				return nil
			}
			at := w.events.min().at
			if at > w.base {
				w.base = at
			}
			w.out.Steps++ // progress of the event loop counts as a step
			continue
		}
		idx := 0
		if n > 1 {
			v := 0
			if !w.Ch.isRep {
				switch w.Pol.Kind {
				case 1:
					v = w.Ch.rng.Intn(n)
				case 2:
					best := w.runq[0].prio
					for i := 1; i < n; i++ {
						if w.runq[i].prio > best {
							best, v = w.runq[i].prio, i
						}
					}
				case 3:
					if w.Ch.rng.Intn(8) != 0 {
						v = n - 1
					}
				}
			}
			idx = w.Ch.Given(n, v)
		}
		g := w.runq[idx]
		w.runq = sDel(w.runq, idx)
		return g
	}
}

// budget sets the yields the dispatched goroutine may run.
func (w *World) budget(g *G) {
	gap := int64(0)
	if w.Pol.Gap > 0 && !w.noPreempt && !g.harness {
		gap = int64(w.Ch.Gap(w.Pol.Gap))
	}
	if gap <= 0 {
		gap = 20000
	}
	if w.events.len() > 0 {
		d := (w.events.min().at-w.base)/w.Pol.Tick + 1
		if d < 1 {
			d = 1
		}
		if d < gap {
			gap = d
		}
	}
	w.yStart, yb = gap, gap
}

// dispatch hands the processor to g.
func (w *World) dispatch(g *G) {
	if g == nil {
		w.finish(nil)
		return
	}
	w.prepare(g)
	g.wake <- struct{}{}
}

func (w *World) prepare(g *G) {
	g.state = gRunning
	w.out.Switches++
	w.out.IHash = mix(w.out.IHash, uint64(g.ID))
	cur = g
	w.budget(g)
}

// park gives up the processor; the caller has already queued g or recorded it
// as a waiter. It returns when g is dispatched again.
func (w *World) park(g *G) {
	w.settleTime()
	n := w.pick()
	if n == g {
		w.prepare(g)
		if g.killed {
			runtime.Goexit()
		}
		return
	}
	if g.harness {
		RaceReleaseMerge(unsafe.Pointer(&w.hsync))
	}
	raceDisable()
	if n == nil {
		// deadlock or runaway: end the run from here; g itself is reaped too
		go w.finish(g)
	} else {
		w.dispatch(n)
	}
	<-g.wake
	raceEnable()
	if g.harness {
		RaceAcquire(unsafe.Pointer(&w.hsync))
	}
	if g.killed {
		runtime.Goexit()
	}
}

// Y is inserted before every statement of the code under test.
func Y() {
	yb--
	if yb <= 0 {
		ySlow()
	}
}

func ySlow() {
	g := cur
	if g == nil || w == nil {
		return
	}
	if g.killed {
		runtime.Goexit()
	}
	if w.over {
		g.killed = true
		runtime.Goexit()
	}
	ww := w
	ww.settleTime()
	if ww.exclusive > 0 || g.harness {
		ww.fireDue()
		ww.budget(g)
		if ww.out.Steps > ww.Pol.MaxSteps {
			g.state = gReady
			ww.runq = sPush(ww.runq, g)
			ww.park(g)
		}
		return
	}
	ww.out.Preempts++
	if ww.Pol.Kind == 2 {
		ww.prioLo--
		g.prio = ww.prioLo
	}
	if ww.Pol.StallP > 0 && ww.Ch.Prob(ww.Pol.StallP) {
		d := 1 + int64(ww.Ch.N(1000))*ww.Pol.StallMax/1000
		ww.Faults.Add("stall", 1)
		ww.StallNs += d
		ww.sleep(g, d, "stall")
		return
	}
	g.state = gReady
	ww.runq = sPush(ww.runq, g)
	ww.park(g)
}

// enter is the prologue of every simulated operation.
func enter() *G {
	g := cur
	if g == nil {
		panic("sim: operation outside a simulated goroutine")
	}
	if g.killed {
		runtime.Goexit()
	}
	yb--
	if yb <= 0 {
		ySlow()
	}
	return g
}

// block parks g until makeReady.
func (w *World) block(g *G, why string) {
	g.state = gBlocked
	g.why = why
	w.park(g)
	g.why = ""
}

func (w *World) sleep(g *G, d int64, why string) {
	if d < 0 {
		d = 0
	}
	g.state = gBlocked
	g.why = why
	w.settleTime()
	w.at(w.base+d, func() { w.makeReady(g) })
	w.park(g)
	g.why = ""
}

// Sleep blocks the calling goroutine for d ns of virtual time.
func Sleep(d int64) {
	g := enter()
	w.sleep(g, d, "sleep")
}

// Gosched offers the processor.
func Gosched() {
	g := enter()
	w.settleTime()
	g.state = gReady
	w.runq = sPush(w.runq, g)
	w.park(g)
}

// BlockForever is select{}.
func BlockForever() {
	g := enter()
	for {
		w.block(g, "forever")
	}
}

// Go starts a simulated goroutine in the caller's process.
func Go(f func()) {
	g := enter()
	ng := w.newG("", g.P, g.harness && g.P == nil, f)
	w.makeReady(ng)
}

// GoNamed starts a harness goroutine (shares happens-before with the harness).
func (w *World) GoHarness(name string, f func()) *G {
	g := w.newG(name, nil, true, f)
	w.makeReady(g)
	return g
}

// GoClient starts a goroutine of process p that calls the code under test
// directly; what had ended when it was created happens before it, nothing else.
func (w *World) GoClient(p *Proc, name string, f func()) *G {
	sync := new(int64)
	RaceAcquire(unsafe.Pointer(&w.wsync))
	RaceRelease(unsafe.Pointer(sync))
	g := w.newG(name, p, false, func() {
		RaceAcquire(unsafe.Pointer(sync))
		f()
	})
	w.makeReady(g)
	return g
}

// CurG identifies the running goroutine.
func CurG() *G { return cur }

func (g *G) Dead() bool    { return g.state == gDead }
func (g *G) Why() string   { return g.why }
func (g *G) Blocked() bool { return g.state == gBlocked }

// Exclusive runs f without preemption (used by oracles that read many things).
func (w *World) Exclusive(f func()) {
	w.exclusive++
	defer func() { w.exclusive-- }()
	f()
}

func (w *World) dumpGs() string {
	var b strings.Builder
	show := func(g *G) {
		st := [...]string{"new", "ready", "running", "blocked", "dead"}[g.state]
		pn := "-"
		if g.P != nil {
			pn = g.P.Name
		}
		fmt.Fprintf(&b, "  g%d %s proc=%s %s %s\n", g.ID, g.Name, pn, st, g.why)
	}
	n := 0
	for g := w.freeGs; g != nil && n < 60; g = g.qnext {
		show(g)
		n++
	}
	for _, p := range w.procs {
		for g := p.gs; g != nil && n < 60; g = g.qnext {
			show(g)
			n++
		}
	}
	return b.String()
}

// WaitUntil polls cond every step ns until it holds or the timeout passes.
func (w *World) WaitUntil(timeout, step int64, cond func() bool) bool {
	end := w.Now() + timeout
	for n := 1; ; n++ {
		if cond() {
			return true
		}
		if w.Now() >= end {
			return false
		}
		Sleep(step)
		// long waits look less often
		if n%5000 == 0 && step < 1000000000 {
			step *= 2
		}
	}
}

// ---- events ----

type Event struct {
	at  int64
	seq uint64
	fn  func()
	idx int
}

type evHeap struct{ a []*Event }

func (h *evHeap) len() int    { return len(h.a) }
func (h *evHeap) min() *Event { return h.a[0] }
func evLess(x, y *Event) bool {
	if x.at != y.at {
		return x.at < y.at
	}
	return x.seq < y.seq
}
func (h *evHeap) swap(i, j int) {
	h.a[i], h.a[j] = h.a[j], h.a[i]
	h.a[i].idx, h.a[j].idx = i, j
}
func (h *evHeap) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !evLess(h.a[i], h.a[p]) {
			return
		}
		h.swap(i, p)
		i = p
	}
}
func (h *evHeap) down(i int) {
	n := len(h.a)
	for {
		l := 2*i + 1
		if l >= n {
			return
		}
		m := l
		if r := l + 1; r < n && evLess(h.a[r], h.a[l]) {
			m = r
		}
		if !evLess(h.a[m], h.a[i]) {
			return
		}
		h.swap(i, m)
		i = m
	}
}
func (h *evHeap) push(e *Event) {
	e.idx = len(h.a)
	h.a = sPush(h.a, e)
	h.up(e.idx)
}
func (h *evHeap) remove(e *Event) {
	i := e.idx
	n := len(h.a) - 1
	if i != n {
		h.swap(i, n)
	}
	h.a[n] = nil
	h.a = h.a[:n]
	if i < n {
		h.down(i)
		h.up(i)
	}
	e.idx = -1
}

// at schedules fn at absolute virtual time t. fn must not block.
func (w *World) at(t int64, fn func()) *Event {
	w.evSeq++
	e := &Event{at: t, seq: w.evSeq, fn: fn}
	w.events.push(e)
	if yb > 0 {
		// shorten the running budget so the event is not late
		d := (t-w.Now())/w.Pol.Tick + 1
		if d < 1 {
			d = 1
		}
		if d < yb {
			cut := yb - d
			yb -= cut
			w.yStart -= cut
		}
	}
	return e
}

// After schedules fn d ns from now in scheduler context.
func (w *World) After(d int64, fn func()) *Event {
	if d < 0 {
		d = 0
	}
	return w.at(w.Now()+d, fn)
}

// Cancel removes a pending event; it reports whether it was pending.
func (w *World) Cancel(e *Event) bool {
	if e == nil || e.idx < 0 {
		return false
	}
	w.events.remove(e)
	return true
}

func (w *World) fireDue() {
	for w.events.len() > 0 && w.events.min().at <= w.base {
		e := w.events.min()
		w.events.remove(e)
		if w.exec != nil {
			w.exec.run(w, e.fn)
		} else {
			e.fn()
		}
	}
}

// executor runs event functions on a goroutine of their own in race builds, so
// that they share happens-before only with the harness.
type executor struct {
	in   chan func()
	back chan struct{}
}

func startExecutor() *executor {
	x := &executor{in: make(chan func(), 1), back: make(chan struct{}, 1)}
	go func() {
		for {
			raceDisable()
			f := <-x.in
			raceEnable()
			if f == nil {
				RaceReleaseMerge(unsafe.Pointer(&globalSync))
				return
			}
			RaceAcquire(unsafe.Pointer(&w.hsync))
			f()
			RaceReleaseMerge(unsafe.Pointer(&w.hsync))
			raceDisable()
			x.back <- struct{}{}
			raceEnable()
		}
	}()
	return x
}

func (x *executor) run(w *World, f func()) {
	raceDisable()
	x.in <- f
	<-x.back
	raceEnable()
}

func (x *executor) stop() {
	raceDisable()
	x.in <- nil
	raceEnable()
}
