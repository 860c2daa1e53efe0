package sim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// Proc is a simulated OS process: a set of goroutines on a host that die
// together. What survives it is the host's file system.
type Proc struct {
	Name       string
	Host       *Host
	alive      bool
	gs         *G
	mainG      *G
	Code       int
	How        string // "", "exit", "panic", "kill", "fatal"
	PanicV     string
	PanicSt    string
	sigs       []*SigReg
	ExitAt     int64
	Out        []byte // tail of what was written to the standard streams
	Stdout     []byte // all of the standard output, if KeepStdout
	KeepStdout bool
	MaxFiles   int // open files allowed; 0 = any number
	conns      []closer
	files      int
	onExit     []func()
	CrashOp    int64 // crash before the n-th file-system operation (1-based); 0 = never
	CrashPower bool
	FsOps      int64
	Dir        string
}

type closer interface{ procGone() }

// SigReg is a channel registered with signal.Notify.
type SigReg struct {
	Deliver func(sig int) bool
	Sigs    []int
	Key     unsafe.Pointer
}

// Spawn starts a process whose main goroutine runs f.
func (w *World) Spawn(name string, h *Host, f func()) *Proc {
	p := &Proc{Name: name, Host: h, alive: true, Dir: "/"}
	w.procs = sPush(w.procs, p)
	g := w.newG(name+".main", p, false, func() {
		RaceAcquire(unsafe.Pointer(&w.wsync))
		RaceAcquire(unsafe.Pointer(&globalSync))
		f()
	})
	p.mainG = g
	w.makeReady(g)
	w.Log("spawn", uint64(len(w.procs)))
	return p
}

// NewProc makes a process without a main goroutine, for API-level clients.
func (w *World) NewProc(name string, h *Host) *Proc {
	p := &Proc{Name: name, Host: h, alive: true, Dir: "/"}
	w.procs = sPush(w.procs, p)
	return p
}

func (p *Proc) Alive() bool { return p.alive }

// CurProc is the process of the running goroutine (nil for the harness).
func CurProc() *Proc {
	if cur == nil {
		return nil
	}
	return cur.P
}

// OnExit registers cleanup run when the process is gone.
func (p *Proc) OnExit(f func()) { p.onExit = sPush(p.onExit, f) }

// procExit ends p; self (if it belongs to p) is left for its own gexit.
func (w *World) procExit(p *Proc, how string, code int, self *G) {
	if !p.alive {
		return
	}
	p.alive = false
	p.How = how
	p.Code = code
	p.ExitAt = w.Now()
	w.Log("procexit", uint64(len(how)), uint64(code))
	me := self
	if me == nil {
		me = cur
	}
	for {
		var t *G
		for g := p.gs; g != nil; g = g.qnext {
			if g != self {
				t = g
				break
			}
		}
		if t == nil {
			break
		}
		w.reap(t, me)
	}
	for _, c := range p.conns {
		c.procGone()
	}
	p.conns = nil
	for _, f := range p.onExit {
		f()
	}
	p.onExit = nil
}

func (w *World) procPanic(g *G, r interface{}) {
	p := g.P
	if p.alive {
		p.PanicV = safeString(r)
		p.PanicSt = trimStack(string(debug.Stack()))
		w.Note("PANIC in %s: %s", p.Name, p.PanicV)
		w.procExit(p, "panic", 2, g)
	}
}

func safeString(r interface{}) (s string) {
	defer func() {
		if recover() != nil {
			s = fmt.Sprintf("%T", r)
		}
	}()
	raceIgnoreBegin()
	defer raceIgnoreEnd()
	if e, ok := r.(error); ok {
		if _, rt := r.(runtime.Error); rt {
			return e.Error()
		}
		return fmt.Sprintf("%T", r)
	}
	if x, ok := r.(string); ok {
		return x
	}
	return fmt.Sprintf("%T", r)
}

func raceIgnoreBegin() {}
func raceIgnoreEnd()   {}

func trimStack(s string) string {
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// Kill ends a process from outside, as SIGKILL does. With power the host's
// file system loses what was not durable.
func (w *World) Kill(p *Proc, power bool) {
	if !p.alive {
		return
	}
	if power {
		w.Faults.Add("power_loss", 1)
	} else {
		w.Faults.Add("process_kill", 1)
	}
	if cur != nil && cur.P == p {
		g := cur
		w.procExit(p, "kill", 9, g)
		if power && p.Host.FS != nil {
			p.Host.FS.PowerLoss()
		}
		g.killed = true
		yb = 0
		runtime.Goexit()
	}
	w.procExit(p, "kill", 9, nil)
	if power && p.Host.FS != nil {
		p.Host.FS.PowerLoss()
	}
}

// KillAt and SignalAt do it later. An event runs on whatever goroutine gave up
// the processor, which may be one of p's, so a goroutine of the harness does it.
func (w *World) KillAt(t int64, p *Proc, power bool) {
	w.At(t, func() { w.GoHarness("killer", func() { w.Kill(p, power) }) })
}

func (w *World) SignalAt(t int64, p *Proc, sig int) {
	w.At(t, func() { w.GoHarness("killer", func() { w.Signal(p, sig) }) })
}

// Exit is os.Exit from the running goroutine.
func Exit(code int) {
	g := enter()
	if g.P == nil {
		panic("sim: os.Exit in the harness")
	}
	w.procExit(g.P, "exit", code, g)
	g.killed = true
	yb = 0
	runtime.Goexit()
}

// Fatal is an unrecoverable runtime error (fatal error: ...).
func Fatal(msg string) {
	g := cur
	if g == nil || g.P == nil {
		panic("sim fatal: " + msg)
	}
	if g.killed {
		runtime.Goexit()
	}
	g.P.PanicV = "fatal error: " + msg
	g.P.PanicSt = trimStack(string(debug.Stack()))
	w.procExit(g.P, "fatal", 2, g)
	g.killed = true
	yb = 0
	runtime.Goexit()
}

// Signal delivers sig to p; unhandled SIGINT/SIGTERM kill it.
func (w *World) Signal(p *Proc, sig int) {
	if !p.alive {
		return
	}
	w.Faults.Add("signal", 1)
	handled := false
	for _, r := range p.sigs {
		ok := len(r.Sigs) == 0
		for _, s := range r.Sigs {
			ok = ok || s == sig
		}
		if ok {
			handled = true
			r.Deliver(sig)
		}
	}
	if !handled {
		w.procExit(p, "kill", 128+sig, nil)
	}
}

// AddSig registers a signal channel for the current process.
func AddSig(r *SigReg) {
	if p := CurProc(); p != nil {
		p.sigs = sPush(p.sigs, r)
	}
}

// DelSig unregisters.
func DelSig(key unsafe.Pointer) {
	if p := CurProc(); p != nil {
		out := p.sigs[:0]
		for _, r := range p.sigs {
			if r.Key != key {
				out = sPush(out, r)
			}
		}
		p.sigs = out
	}
}

// SetWallTrace etc. live in core.go.

// WriteFd takes what p writes to a standard stream.
func (p *Proc) WriteFd(fd int, b []byte) {
	if fd == 1 && p.KeepStdout {
		p.Stdout = append(p.Stdout, b...)
	}
	p.Write(b)
}

func (p *Proc) Write(b []byte) {
	if len(p.Out)+len(b) > 1<<16 {
		if len(p.Out) > 1<<15 {
			p.Out = append(p.Out[:0], p.Out[len(p.Out)-1<<15:]...)
		}
		if len(b) > 1<<14 {
			b = b[:1<<14]
		}
	}
	p.Out = append(p.Out, b...)
}

// NGs counts live goroutines of p.
func (p *Proc) NGs() int {
	n := 0
	for g := p.gs; g != nil; g = g.qnext {
		n++
	}
	return n
}

func (p *Proc) EachG(f func(*G)) {
	for g := p.gs; g != nil; g = g.qnext {
		f(g)
	}
}
