package harness

import (
	"fmt"
	"strings"

	"verif/dst/sim"
)

// API is a process whose goroutines are clients of the packages themselves.
type API struct {
	x       *X
	H       *sim.Host
	P       *sim.Proc
	clients []*sim.G
	seq     int64
	ops     int64
}

// long quiet times, in microseconds
func quietTime(r *sim.Rand) int64 {
	return int64(r.Pick(3, 31, 61, 301, 910, 3700, 90000)) * 1000000
}

// genLull makes one client pause for long before one of its operations.
func genLull(r *sim.Rand, p *Plan) {
	if r.P(0.06) {
		p.N["lull"] = quietTime(r)
		p.N["lullat"] = int64(1 + r.Intn(len(p.Ops)+1))
	}
}

// lull is called before each operation of a client.
func (a *API) lull() {
	a.ops++
	if a.ops == a.x.n("lullat") {
		sim.Sleep(a.x.n("lull") * us)
	}
}

// lullAt puts a long quiet time before all operations from some moment on.
func lullAt(r *sim.Rand, p *Plan, prob float64) int64 {
	if len(p.Ops) == 0 || !r.P(prob) {
		return 0
	}
	cut, d := p.Ops[r.Intn(len(p.Ops))].At, quietTime(r)
	for i := range p.Ops {
		if p.Ops[i].At >= cut {
			p.Ops[i].At += d
		}
	}
	return d
}

// newAPI makes a process on host 10.0.0.1 with the packages initialised;
// levels: "misc", "config", "krpc", "peerwire", "dht".
func (x *X) newAPI(level string, cfg NodeCfg) *API {
	a := &API{x: x, H: x.Net.AddHost("app", "10.0.0.1")}
	fs := a.H.NewFS()
	fs.PreloadDir("/")
	fs.Preload("/conf/config.json", cfg.JSON())
	fs.SyncAll()
	a.start(level)
	return a
}

// start makes a (further) process on the host, once no other one is alive.
func (a *API) start(level string) {
	x := a.x
	a.P = x.W.NewProc("app", a.H)
	a.clients = nil
	keep := map[string]bool{"misc": true, "zap": true, "zapbp": true, "zapexit": true, "lumberjack": true}
	switch level {
	case "config":
		keep["config"] = true
	case "krpc":
		keep["config"], keep["krpc"] = true, true
	case "peerwire":
		keep["config"], keep["peerwire"] = true, true
	case "dht":
		keep["config"], keep["krpc"], keep["peerwire"], keep["dht"] = true, true, true, true
	}
	ok := false
	g := x.W.GoClient(a.P, "init", func() {
		enterProcess(func(p string) bool {
			if i := strings.LastIndexByte(p, '/'); i >= 0 {
				p = p[i+1:]
			}
			return keep[p]
		})
		ok = true
	})
	pol := x.W.Pol
	x.W.Pol.StallP = 0
	x.W.WaitUntil(60*sec, ms, func() bool { return g.Dead() || !a.P.Alive() })
	x.W.Pol = pol
	if !ok {
		how := ""
		if !a.P.Alive() {
			how = a.P.How + " " + a.P.PanicV + "\n" + a.P.PanicSt
		}
		panic("the packages did not initialise: " + how)
	}
}

// Go starts a client goroutine.
func (a *API) Go(name string, f func()) *sim.G {
	g := a.x.W.GoClient(a.P, name, f)
	a.clients = append(a.clients, g)
	return g
}

// wait until all clients are done; false if some are not within limit.
func (a *API) wait(limit int64) bool {
	done := func() bool {
		if !a.P.Alive() {
			return true
		}
		for _, g := range a.clients {
			if !g.Dead() {
				return false
			}
		}
		return true
	}
	late := a.x.n("lull") * us
	for _, o := range a.x.P.Ops {
		if o.At*us > late {
			late = o.At * us
		}
	}
	if late > 10*sec && a.x.W.WaitUntil(late, late/2000, done) {
		return true
	}
	step := int64(ms)
	if limit > 150*sec {
		step = limit / 150000
	}
	if a.x.W.WaitUntil(limit, step, done) {
		return true
	}
	// Stalls are a fault: progress counts once they stop.
	a.x.W.Pol.StallP = 0
	return a.x.W.WaitUntil(limit, step, done)
}

// tick orders the calls and returns of a history.
func (a *API) tick() int64 { a.seq++; return a.seq }

// died reports an abnormal end of the process as a violation.
func (a *API) died(prop string) bool {
	if a.P.Alive() {
		return false
	}
	a.x.Fail(prop, "crash", "the process died (%s): %s\n%s", a.P.How, a.P.PanicV, a.P.PanicSt)
	return true
}

// stuck lists what is still blocked.
func (a *API) stuck() string {
	s := ""
	a.P.EachG(func(g *sim.G) {
		if !g.Dead() {
			s += fmt.Sprintf(" %s (%s)", g.Name, g.Why())
		}
	})
	return s
}

// at makes a client wait for its moment: microseconds after t0.
func (a *API) at(t0, micros int64) {
	if d := t0 + micros*us - a.x.W.Now(); d > 0 {
		sim.Sleep(d)
	}
}

// split deals the operations to clients by their first argument.
func splitOps(ops []Op, n int) [][]Op {
	out := make([][]Op, n)
	for _, o := range ops {
		c := int(o.a(0)) % n
		if c < 0 {
			c += n
		}
		out[c] = append(out[c], o)
	}
	return out
}

func atLeast(v, min int64) int64 {
	if v < min {
		return min
	}
	return v
}
