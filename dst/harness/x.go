package harness

import (
	"fmt"
	"sort"

	"verif/dst/sim"
)

// Plan is everything a run does apart from the scheduler's and the fault
// injector's choices: a scenario, its parameters and its operations.
type Plan struct {
	Scn string           `json:"scn"`
	N   map[string]int64 `json:"n"`
	Ops []Op             `json:"ops,omitempty"`
}

// Op is one step of a workload.
type Op struct {
	K  string  `json:"k"`
	At int64   `json:"at,omitempty"` // virtual microseconds
	A  []int64 `json:"a,omitempty"`
	B  []byte  `json:"b,omitempty"`
}

func (o Op) a(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Scenario generates plans and runs them.
type Scenario struct {
	Name  string
	Props []string
	Gen   func(r *sim.Rand, p *Plan)
	Run   func(x *X)
	// Hang names the properties a run that never ends violates.
	Hang []string
	// Keep lists plan parameters the minimiser must not zero.
	Keep map[string]bool
	Race bool // worth running in the race build
	// RaceAs is a property that a data race in this scenario violates as well.
	RaceAs string
	// Rule says when a run is non-trivial.
	Rule string
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Name] = s }

// Violation of a property in one run.
type Violation struct {
	Prop string `json:"prop"`
	Key  string `json:"key"` // stable identification of what failed
	Msg  string `json:"msg"`
	At   int64  `json:"at"`
}

// X is one run in progress.
type X struct {
	ups   int // probes whether the node is up
	W     *sim.World
	Net   *sim.Net
	P     *Plan
	V     []Violation
	Stats sim.Counters
	// Nontrivial is set when the run reached the situation the properties
	// are about.
	Nontrivial bool
	prepFS     func(*sim.FS) // what the node's disk holds at first
	kept       []string      // stored torrents seen since the power was last lost
	losses     int
}

func (x *X) n(k string) int64 { return x.P.N[k] }

// Fail records a violation once per (property, key).
func (x *X) Fail(prop, key, format string, a ...interface{}) {
	for _, v := range x.V {
		if v.Prop == prop && v.Key == key {
			return
		}
	}
	m := fmt.Sprintf(format, a...)
	if len(m) > 1200 {
		m = m[:1200] + "..."
	}
	x.V = append(x.V, Violation{Prop: prop, Key: key, Msg: m, At: x.W.Now()})
	x.W.Note("VIOLATION %s %s: %s", prop, key, m)
}

func (x *X) Count(name string, d int64) { x.Stats.Add(name, d) }

const (
	us  = int64(1000)
	ms  = 1000 * us
	sec = 1000 * ms
)

// genPolicy draws the scheduling policy.
func genPolicy(r *sim.Rand, p *Plan) {
	switch r.Intn(10) {
	case 0:
		p.N["pk"], p.N["gap"] = 0, 0
	case 1:
		p.N["pk"], p.N["gap"] = 3, int64(r.Pick(5, 20, 80))
	case 2, 3, 4:
		p.N["pk"], p.N["gap"] = 2, int64(r.Pick(3, 8, 25, 100, 400))
	default:
		p.N["pk"], p.N["gap"] = 1, int64(r.Pick(1, 2, 4, 8, 20, 60, 200, 1000))
	}
	p.N["tick"] = int64(r.Pick(100, 1000, 1000, 5000))
	if r.P(0.2) {
		p.N["level"] = int64(r.Intn(len(levels)))
	}
	if r.P(0.15) {
		p.N["stall"] = int64(r.Pick(1, 5, 20)) // per mille of preemptions
		p.N["stallmax"] = int64(r.Pick(1, 20, 300)) * ms
	}
}

// genNet draws network faults; level 0 is a quiet network.
func genNet(r *sim.Rand, p *Plan, level int) {
	p.N["delay"] = int64(r.Pick(1, 50, 1000, 20000)) * us
	if r.P(0.7) {
		p.N["jitter"] = int64(r.Pick(10, 500, 5000, 60000)) * us
	}
	if level == 0 {
		return
	}
	pick := func(name string, pr float64, v ...int) {
		if r.P(pr) {
			p.N[name] = int64(r.Pick(v...))
		}
	}
	pick("drop", 0.4, 10, 50, 200)
	pick("dup", 0.5, 10, 100, 300)
	pick("reorder", 0.5, 20, 100, 400)
	pick("segp", 0.5, 50, 300, 900)
	pick("recverr", 0.3, 5, 50)
}

func (p *Plan) policy() sim.Policy {
	return sim.Policy{Kind: int(p.N["pk"]), Gap: int(p.N["gap"]), Tick: p.N["tick"],
		StallP: float64(p.N["stall"]) / 1000, StallMax: p.N["stallmax"], MaxSteps: p.N["maxsteps"]}
}

func (p *Plan) net(c *sim.NetCfg) {
	if d := p.N["delay"]; d > 0 {
		c.MinDelay = d
	}
	c.Jitter = p.N["jitter"]
	c.Drop = float64(p.N["drop"]) / 1000
	c.Dup = float64(p.N["dup"]) / 1000
	c.Reorder = float64(p.N["reorder"]) / 1000
	c.SegP = float64(p.N["segp"]) / 1000
	c.SendErr = float64(p.N["senderr"]) / 1000
	c.RecvErr = float64(p.N["recverr"]) / 1000
	if v := p.N["rcvbuf"]; v > 0 {
		c.RecvBuf = int(v)
	}
	if v := p.N["sndbuf"]; v > 0 {
		c.SndBuf = int(v)
	}
}

// calm turns every fault off: the quiet period after which liveness is judged.
func (x *X) calm() {
	c := &x.Net.Cfg
	c.Drop, c.Dup, c.Reorder, c.SendErr, c.RecvErr = 0, 0, 0, 0, 0
	x.Net.Heal()
	for _, f := range x.W.FSs {
		f.Cfg = sim.FSCfg{Capacity: 0}
	}
	x.W.Pol.StallP = 0
}

// Result of one run.
type Result struct {
	Out        sim.Outcome
	V          []Violation
	Nontrivial bool
	Stats      []Stat
	Faults     []Stat
	Trace      []string
	Bad        string // the harness itself failed
}

type Stat struct {
	Name string
	N    int64
}

func stats(c *sim.Counters) []Stat {
	var out []Stat
	c.Each(func(n string, v int64) { out = append(out, Stat{n, v}) })
	return out
}

// Execute runs a plan under a chooser.
func Execute(p *Plan, ch *sim.Chooser, trace bool) *Result {
	s := scenarios[p.Scn]
	if s == nil {
		return &Result{Bad: "unknown scenario " + p.Scn}
	}
	if p.N == nil {
		p.N = map[string]int64{}
	}
	res := &Result{}
	w := sim.NewWorld(ch, p.policy())
	x := &X{W: w, Net: w.Net, P: p}
	p.net(&w.Net.Cfg)
	if trace {
		w.Trace = func(s string) {
			if len(res.Trace) < 200000 {
				res.Trace = append(res.Trace, s)
			}
		}
	}
	res.Out = w.Run(func() { s.Run(x) })
	switch res.Out.End {
	case "runaway", "deadlock":
		hang := s.Hang
		if len(hang) == 0 {
			hang = s.Props[:1]
		}
		if len(hang) > 0 {
			for _, pr := range hang {
				x.V = append(x.V, Violation{Prop: pr, Key: res.Out.End, At: res.Out.Now,
					Msg: "no progress: the run ended as " + res.Out.End + "\n" + res.Out.Detail})
			}
		} else {
			res.Bad = "scenario " + p.Scn + " ended as " + res.Out.End + "\n" + res.Out.Detail
		}
	case "harness-panic":
		res.Bad = "harness panic: " + res.Out.Detail
	}
	sort.SliceStable(x.V, func(i, j int) bool { return x.V[i].At < x.V[j].At })
	res.V = x.V
	res.Nontrivial = x.Nontrivial
	res.Stats = stats(&x.Stats)
	res.Faults = stats(&w.Faults)
	return res
}

// NewPlan draws run i of a scenario.
func NewPlan(scn string, seed uint64) *Plan {
	p := &Plan{Scn: scn, N: map[string]int64{}}
	scenarios[scn].Gen(sim.NewRand(seed), p)
	return p
}

// For lists the scenarios that decide a property.
func For(prop string) []*Scenario {
	var out []*Scenario
	for _, s := range scenarios {
		for _, p := range s.Props {
			if p == prop {
				out = append(out, s)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func Names() []string {
	var out []string
	for n := range scenarios {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func Get(n string) *Scenario { return scenarios[n] }

// smap is a small map for code that the code under test calls back: the race
// detector would attribute a builtin map's accesses to the caller.
type smap[K comparable, V any] struct {
	k []K
	v []V
}

func (m *smap[K, V]) at(k K) *V {
	for i := range m.k {
		if m.k[i] == k {
			return &m.v[i]
		}
	}
	var z V
	m.k = append(m.k, k)
	m.v = append(m.v, z)
	return &m.v[len(m.v)-1]
}

// keys lists the keys of a map in a fixed order.
func keys[K comparable, V any](m map[K]V) []K {
	var out []K
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}
