package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"time"

	"verif/dst/harness"
	"verif/dst/sim"
)

func clonePlan(p *harness.Plan) *harness.Plan {
	b, _ := json.Marshal(p)
	q := new(harness.Plan)
	json.Unmarshal(b, q)
	if q.N == nil {
		q.N = map[string]int64{}
	}
	return q
}

func nonZero(c []uint32) int {
	n := 0
	for _, v := range c {
		if v != 0 {
			n++
		}
	}
	return n
}

// attempt reports whether the plan under these choices violates the same
// property in the same way.
func attempt(p *harness.Plan, ch *sim.Chooser, v harness.Violation, strict bool) (*harness.Result, *harness.Violation) {
	r := execute(p, ch, false)
	if r.Bad != "" {
		return nil, nil
	}
	for i := range r.V {
		if r.V[i].Prop == v.Prop && (!strict || r.V[i].Key == v.Key) {
			return r, &r.V[i]
		}
	}
	return nil, nil
}

func minimise(f *Finding, budget time.Duration) *Finding {
	end := time.Now().Add(budget)
	best := *f
	sc := harness.Get(f.Plan.Scn)
	r, _ := attempt(best.Plan, sim.NewReplayChooser(best.Choices), f.V, true)
	if r == nil {
		return nil // does not reproduce
	}
	best.Original = &Size{len(f.Plan.Ops), len(f.Choices), nonZero(f.Choices), r.Out.Steps}
	over := func() bool { return time.Now().After(end) }
	// try a changed plan with the recorded choices, with none, and with fresh ones
	accept := func(p *harness.Plan) bool {
		if over() {
			return false
		}
		for k := 0; k < 6 && !over(); k++ {
			var ch *sim.Chooser
			switch k {
			case 0:
				ch = sim.NewReplayChooser(nil)
			case 1:
				ch = sim.NewReplayChooser(best.Choices)
			default:
				ch = sim.NewChooser(sim.Mix(f.Seed, uint64(k)))
			}
			q := clonePlan(p)
			if r, v := attempt(q, ch, f.V, true); r != nil {
				best.Plan, best.Choices, best.Hash, best.V = q, r.Out.Choices, r.Out.Hash, *v
				return true
			}
		}
		return false
	}
	for round := 0; round < 3 && !over(); round++ {
		changed := false
		// drop operations, large pieces first
		for sz := len(best.Plan.Ops); sz >= 1 && !over(); sz /= 2 {
			for i := 0; i+sz <= len(best.Plan.Ops) && !over(); {
				q := clonePlan(best.Plan)
				q.Ops = append(q.Ops[:i:i], q.Ops[i+sz:]...)
				if accept(q) {
					changed = true
				} else {
					i += sz
				}
			}
		}
		var ks []string
		for k, v := range best.Plan.N {
			if v != 0 && !sc.Keep[k] && k != "tick" && k != "maxsteps" {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			q := clonePlan(best.Plan)
			q.N[k] = 0
			if accept(q) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// zero the choices, large pieces first; then trim the tail
	trySet := func(c []uint32) bool {
		if over() {
			return false
		}
		if r, v := attempt(best.Plan, sim.NewReplayChooser(c), f.V, true); r != nil {
			if nonZero(r.Out.Choices) < nonZero(best.Choices) || len(r.Out.Choices) < len(best.Choices) {
				best.Choices, best.Hash, best.V = r.Out.Choices, r.Out.Hash, *v
				return true
			}
		}
		return false
	}
	for sz := len(best.Choices); sz >= 1 && !over(); sz /= 2 {
		for i := 0; i < len(best.Choices) && !over(); i += sz {
			j := i + sz
			if j > len(best.Choices) {
				j = len(best.Choices)
			}
			if nonZero(best.Choices[i:j]) == 0 {
				continue
			}
			c := append([]uint32(nil), best.Choices...)
			for k := i; k < j; k++ {
				c[k] = 0
			}
			trySet(c)
		}
	}
	n := len(best.Choices)
	for n > 0 && best.Choices[n-1] == 0 {
		n--
	}
	best.Choices = append([]uint32(nil), best.Choices[:n]...)
	// the final run, traced
	p := clonePlan(best.Plan)
	r2 := execute(p, sim.NewReplayChooser(best.Choices), true)
	ok := false
	for _, v := range r2.V {
		if v.Prop == f.V.Prop && v.Key == f.V.Key {
			best.V = v
			ok = true
		}
	}
	if !ok {
		return nil
	}
	best.Hash = r2.Out.Hash
	best.Trace = r2.Trace
	if len(best.Trace) > 600 {
		best.Trace = append(append([]string{}, best.Trace[:100]...), append([]string{"..."}, best.Trace[len(best.Trace)-500:]...)...)
	}
	best.Minimal = true
	return &best
}

func minimiseCmd(args []string) int {
	fl := flag.NewFlagSet("minimise", flag.ExitOnError)
	in := fl.String("in", "", "")
	out := fl.String("out", "", "")
	budget := fl.Duration("budget", 10*time.Second, "")
	fl.StringVar(&raceLog, "racelog", "", "")
	fl.Parse(args)
	b, err := os.ReadFile(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	f := new(Finding)
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	m := minimise(f, *budget)
	if m == nil {
		fmt.Fprintln(os.Stderr, "minimise: the violation did not reproduce")
		return 3
	}
	j, _ := json.MarshalIndent(m, "", " ")
	if err := os.WriteFile(*out, j, 0644); err != nil {
		return 2
	}
	return 0
}

// replay executes a replay file: exit 1 if it reproduces, 0 if the violation
// is gone, 2 on trouble.
func replay(args []string) int {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fl.Bool("q", false, "")
	fl.StringVar(&raceLog, "racelog", "", "")
	file := fl.String("file", "", "")
	fl.Parse(args)
	b, err := os.ReadFile(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	f := new(Finding)
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := clonePlan(f.Plan)
	if harness.Get(p.Scn) == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", p.Scn)
		return 2
	}
	var ch *sim.Chooser
	capMemory()
	if f.Choices == nil && !f.Minimal {
		ch = sim.NewChooser(f.Seed)
	} else {
		ch = sim.NewReplayChooser(f.Choices)
	}
	r := execute(p, ch, !*quiet)
	if !*quiet {
		for _, l := range r.Trace {
			fmt.Println(l)
		}
	}
	if r.Bad != "" {
		fmt.Fprintln(os.Stderr, r.Bad)
		return 2
	}
	for _, v := range r.V {
		if v.Prop == f.V.Prop && v.Key == f.V.Key {
			same := "same execution hash"
			if r.Out.Hash != f.Hash {
				same = fmt.Sprintf("hash %x, recorded %x", r.Out.Hash, f.Hash)
			}
			fmt.Printf("REPRODUCED property=%s key=%s (%s)\n%s\n", v.Prop, v.Key, same, v.Msg)
			if r.Out.Hash != f.Hash {
				return 4
			}
			return 1
		}
	}
	fmt.Println("the violation did not occur")
	return 0
}
