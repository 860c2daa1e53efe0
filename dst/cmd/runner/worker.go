package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/dst/harness"
	"verif/dst/sim"
)

// Finding is a violation with what reproduces it.
type Finding struct {
	V        harness.Violation `json:"violation"`
	Seed     uint64            `json:"seed"`
	Plan     *harness.Plan     `json:"plan"`
	Choices  []uint32          `json:"choices"`
	Hash     uint64            `json:"hash"`
	Race     bool              `json:"race"`
	Minimal  bool              `json:"minimal"`
	Fatal    bool              `json:"fatal,omitempty"`
	Trace    []string          `json:"trace,omitempty"`
	Original *Size             `json:"original,omitempty"`
}

type Size struct {
	Ops, Choices, NonZero int
	Steps                 int64
}

type Sample struct {
	Scn    string `json:"scenario"`
	Seed   uint64 `json:"seed"`
	Ops    int    `json:"ops"`
	Steps  int64  `json:"steps"`
	SimMs  int64  `json:"sim_ms"`
	Faults string `json:"faults"`
}

type Report struct {
	Runs       int64            `json:"runs"`
	Nontrivial int64            `json:"nontrivial"`
	Steps      int64            `json:"steps"`
	SimNs      int64            `json:"sim_ns"`
	Switches   int64            `json:"switches"`
	Preempts   int64            `json:"preempts"`
	Events     int64            `json:"events"`
	Faults     map[string]int64 `json:"faults"`
	Stats      map[string]int64 `json:"stats"`
	PerScn     map[string]int64 `json:"per_scn"`
	DetChecks  int64            `json:"det_checks"`
	Samples    []Sample         `json:"samples"`
	Findings   []*Finding       `json:"findings"`
	Bad        string           `json:"bad"`
	Race       bool             `json:"race"`
	WallS      float64          `json:"wall_s"`
}

func seedFor(base uint64, scn string, i uint64) uint64 {
	h := uint64(1469598103934665603)
	for j := 0; j < len(scn); j++ {
		h = (h ^ uint64(scn[j])) * 1099511628211
	}
	return sim.Mix(base, h, i)
}

// raceLog is where the race detector writes (GORACE log_path).
var raceLog string

func raceTail(from int64) (string, int64) {
	m, _ := filepath.Glob(raceLog + ".*")
	for _, f := range m {
		if strings.HasSuffix(f, fmt.Sprintf(".%d", os.Getpid())) {
			b, err := os.ReadFile(f)
			if err == nil && int64(len(b)) > from {
				return string(b[from:]), int64(len(b))
			}
		}
	}
	return "", from
}

// raceViolations turns race reports into violations of P21.
func raceViolations(txt string) []harness.Violation {
	var out []harness.Violation
	for _, rep := range strings.Split(txt, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		// the two accesses are the first two blocks
		blocks := strings.Split(strings.TrimSpace(rep), "\n\n")
		if len(blocks) < 2 {
			continue
		}
		key := func(b string) (string, bool) {
			for _, l := range strings.Split(b, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "verif/dst/") && !strings.HasPrefix(l, "verif/dst/sim.MapKeys[") {
					return "", false // the simulator's own memory
				}
				if strings.HasPrefix(l, "github.com/GalaIO/P2Pcrawler/") && !strings.Contains(l, "/zzdep/") && !strings.Contains(l, "-fm()") {
					l = strings.TrimPrefix(l, "github.com/GalaIO/P2Pcrawler/")
					return strings.TrimSuffix(l, "()"), true
				}
			}
			return "", false
		}
		a, ok1 := key(blocks[0])
		b, ok2 := key(blocks[1])
		if !ok1 || !ok2 {
			continue
		}
		ks := []string{a, b}
		sort.Strings(ks)
		out = append(out, harness.Violation{Prop: "P21", Key: "race:" + ks[0] + "|" + ks[1], Msg: strings.TrimSpace(rep)})
	}
	return out
}

var raceSeen int
var racePos int64

func execute(p *harness.Plan, ch *sim.Chooser, trace bool) *harness.Result {
	r := harness.Execute(p, ch, trace)
	if raceBuild {
		if n := raceErrors(); n != raceSeen {
			raceSeen = n
			var txt string
			txt, racePos = raceTail(racePos)
			vs := raceViolations(txt)
			r.V = append(r.V, vs...)
			if ra := harness.Get(p.Scn).RaceAs; ra != "" {
				for _, v := range vs {
					v.Prop = ra
					r.V = append(r.V, v)
				}
			}
		}
	}
	return r
}

func worker(args []string) int {
	fl := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	base := fl.Uint64("seed", 1, "")
	off := fl.Uint64("off", 0, "")
	stride := fl.Uint64("stride", 1, "")
	dur := fl.Duration("dur", time.Second, "")
	maxRuns := fl.Int64("max", 0, "")
	out := fl.String("out", "", "")
	known := fl.String("known", "", "")
	scnOnly := fl.String("scn", "", "")
	fl.StringVar(&raceLog, "racelog", "", "")
	fl.Parse(args)
	scns := harness.For(*prop)
	if *scnOnly != "" {
		scns = []*harness.Scenario{harness.Get(*scnOnly)}
	}
	if raceBuild {
		var s2 []*harness.Scenario
		for _, s := range scns {
			if s.Race {
				s2 = append(s2, s)
			}
		}
		scns = s2
	}
	if len(scns) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", *prop)
		return 2
	}
	isKnown := map[string]bool{}
	for _, k := range strings.Split(*known, "\n") {
		if k != "" {
			isKnown[k] = true
		}
	}
	capMemory()
	cur, err := os.Create(*out + ".cur")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rep := &Report{Faults: map[string]int64{}, Stats: map[string]int64{}, PerScn: map[string]int64{}, Race: raceBuild}
	hashes := map[uint64]bool{}
	nt := map[uint64]bool{}
	seen := map[string]bool{}
	t0 := time.Now()
	for i := *off; ; i += *stride {
		if time.Since(t0) > *dur || *maxRuns > 0 && rep.Runs >= *maxRuns {
			break
		}
		k := i / *stride
		s := scns[int((k+*off)%uint64(len(scns)))]
		seed := seedFor(*base, s.Name, i)
		var b [80]byte
		copy(b[:], fmt.Sprintf("%s %d\n", s.Name, seed))
		cur.WriteAt(b[:], 0)
		p := harness.NewPlan(s.Name, seed)
		ch := sim.NewChooser(seed)
		r := execute(p, ch, false)
		rep.Runs++
		rep.PerScn[s.Name]++
		rep.Steps += r.Out.Steps
		rep.SimNs += r.Out.Now
		rep.Switches += r.Out.Switches
		rep.Preempts += r.Out.Preempts
		rep.Events += r.Out.Events
		fs := ""
		for _, f := range r.Faults {
			rep.Faults[f.Name] += f.N
			fs += fmt.Sprintf("%s=%d ", f.Name, f.N)
		}
		for _, f := range r.Stats {
			rep.Stats[f.Name] += f.N
		}
		hashes[r.Out.IHash^r.Out.Hash] = true
		if r.Nontrivial {
			rep.Nontrivial++
			nt[r.Out.IHash^r.Out.Hash] = true
		}
		if len(rep.Samples) < 3 && (rep.Runs%97 == 5 || rep.Runs < 3) {
			rep.Samples = append(rep.Samples, Sample{s.Name, seed, len(p.Ops), r.Out.Steps, r.Out.Now / 1e6, fs})
		}
		if r.Bad != "" {
			rep.Bad = fmt.Sprintf("%s seed %d: %s", s.Name, seed, r.Bad)
			break
		}
		stop := false
		for _, v := range r.V {
			if v.Prop != *prop {
				rep.Stats["other_property_violations"]++
				continue
			}
			if seen[v.Key] {
				continue
			}
			seen[v.Key] = true
			rep.Findings = append(rep.Findings, &Finding{V: v, Seed: seed, Plan: p, Choices: r.Out.Choices, Hash: r.Out.Hash, Race: raceBuild})
			if !isKnown[*prop+" "+v.Key] {
				stop = true
			}
		}
		if stop {
			break
		}
		if rep.Runs%64 == 7 {
			// the same choices must give the same run
			r2 := execute(p, sim.NewReplayChooser(r.Out.Choices), false)
			rep.DetChecks++
			if r2.Out.Hash != r.Out.Hash || r2.Out.IHash != r.Out.IHash || r2.Out.Steps != r.Out.Steps {
				rep.Bad = fmt.Sprintf("%s seed %d: replaying the recorded choices gave another run (%x/%x %d/%d)", s.Name, seed, r.Out.Hash, r2.Out.Hash, r.Out.Steps, r2.Out.Steps)
				break
			}
		}
		if rep.Runs%256 == 0 {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 1<<30 {
				runtime.GC()
			}
		}
	}
	rep.WallS = time.Since(t0).Seconds()
	writeHashes(*out+".hash", hashes)
	writeHashes(*out+".nt", nt)
	j, _ := json.Marshal(rep)
	if err := os.WriteFile(*out, j, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func writeHashes(f string, m map[uint64]bool) {
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	os.WriteFile(f, b, 0644)
}

// one executes one seed; its caller wants to know whether the process survives.
func one(args []string) int {
	fl := flag.NewFlagSet("one", flag.ExitOnError)
	scn := fl.String("scn", "", "")
	seed := fl.Uint64("seed", 1, "")
	fl.StringVar(&raceLog, "racelog", "", "")
	fl.Parse(args)
	capMemory()
	execute(harness.NewPlan(*scn, *seed), sim.NewChooser(*seed), false)
	return 0
}

// capMemory makes an absurd allocation fail at once instead of eating the machine.
func capMemory() {
	if !raceBuild {
		l := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &l)
	}
}

// try runs one seed of a scenario with a trace, for development.
func try(args []string) int {
	fl := flag.NewFlagSet("try", flag.ExitOnError)
	scn := fl.String("scn", "", "")
	seed := fl.Uint64("seed", 1, "")
	n := fl.Uint64("n", 1, "")
	tr := fl.Bool("trace", false, "")
	idx := fl.Bool("idx", false, "seeds are run indexes")
	stop := fl.Bool("stop", true, "")
	prop := fl.String("prop", "", "")
	fl.StringVar(&raceLog, "racelog", "/tmp/racelog", "")
	fl.Parse(args)
	agg := map[string]int64{}
	t0 := time.Now()
	for s := *seed; s < *seed+*n; s++ {
		sd := s
		if *idx {
			sd = seedFor(1, *scn, s)
		}
		if harness.Get(*scn) == nil {
			fmt.Println("scenarios:", harness.Names())
			return 2
		}
		p := harness.NewPlan(*scn, sd)
		r := execute(p, sim.NewChooser(sd), *tr)
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		for _, x := range r.Stats {
			agg[x.Name] += x.N
		}
		for _, x := range r.Faults {
			agg["fault:"+x.Name] += x.N
		}
		agg["steps"] += r.Out.Steps
		agg["sim_ms"] += r.Out.Now / 1e6
		if r.Out.Steps > 2000000 {
			fmt.Println("seed", sd, "end", r.Out.End, "steps=", r.Out.Steps)
		}
		if r.Nontrivial {
			agg["nontrivial"]++
		}
		bad := r.Bad != ""
		for _, v := range r.V {
			if *prop == "" || v.Prop == *prop {
				bad = true
			}
		}
		if bad {
			j, _ := json.Marshal(p)
			if len(j) > 3000 {
				j = j[:3000]
			}
			if r.Bad != "" || *stop {
				fmt.Println("seed", sd, "bad:", r.Bad)
			}
			for _, v := range r.V {
				k := v.Prop + " " + v.Key
				if agg["violation:"+k]++; agg["violation:"+k] < 3 || *stop {
					m := v.Msg
					if !*stop && len(m) > 400 {
						m = m[:400]
					}
					fmt.Println("  VIOLATION seed", sd, k, m)
				}
			}
			if *stop {
				fmt.Println("  plan", string(j))
				return 1
			}
		}
		if *n == 1 {
			fmt.Printf("seed %d end=%s steps=%d switches=%d now=%dms gs=%d hash=%x\n", sd, r.Out.End, r.Out.Steps, r.Out.Switches, r.Out.Now/1e6, r.Out.Gs, r.Out.Hash)
		}
	}
	ks := make([]string, 0)
	for k := range agg {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %-30s %d\n", k, agg[k])
	}
	fmt.Println("wall", time.Since(t0), "per run", time.Since(t0)/time.Duration(*n))
	return 0
}
