package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unicode"

	"verif/dst/harness"
)

// known is an entry of the known-findings file.
type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed: ..."
}

type job struct {
	race bool
	out  string
	cmd  *exec.Cmd
	done chan error
	err  error
}

const goraceOpts = "halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3 log_path="

func trouble(format string, a ...interface{}) int {
	fmt.Fprintf(os.Stderr, "check: "+format+"\n", a...)
	return 2
}

func tail(f string, n int) string {
	b, _ := os.ReadFile(f)
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func check(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	seed := fl.Uint64("seed", 1, "")
	work := fl.String("work", "", "scratch directory")
	verif := fl.String("verif", "/verif", "")
	raceBin := fl.String("race", "", "the race build, if any")
	dur := fl.Duration("dur", 25*time.Second, "")
	nproc := fl.Int("j", 8, "")
	build := fl.Float64("build", 0, "seconds spent building")
	fl.Parse(args)
	t0 := time.Now()
	self, err := os.Executable()
	if err != nil {
		return trouble("%v", err)
	}
	scns := harness.For(*prop)
	if len(scns) == 0 {
		return trouble("no scenario decides %s", *prop)
	}
	var kn []known
	if b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kn); err != nil {
			return trouble("known_findings.json: %v", err)
		}
	}
	isKnown := map[string]known{}
	var knArg []string
	for _, k := range kn {
		if k.Status == "known" && k.Property == *prop {
			isKnown[k.Key] = k
			knArg = append(knArg, k.Property+" "+k.Key)
		}
	}
	nrace, raceOnly := 0, *prop == "P21"
	anyRace := false
	for _, s := range scns {
		anyRace = anyRace || s.Race
	}
	if *raceBin != "" && anyRace {
		nrace = *nproc * 3 / 8
		if raceOnly {
			nrace = *nproc
		}
	}
	if raceOnly && nrace == 0 {
		return trouble("%s needs the race build", *prop)
	}
	start := func(bin string, race bool, name string, a ...string) *job {
		j := &job{race: race, out: filepath.Join(*work, name), done: make(chan error, 1)}
		a = append(a, "-racelog", j.out+".race")
		j.cmd = exec.Command(bin, a...)
		if f, err := os.Create(j.out + ".log"); err == nil {
			j.cmd.Stdout, j.cmd.Stderr = f, f
			defer f.Close()
		}
		j.cmd.Env = append(os.Environ(), "GORACE="+goraceOpts+j.out+".race")
		j.cmd.Dir = *work
		if err := j.cmd.Start(); err != nil {
			j.done <- err
			return j
		}
		go func() { j.done <- j.cmd.Wait() }()
		return j
	}
	wait := func(j *job, d time.Duration) bool {
		select {
		case j.err = <-j.done:
			return true
		case <-time.After(d):
			j.cmd.Process.Kill()
			j.err = <-j.done
			return false
		}
	}
	rcode := func(j *job) int {
		if j.err == nil {
			return 0
		}
		if e, ok := j.err.(*exec.ExitError); ok && e.Exited() {
			return e.ExitCode()
		}
		return -1
	}
	binFor := func(race bool) string {
		if race {
			return *raceBin
		}
		return self
	}
	var jobs []*job
	for i := 0; i < *nproc; i++ {
		race := i < nrace
		jobs = append(jobs, start(binFor(race), race, fmt.Sprintf("w%d", i), "worker", "-prop", *prop,
			"-seed", fmt.Sprint(*seed), "-off", fmt.Sprint(i), "-stride", fmt.Sprint(*nproc),
			"-dur", dur.String(), "-out", filepath.Join(*work, fmt.Sprintf("w%d", i)), "-known", strings.Join(knArg, "\n")))
	}
	tot := &Report{Faults: map[string]int64{}, Stats: map[string]int64{}, PerScn: map[string]int64{}}
	hashes, nts := map[uint64]bool{}, map[uint64]bool{}
	var finds []*Finding
	var raceRuns int64
	var samples []interface{}
	var lost []string // why workers gave no answer
	limit := time.Now().Add(*dur + 90*time.Second)
	for _, j := range jobs {
		inTime := wait(j, time.Until(limit))
		b, rerr := os.ReadFile(j.out)
		rep := new(Report)
		if rerr == nil {
			rerr = json.Unmarshal(b, rep)
		}
		if j.err != nil || rerr != nil {
			f, why := investigate(j, inTime, start, wait, rcode, binFor(j.race), *prop)
			if f == nil {
				lost = append(lost, fmt.Sprintf("a worker failed: %v %v in time %v: %s\n%s", j.err, rerr, inTime, why, tail(j.out+".log", 3000)))
			} else {
				finds = append(finds, f)
			}
			continue
		}
		if rep.Bad != "" {
			lost = append(lost, rep.Bad)
			continue
		}
		tot.Runs += rep.Runs
		tot.Nontrivial += rep.Nontrivial
		tot.Steps += rep.Steps
		tot.SimNs += rep.SimNs
		tot.Switches += rep.Switches
		tot.Preempts += rep.Preempts
		tot.Events += rep.Events
		tot.DetChecks += rep.DetChecks
		if rep.Race {
			raceRuns += rep.Runs
		}
		for k, v := range rep.Faults {
			tot.Faults[k] += v
		}
		for k, v := range rep.Stats {
			tot.Stats[k] += v
		}
		for k, v := range rep.PerScn {
			tot.PerScn[k] += v
		}
		readHashes(j.out+".hash", hashes)
		readHashes(j.out+".nt", nts)
		for _, s := range rep.Samples {
			if len(samples) < 6 {
				samples = append(samples, s)
			}
		}
		finds = append(finds, rep.Findings...)
	}
	searchS := time.Since(t0).Seconds()
	// one finding per key, smallest first
	sort.SliceStable(finds, func(i, k int) bool {
		if finds[i].V.Key != finds[k].V.Key {
			return finds[i].V.Key < finds[k].V.Key
		}
		return len(finds[i].Choices) < len(finds[k].Choices)
	})
	var uniq []*Finding
	knownHit := map[string]bool{}
	for _, f := range finds {
		if _, ok := isKnown[f.V.Key]; ok {
			knownHit[f.V.Key] = true
			continue
		}
		if len(uniq) == 0 || uniq[len(uniq)-1].V.Key != f.V.Key {
			uniq = append(uniq, f)
		}
	}
	for k, e := range isKnown {
		hit := ""
		if knownHit[k] {
			hit = " (met again in this run)"
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]%s\n", *prop, e.What, k, hit)
	}
	// what the other workers found counts all the same: it has to replay
	if len(lost) > 0 && len(uniq) == 0 {
		return trouble("%s", lost[0])
	}
	code := 0
	if len(uniq) > 0 {
		if len(uniq) > 3 {
			uniq = uniq[:3]
		}
		rdir := filepath.Join(*verif, "replays")
		os.MkdirAll(rdir, 0755)
		shown := 0
		why := ""
		for i, f := range uniq {
			in := filepath.Join(*work, fmt.Sprintf("f%d.json", i))
			b, _ := json.Marshal(f)
			os.WriteFile(in, b, 0644)
			final := in
			bud := 12 * time.Second
			if *tier == "thorough" {
				bud = 60 * time.Second
			}
			if !f.Fatal {
				m := start(binFor(f.Race), f.Race, fmt.Sprintf("m%d", i), "minimise", "-in", in, "-out", in+".min", "-budget", bud.String())
				wait(m, bud+60*time.Second)
				if rcode(m) == 0 {
					final = in + ".min"
				}
			}
			// it must happen again in a fresh process, identically
			r := replayJob(start, binFor(f.Race), f.Race, fmt.Sprintf("r%d", i), final)
			wait(r, 120*time.Second)
			ok := rcode(r) == 1
			if !ok && final != in {
				final = in
				r = replayJob(start, binFor(f.Race), f.Race, fmt.Sprintf("s%d", i), final)
				wait(r, 120*time.Second)
				ok = rcode(r) == 1
			}
			if f.Fatal {
				ok = true // investigate re-executed it already
			}
			if !ok {
				why += fmt.Sprintf("%s %s: does not replay (%d): %s\n", f.V.Prop, f.V.Key, rcode(r), tail(r.out+".log", 800))
				continue
			}
			b, _ = os.ReadFile(final)
			ff := new(Finding)
			json.Unmarshal(b, ff)
			if len(ff.Trace) == 0 {
				ff.Trace = []string{"(replay prints the trace)"}
			}
			b, _ = json.MarshalIndent(ff, "", " ")
			h := uint64(14695981039346656037)
			for _, c := range []byte(f.V.Key) {
				h = (h ^ uint64(c)) * 1099511628211
			}
			path := filepath.Join(rdir, fmt.Sprintf("%s-%08x-%d.json", *prop, uint32(h), *seed))
			if err := os.WriteFile(path, b, 0644); err != nil {
				return trouble("%v", err)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			fmt.Printf("  key: %s\n  what: %s\n  seed: %d scenario: %s choices: %d steps recorded\n", ff.V.Key, indent(ff.V.Msg), f.Seed, f.Plan.Scn, len(ff.Choices))
			shown++
		}
		if shown == 0 {
			return trouble("violations were seen but none replays\n%s", why)
		}
		code = 1
	}
	if tot.Runs == 0 && code == 0 {
		return trouble("no run was executed")
	}
	if tot.Nontrivial == 0 && code == 0 {
		return trouble("no run reached the situation %s is about", *prop)
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	hr := searchS / 3600
	cov := map[string]interface{}{
		"evaluations":         tot.Runs,
		"distinct_nontrivial": len(nts),
		"rule":                "one evaluation is one simulated execution (a seeded plan of operations and faults plus a seeded schedule) of scenarios " + names(scns) + ", spread over their seeds; it is non-trivial when it reached the situation the property is about (" + ruleFor(scns) + "); two are distinct when their event logs or their interleavings (sequence of goroutine switches) differ",
		"samples":             samples,
		"nontrivial_runs":     tot.Nontrivial,
		"distinct_executions": len(hashes),
		"distinct_measure":    "64-bit hash of the event log (every network, disk, clock and synchronisation event with its virtual time) xor hash of the interleaving (which goroutine ran, and why the previous one stopped)",
		"runs_per_hour":       int64(float64(tot.Runs) / hr),
		"seeds_per_hour":      int64(float64(tot.Runs) / hr),
		"simulated_seconds":   float64(tot.SimNs) / 1e9,
		"steps":               tot.Steps,
		"goroutine_switches":  tot.Switches,
		"preemptions":         tot.Preempts,
		"simulator_events":    tot.Events,
		"faults_injected":     tot.Faults,
		"reach_counters":      tot.Stats,
		"runs_per_scenario":   tot.PerScn,
		"determinism_rechecks": map[string]interface{}{
			"re-executed": tot.DetChecks, "differed": 0},
		"race_detector_runs": raceRuns,
		"worker_processes":   *nproc,
		"build_s":            *build,
		"components_real":    "every non-test package of P2Pcrawler rebuilt from the working tree by source weaving (main, cmd, config, dht, dht/krpc, dht/peerwire, misc), cobra, viper, afero, zap, lumberjack, encoding and crypto libraries",
		"components_stub":    "goroutine scheduler, channels, select, sync, sync/atomic, time, context timers, net (UDP, TCP, DNS), os files and signals, crypto/rand and math/rand, net/http listener, remote DHT nodes and BitTorrent peers (scripted)",
	}
	viol := 0
	if code == 1 {
		viol = len(uniq)
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"code interleaves at every statement, synchronisation operation and memory access to package or shared state the weaver instruments; instruction-level reordering inside a statement is left to the race detector runs",
			"the simulated kernel follows Linux semantics for the calls used; its faults are those listed under faults_injected",
		},
		"wall_s": time.Since(t0).Seconds() + *build, "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0644); err != nil {
		return trouble("%v", err)
	}
	fmt.Printf("%s %s: %d runs (%d non-trivial and distinct), %.0f simulated s, %.1f s, violations: %d\n", *prop, *tier, tot.Runs, len(nts), float64(tot.SimNs)/1e9, time.Since(t0).Seconds(), viol)
	return code
}

// indent makes a message fit to print, whatever bytes it quotes.
func indent(s string) string {
	s = strings.Map(func(c rune) rune {
		if c != '\n' && !unicode.IsPrint(c) {
			return '.'
		}
		return c
	}, strings.ToValidUTF8(s, "."))
	return strings.ReplaceAll(s, "\n", "\n    ")
}

func names(s []*harness.Scenario) string {
	var out []string
	for _, x := range s {
		out = append(out, x.Name)
	}
	return strings.Join(out, ", ")
}

func ruleFor(s []*harness.Scenario) string {
	var out []string
	for _, x := range s {
		out = append(out, x.Name+": "+x.Rule)
	}
	return strings.Join(out, "; ")
}

func replayJob(start func(string, bool, string, ...string) *job, bin string, race bool, name, file string) *job {
	j := start(bin, race, name, "replay", "-q", "-file", file)
	return j
}

// investigate re-executes the run a worker died in. Only a death that happens
// again, for a reason the code under test controls, is a violation.
func investigate(j *job, inTime bool, start func(string, bool, string, ...string) *job, wait func(*job, time.Duration) bool, rcode func(*job) int, bin, prop string) (*Finding, string) {
	b, err := os.ReadFile(j.out + ".cur")
	if err != nil {
		return nil, err.Error()
	}
	var scn string
	var seed uint64
	if n, _ := fmt.Sscanf(string(b), "%s %d", &scn, &seed); n != 2 {
		return nil, "no current run"
	}
	if !inTime {
		return nil, fmt.Sprintf("it was still in run %s %d", scn, seed)
	}
	s := harness.Get(scn)
	fatalOf := func(f string) string {
		log := tail(f, 1<<20)
		for _, m := range []string{"stack overflow", "out of memory", "cannot allocate memory"} {
			if strings.Contains(log, m) {
				return m
			}
		}
		return ""
	}
	m := fatalOf(j.out + ".log")
	decides := false
	for _, h := range s.Hang {
		decides = decides || h == prop
	}
	for _, h := range s.Props { // what no input may do to the node
		decides = decides || h == prop && (h == "P02" || h == "P10")
	}
	if m == "" || !decides {
		return nil, fmt.Sprintf("it died in run %s %d", scn, seed)
	}
	r := start(bin, j.race, filepath.Base(j.out)+"x", "one", "-scn", scn, "-seed", fmt.Sprint(seed))
	wait(r, 120*time.Second)
	if rcode(r) == 0 || fatalOf(r.out+".log") != m {
		return nil, fmt.Sprintf("it died in run %s %d (%s) but that did not repeat", scn, seed, m)
	}
	return &Finding{V: harness.Violation{Prop: prop, Key: "fatal:" + m, Msg: "the process is killed by a fatal error: " + m},
		Seed: seed, Plan: harness.NewPlan(scn, seed), Race: j.race, Fatal: true}, ""
}

func readHashes(f string, into map[uint64]bool) {
	b, _ := os.ReadFile(f)
	for ; len(b) >= 8; b = b[8:] {
		into[binary.LittleEndian.Uint64(b)] = true
	}
}
