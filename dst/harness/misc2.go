package harness

import (
	"fmt"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"

	"verif/dst/shim/context"
	"verif/dst/sim"
)

// ---- P12: the worker pool ----

func genWorkPool(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["size"] = int64(r.Pick(1, 1, 2, 3, 5, 8))
	p.N["clients"] = int64(1 + r.Intn(4))
	p.N["noidle"] = int64(r.Intn(2))
	if r.P(0.2) {
		p.N["direct"] = 1
	}
	n := 1 + r.Intn(r.Pick(4, 12, 40))
	span := int64(r.Pick(0, 100, 5000, 200000, 3000000))
	t := func() int64 {
		if span == 0 {
			return 0
		}
		return int64(r.Intn(int(span)))
	}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{K: "submit", At: t(), A: []int64{int64(r.Intn(8)), int64(r.Pick(0, 0, 1, 100, 20000, 700000))}})
	}
	end := 0
	for i := r.Intn(4); i > 0; i-- {
		o := Op{K: "shutdown", At: t(), A: []int64{100 + int64(i), int64(r.Pick(1, 1000, 100000, 5000000))}}
		if r.P(0.25) {
			o.At = span + int64(r.Intn(1000))
		}
		if r.P(0.3) {
			o.K = "cancel"
		}
		p.Ops = append(p.Ops, o)
		end++
	}
	// some submissions certainly after the shutdowns
	for i := r.Intn(3); i > 0 && end > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "submit", At: span + int64(r.Intn(6000000)), A: []int64{int64(r.Intn(8)), 0}})
	}
	if r.P(0.25) { // tasks that use the pool themselves
		for i := range p.Ops {
			switch o := &p.Ops[i]; {
			case o.K == "submit" && r.P(0.5):
				o.A = append(o.A, 1)
			case o.K == "shutdown" && r.P(0.4):
				o.A = append(o.A, int64(1+r.Intn(n)))
			}
		}
	}
	lullAt(r, p, 0.06)
	if r.P(0.08) {
		// tasks that keep the workers busy for long
		k, last := 2+r.Intn(8), int64(0)
		for i := range p.Ops {
			o := &p.Ops[i]
			if o.K == "submit" && k > 0 && r.P(0.6) {
				o.A[1] = int64(r.Pick(20, 35, 70, 400, 4000)) * 1000000
				last += o.A[1]
				k--
			}
		}
		for i := range p.Ops {
			if o := &p.Ops[i]; o.K != "submit" {
				if r.P(0.6) {
					o.At += int64(r.Intn(int(last + 1)))
				}
				if r.P(0.3) {
					o.A[1] = int64(r.Intn(int(last + 2)))
				}
			}
		}
	}
}

func runWorkPool(x *X) {
	a := x.newAPI("misc", NodeCfg{})
	size := int(atLeast(x.n("size"), 1))
	ctx, cancel := context.WithCancel(context.Background())
	var pool *misc.WorkPool
	mkPool := func() { pool = misc.NewWorkPool(ctx, "sim-pool", size) }
	if x.n("direct") == 0 {
		mk := x.W.GoClient(a.P, "mk", mkPool)
		x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() })
	}
	slack := 300*ms + 3*x.n("stallmax")
	type task struct {
		runs          int
		call, ret     int64 // history order
		panicked      bool
		started, ends int64
	}
	var tasks []*task
	running, peak := 0, 0
	firstStop := int64(0)    // history order of the first shutdown call or cancel
	var stopRet int64        // history order of the first return of a Shutdown
	firstStopAt := int64(-1) // virtual time
	lastEnd := int64(0)
	t0 := x.W.Now()
	stops, cancels := 0, 0
	var submit, stop func(o Op)
	inTask := filter(x.P.Ops, "shutdown")
	submit = func(o Op) {
		t := &task{}
		tasks = append(tasks, t)
		nr := int64(len(tasks))
		d := o.a(1) * us
		afterStop := stopRet != 0
		done := misc.Shutdowned == pool.Status()
		t.call = a.tick()
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.panicked = true
				}
			}()
			pool.AsyncSubmit(func() {
				t.runs++
				running++
				if running > peak {
					peak = running
				}
				if running > size {
					x.Fail("P12", "too-many-running", "%d tasks run at once in a pool of %d workers", running, size)
				}
				t.started = x.W.Now()
				if o.a(2) == 1 && len(tasks) < size { // there is room for it
					submit(Op{K: "submit", A: []int64{0, o.a(1)}})
				}
				for _, s := range inTask {
					if s.a(2) == nr {
						stop(s)
					}
				}
				if d > 0 {
					sim.Sleep(d)
				} else {
					sim.Gosched()
				}
				t.ends = x.W.Now()
				if t.ends > lastEnd {
					lastEnd = t.ends
				}
				running--
			})
		}()
		t.ret = a.tick()
		if !t.panicked && (afterStop || done) {
			x.Fail("P12", "accepted-after-shutdown", "a task submitted after the pool had shut down was accepted silently")
		}
		if t.panicked && firstStop == 0 {
			x.Fail("P12", "refused", "a submission panicked though nobody had shut the pool down")
		}
	}
	if x.n("direct") == 0 {
		for _, ops := range splitOps(filter(x.P.Ops, "submit"), int(atLeast(x.n("clients"), 1))) {
			ops := ops
			sortOps(ops)
			a.Go("submitter", func() {
				for _, o := range ops {
					a.at(t0, o.At)
					submit(o)
				}
			})
		}
	}
	// a Shutdown that comes back before its timeout says the workers are done
	early := func(call int64) {
		if running > 0 {
			x.Fail("P12", "returned-early", "Shutdown returned before its timeout while %d tasks were running", running)
		}
		for i, t := range tasks {
			if t.ret != 0 && !t.panicked && t.ret < call && t.runs == 0 {
				x.Fail("P12", "returned-early", "Shutdown returned before its timeout although task %d, submitted before, had not run", i)
			}
		}
	}
	only := len(filter(x.P.Ops, "shutdown", "cancel")) == 1
	stop = func(o Op) {
		if firstStop == 0 {
			firstStop = a.tick()
			firstStopAt = x.W.Now()
		}
		if o.K == "cancel" {
			cancels++
			cancel()
			return
		}
		stops++
		timeout := atLeast(o.a(1), 1) * us
		c, c0, s0 := x.W.Now(), a.tick(), x.W.StallNs
		pool.Shutdown(time.Duration(timeout))
		if d := x.W.Now() - c; d > timeout+slack+x.W.StallNs-s0 {
			x.Fail("P12", "shutdown-late", "Shutdown(%v) returned after %v", time.Duration(timeout), time.Duration(d))
		}
		if stopRet == 0 {
			stopRet = a.tick()
		}
		if only && x.W.Now()-c < timeout {
			early(c0)
		}
		if s := pool.Status(); s == misc.Running {
			x.Fail("P12", "status", "the pool says it is running after Shutdown returned")
		}
		// alone and with nothing left to do it returns at once
		if d := x.W.Now() - c; x.W.StallNs-s0 < slack && stops == 1 && cancels == 0 && d > slack && x.W.Now() > lastEnd+slack && running == 0 && d < timeout+slack && d >= timeout {
			busy := false
			for _, t := range tasks {
				if t.ret != 0 && !t.panicked && (t.ends == 0 || t.ends > c+timeout-slack) {
					busy = true
				}
			}
			if !busy && len(filter(x.P.Ops, "shutdown")) == 1 {
				x.Fail("P12", "shutdown-waits", "Shutdown(%v) sat out its timeout although the workers had finished %v before", time.Duration(timeout), time.Duration(x.W.Now()-lastEnd))
			}
		}
	}
	if x.n("direct") != 0 {
		// whoever makes the pool uses it and shuts it down at once
		only = true
		for _, s := range inTask {
			only = only && s.a(2) == 0
		}
		a.Go("user", func() {
			mkPool()
			for _, o := range filter(x.P.Ops, "submit") {
				submit(o)
			}
			ends := filter(x.P.Ops, "shutdown", "cancel")
			if len(ends) == 0 {
				ends = []Op{{K: "shutdown", A: []int64{0, 3000000}}}
			}
			stop(ends[0])
		})
	} else {
		for _, o := range x.P.Ops {
			o := o
			if o.K != "submit" && (o.K != "shutdown" || o.a(2) == 0) {
				a.Go("stopper", func() {
					a.at(t0, o.At)
					stop(o)
				})
			}
		}
	}
	all := int64(0)
	for _, o := range x.P.Ops {
		all += atLeast(o.a(1), 0) * us * (1 + o.a(2)&1)
	}
	done := a.wait(120*sec + all)
	if a.died("P12") {
		return
	}
	if !done {
		x.Fail("P12", "stuck", "calls on the pool do not return:%s", a.stuck())
		return
	}
	if firstStop == 0 {
		// finish with a shutdown of our own
		firstStop = a.tick()
		firstStopAt = x.W.Now()
		left := int64(0)
		for _, o := range x.P.Ops {
			left += o.a(1) * us * (1 + o.a(2)&1)
		}
		only = false // a task may still shut the pool down as well
		x.W.WaitUntil(left*(1-x.n("noidle"))+sec*(1-x.n("noidle")), 10*ms+left/20000, func() bool {
			for _, t := range tasks {
				if t.runs == 0 {
					return false
				}
			}
			return running == 0
		})
		s0 := x.W.StallNs
		fin := a.Go("final", func() {
			c, c0 := x.W.Now(), a.tick()
			s0 = x.W.StallNs
			pool.Shutdown(2 * time.Second)
			if x.W.Now()-c < 2*sec && stops == 0 {
				early(c0)
			}
		})
		c := x.W.Now()
		if !x.W.WaitUntil(20*sec, ms, func() bool { return fin.Dead() }) {
			x.Fail("P12", "stuck", "Shutdown does not return:%s", a.stuck())
			return
		}
		if x.n("noidle") == 0 && x.W.Now()-c > slack+sec+x.W.StallNs-s0 && running == 0 {
			x.Fail("P12", "shutdown-waits", "Shutdown(2s) of an idle pool took %v", time.Duration(x.W.Now()-c))
		}
	}
	_ = firstStopAt
	// workers end
	x.W.Pol.StallP = 0
	if !x.W.WaitUntil(120*sec+all, 10*ms+all/20000, func() bool { return a.P.NGs() == 0 || !a.P.Alive() }) {
		x.Fail("P12", "workers-stay", "goroutines of the pool are still alive long after the shutdown:%s", a.stuck())
	}
	if a.died("P12") {
		return
	}
	for i, t := range tasks {
		if t.runs > 1 {
			x.Fail("P12", "ran-twice", "task %d ran %d times", i, t.runs)
		}
		if t.runs > 0 && t.panicked {
			x.Fail("P12", "ran-though-refused", "task %d ran although its submission panicked", i)
		}
		if t.runs == 0 && !t.panicked && t.ret < firstStop {
			x.Fail("P12", "lost", "task %d, submitted before any shutdown began, never ran", i)
		}
	}
	x.Nontrivial = len(tasks) > 0
	x.Count("tasks", int64(len(tasks)))
	x.Count("shutdown_calls", int64(stops))
	x.Count("cancels", int64(cancels))
}

func filter(ops []Op, kinds ...string) (out []Op) {
	for _, o := range ops {
		for _, k := range kinds {
			if o.K == k {
				out = append(out, o)
			}
		}
	}
	return
}

func sortOps(ops []Op) {
	for i := 1; i < len(ops); i++ {
		for j := i; j > 0 && ops[j].At < ops[j-1].At; j-- {
			ops[j], ops[j-1] = ops[j-1], ops[j]
		}
	}
}

// ---- P13: shutdown, at the API ----

func genShutdown(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["timeout"] = int64(r.Pick(1, 50, 1000, 5000)) * ms
	p.N["trigger"] = int64(r.Intn(3)) // 0 SIGTERM, 1 SIGINT, 2 cancel
	p.N["again"] = int64(r.Pick(0, 0, 1, 3))
	at := int64(r.Pick(0, 0, 10, 5000, 300000))
	p.N["sigat"] = at
	p.N["waitat"] = int64(r.Pick(0, 0, 10, 5000, 200000))
	n := r.Intn(7)
	if r.P(0.04) {
		n = 8 + r.Intn(200)
	}
	for i := n; i > 0; i-- {
		o := Op{K: "clean", At: 0, A: []int64{int64(r.Pick(0, 0, 1, 100, 10000, 900000, 4990000, -1))}}
		if r.P(0.3) {
			o.At = int64(r.Intn(int(at + 20)))
		}
		o.A = append(o.A, int64(b2i(r.P(0.3)))) // registered together with the next
		if r.P(0.1) {
			o.A = append(o.A, 1) // registers another
		}
		p.Ops = append(p.Ops, o)
	}
}

func runShutdown(x *X) {
	a := x.newAPI("misc", NodeCfg{})
	ctx, cancel := context.WithCancel(context.Background())
	slack := 300*ms + 3*x.n("stallmax")
	timeout := atLeast(x.n("timeout"), ms)
	type clean struct {
		ret    int64 // registration returned (history order)
		starts int
		end    int64
		never  bool
	}
	var cleans []*clean
	t0 := x.W.Now()
	trigger := int64(0) // history order
	trigAt := int64(0)
	trigStall := int64(0)
	mk := x.W.GoClient(a.P, "init2", func() { misc.InitShutdownCtx(ctx) })
	x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() })
	fn := func(c *clean, d int64, another bool) misc.CleanFunc {
		return func() {
			c.starts++
			if c.starts > 1 {
				x.Fail("P13", "clean-twice", "a cleanup was started %d times", c.starts)
			}
			if trigger == 0 {
				x.Fail("P13", "clean-early", "a cleanup ran before any shutdown was asked for")
			}
			if d < 0 {
				c.never = true
				sim.BlockForever()
			}
			if d > 0 {
				sim.Sleep(d * us)
			}
			if another {
				// too late to be sure that it is run, but no reason to wait
				misc.RegisterShutDownClean(func() {})
			}
			c.end = x.W.Now()
		}
	}
	var batch []misc.CleanFunc
	var bc []*clean
	for i, o := range x.P.Ops {
		c := &clean{}
		cleans = append(cleans, c)
		f := fn(c, o.a(0), o.a(2) == 1)
		if o.At > 0 {
			at := o.At
			a.Go("registrar", func() {
				a.at(t0, at)
				misc.RegisterShutDownClean(f)
				c.ret = a.tick()
			})
			continue
		}
		batch, bc = append(batch, f), append(bc, c)
		if o.a(1) == 1 && i+1 < len(x.P.Ops) && x.P.Ops[i+1].At == 0 {
			continue
		}
		b, cs := batch, bc
		batch, bc = nil, nil
		g := x.W.GoClient(a.P, "registrar", func() {
			misc.RegisterShutDownClean(b...)
			for _, c := range cs {
				c.ret = a.tick()
			}
		})
		x.W.WaitUntil(10*sec, us, func() bool { return g.Dead() })
	}
	t0 = x.W.Now()
	waitRet := int64(0)
	a.Go("waiter", func() {
		a.at(t0, x.n("waitat"))
		misc.Wait4Shutdown(time.Duration(timeout))
		waitRet = x.W.Now()
		if trigger == 0 {
			x.Fail("P13", "wait-early", "the wait returned before any shutdown was asked for")
			return
		}
		// every cleanup known at the trigger has run, or the time is up
		base := trigAt
		if w := t0 + x.n("waitat")*us; w > base {
			base = w
		}
		if d := waitRet - base; d > timeout+slack+x.W.StallNs-trigStall {
			x.Fail("P13", "wait-late", "the wait returned %v after the trigger, its timeout is %v", time.Duration(d), time.Duration(timeout))
		} else if d < timeout {
			for i, c := range cleans {
				if c.ret != 0 && c.ret < trigger && c.end == 0 {
					x.Fail("P13", "wait-abandons", "the wait returned after %v, with cleanup %d not finished and the timeout at %v", time.Duration(d), i, time.Duration(timeout))
				}
			}
		}
		last, all := base, true
		for _, c := range cleans {
			if c.end == 0 {
				all = false
			}
			if c.end > last {
				last = c.end
			}
		}
		if all && waitRet > last+slack+x.W.StallNs-trigStall {
			x.Fail("P13", "wait-oversleeps", "the wait returned %v after the last cleanup had finished", time.Duration(waitRet-last))
		}
	})
	a.at(t0, x.n("sigat"))
	trigger, trigAt, trigStall = a.tick(), x.W.Now(), x.W.StallNs
	switch x.n("trigger") {
	case 0:
		x.W.Signal(a.P, 15)
	case 1:
		x.W.Signal(a.P, 2)
	default:
		g := x.W.GoClient(a.P, "canceller", func() { cancel() })
		x.W.WaitUntil(10*sec, us, func() bool { return g.Dead() })
	}
	for i := int64(0); i < x.n("again"); i++ {
		sim.Sleep(10 * us)
		if a.P.Alive() {
			x.W.Signal(a.P, 15)
		}
	}
	done := x.W.WaitUntil(60*sec, ms, func() bool { return waitRet != 0 || !a.P.Alive() })
	if a.died("P13") {
		return
	}
	if !done {
		x.Fail("P13", "stuck", "the wait for shutdown does not return:%s", a.stuck())
		return
	}
	x.W.Pol.StallP = 0
	sim.Sleep(6 * sec)
	if a.died("P13") {
		return
	}
	for i, c := range cleans {
		if c.ret != 0 && c.ret < trigger && c.starts != 1 {
			x.Fail("P13", "clean-missed", "cleanup %d was registered before the shutdown and started %d times", i, c.starts)
		}
	}
	for i, c := range cleans {
		if c.starts > 0 && c.end == 0 && !c.never {
			x.Fail("P13", "clean-stuck", "cleanup %d, which registers another, does not come to its end:%s", i, a.stuck())
		}
	}
	x.Nontrivial = len(cleans) > 0
	x.Count("cleanups", int64(len(cleans)))
	x.W.WaitUntil(10*sec, 10*ms, func() bool {
		n := 0
		for _, c := range cleans {
			if c.never {
				n++
			}
		}
		return a.P.NGs() <= n*2
	})
	_ = fmt.Sprint
}

func init() {
	register(&Scenario{Name: "workpool", Props: []string{"P12", "P21"}, Gen: genWorkPool, Run: runWorkPool, Race: true,
		Rule: "at least one task was submitted", Keep: map[string]bool{"size": true, "clients": true}})
	register(&Scenario{Name: "shutdown", Props: []string{"P13", "P21"}, Gen: genShutdown, Run: runShutdown, Race: true,
		Rule: "at least one cleanup was registered", Keep: map[string]bool{"timeout": true}})
}
