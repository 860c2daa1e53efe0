package harness

import (
	"fmt"
	"strings"
	"unsafe"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/misc"

	"verif/dst/sim"
)

// ---- P15: the synchronised map ----

func genSyncMap(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["clients"] = int64(2 + r.Intn(4))
	p.N["keys"] = int64(r.Pick(1, 2, 3, 1, 2, 3, 8, 40))
	p.N["style"] = int64(r.Pick(0, 0, 1, 2, 3, 4))
	p.N["cap"] = int64(r.Pick(4, 4, 0, 1, 100))
	n := 4 + r.Intn(r.Pick(6, 16, 40, 100))
	for i := 0; i < n; i++ {
		k := []string{"put", "put", "get", "get", "del", "take"}[r.Intn(6)]
		v := int64(i + 1)
		if r.P(0.05) {
			v = nilVal
		} else if r.P(0.05) {
			v = 1 // the same value again
		}
		p.Ops = append(p.Ops, Op{K: k, A: []int64{int64(r.Intn(8)), int64(r.Intn(40)), v}})
		if r.P(0.01) {
			p.Ops = append(p.Ops, Op{K: "bulk", A: []int64{int64(r.Intn(8)), int64(i), int64(r.Pick(9, 70, 300, 1100, 3000))}})
		}
	}
	genLull(r, p)
}

// nilVal stands for the value nil.
const nilVal = -1

// mapKey names key k so that sloppy comparisons confuse it with another.
func mapKey(style, k int64) string {
	switch style {
	case 1:
		return strings.Repeat("x", int(k)) // "" among them
	case 2:
		return strings.Repeat("long key ", 40) + fmt.Sprint(k)
	case 3: // transaction ids: binary, little or big end first
		return string([]byte{byte(k & 1), 0, byte(k >> 1)})
	case 4:
		return []string{"a", "A", "a ", "\xff", "\ufffd", "\u212a", "k", "K"}[k&7] + strings.Repeat("\x00", int(k>>3))
	}
	return fmt.Sprintf("k%d", k)
}

type mapOp struct {
	kind string
	val  int64
	ok   bool
}

type taker interface {
	Take(string) (interface{}, bool)
}

func runSyncMap(x *X) {
	a := x.newAPI("misc", NodeCfg{})
	nc, nk := int(atLeast(x.n("clients"), 1)), atLeast(x.n("keys"), 1)
	hist := make([][]lop, nk)
	var m *misc.SyncMap
	mk := x.W.GoClient(a.P, "mk", func() { m = misc.NewSyncMap(int(x.n("cap"))) })
	x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() })
	many := func(o Op) {
		n := o.a(2)
		key := func(i int64) string { return fmt.Sprintf("bulk%d/%d", o.a(1), i) }
		for i := int64(0); i < n; i++ {
			m.Put(key(i), i)
			if i%3 == 2 {
				m.Del(key(i - 1))
			}
		}
		for i := int64(0); i < n; i++ {
			v, ok := m.Get(key(i))
			if gone := i%3 == 1 && i+1 < n; gone && ok {
				x.Fail("P15", "bulk", "Get(%s) returns %v after Del", key(i), v)
			} else if !gone && (!ok || v != i) {
				x.Fail("P15", "bulk", "Get(%s) returns %v, %v after Put(%d) and %d keys in all", key(i), v, ok, i, n)
			}
		}
	}
	for _, ops := range splitOps(x.P.Ops, nc) {
		ops := ops
		a.Go("client", func() {
			for _, o := range ops {
				a.lull()
				if o.K == "bulk" {
					many(o)
					continue
				}
				k := o.a(1) % nk
				key := mapKey(x.n("style"), k)
				in := &mapOp{kind: o.K, val: o.a(2)}
				if in.val == 0 {
					in.val = 1
				}
				l := lop{Call: a.tick(), In: in}
				var v interface{}
				var ok bool
				switch o.K {
				case "put":
					if in.val == nilVal {
						m.Put(key, nil)
					} else {
						m.Put(key, in.val)
					}
				case "get":
					v, ok = m.Get(key)
				case "del":
					m.Del(key)
				case "take":
					t, has := interface{}(m).(taker)
					if !has {
						continue
					}
					v, ok = t.Take(key)
				}
				l.Ret = a.tick()
				if o.K == "get" || o.K == "take" {
					in.ok = ok
					in.val = 0
					if ok && v == nil {
						in.val = nilVal
					} else if ok {
						n, good := v.(int64)
						if !good {
							x.Fail("P15", "value", "%s(%q) reports a value but returns %v", o.K, key, v)
						}
						in.val = n
					} else if v != nil {
						x.Fail("P15", "value", "%s(%q) reports no value but returns %v", o.K, key, v)
					}
				}
				l.Desc = fmt.Sprintf("%s(%q)=%d,%v", o.K, key, in.val, in.ok)
				hist[k] = append(hist[k], l)
			}
		})
	}
	done := a.wait(60 * sec)
	if a.died("P15") {
		return
	}
	if !done {
		x.Fail("P15", "stuck", "operations do not return:%s", a.stuck())
		return
	}
	for _, h := range hist {
		ok, gave := linearizable(h, int64(0), func(s interface{}, o *lop) (interface{}, bool) {
			in := o.In.(*mapOp)
			switch in.kind {
			case "put":
				return in.val, true
			case "del":
				return int64(0), true
			case "take":
				return int64(0), in.ok == (s.(int64) != 0) && in.val == s.(int64)
			}
			return s, in.ok == (s.(int64) != 0) && in.val == s.(int64)
		})
		if gave {
			x.Count("search_gave_up", 1)
		}
		if !ok {
			x.Fail("P15", "not-linearizable", "no sequential order explains the history of one key: %s", histString(h))
		}
		if len(h) > 1 {
			x.Nontrivial = true
		}
		x.Count("map_operations", int64(len(h)))
	}
}

// ---- P14: the byte pool ----

func genBytesPool(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["clients"] = int64(1 + r.Intn(5))
	p.N["max"] = int64(r.Pick(0, 1, 2, 3, 100))
	p.N["width"] = int64(r.Pick(1, 4, 8, 16, 3, 1000, 1024))
	sizes := []int{4, 8, 12, 16, 1024, 1}
	if r.P(0.5) {
		for i := range sizes {
			sizes[i] = r.Pick(0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 32, 33, 1000, 1024, 4096, 70000, r.Intn(200), int(p.N["width"]), int(p.N["width"])+1)
		}
		sizes = sizes[:1+r.Intn(6)]
	}
	n := 4 + r.Intn(r.Pick(8, 30, 80))
	for i := 0; i < n; i++ {
		k := []string{"get", "getn", "getn", "put", "put", "putcut", "putoff", "foreign", "check"}[r.Intn(9)]
		p.Ops = append(p.Ops, Op{K: k, A: []int64{int64(r.Intn(8)), int64(r.Pick(sizes...)), int64(r.Intn(50)), int64(r.Pick(0, 0, 1, 50))}})
	}
	genLull(r, p)
}

type held struct {
	b   []byte
	tag byte
	id  int
}

func base(b []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(b))) }

func runBytesPool(x *X) {
	a := x.newAPI("misc", NodeCfg{})
	nc := int(atLeast(x.n("clients"), 1))
	var bp *misc.BytesPool
	width := int(atLeast(x.n("width"), 1))
	mk := x.W.GoClient(a.P, "mk", func() { bp = misc.NewBytesPool(int(x.n("max")), width) })
	x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() })
	holders := map[int]*held{} // everything held by anyone
	next := 0
	take := func(b []byte, want int) *held {
		if len(b) != want {
			x.Fail("P14", "length", "asked for %d bytes, got %d", want, len(b))
		}
		next++
		h := &held{b: b, tag: byte(next), id: next}
		lo, hi := base(b), base(b)+uintptr(cap(b))
		if cap(b) > 0 {
			for i := 1; i <= next; i++ {
				o := holders[i]
				if o == nil || cap(o.b) == 0 {
					continue
				}
				l2, h2 := base(o.b), base(o.b)+uintptr(cap(o.b))
				if lo < h2 && l2 < hi {
					x.Fail("P14", "shared", "a buffer of %d bytes was handed out while its memory is still held by another caller", want)
				}
			}
		}
		for i := range b {
			b[i] = h.tag
		}
		holders[h.id] = h
		return h
	}
	check := func(h *held) {
		for i := range h.b {
			if h.b[i] != h.tag {
				x.Fail("P14", "overwritten", "a buffer's content changed while its holder had it")
				return
			}
		}
	}
	reused := map[uintptr]bool{}
	for _, ops := range splitOps(x.P.Ops, nc) {
		ops := ops
		a.Go("client", func() {
			var mine []*held
			pop := func(i int64) *held {
				if len(mine) == 0 {
					return nil
				}
				k := int(i) % len(mine)
				h := mine[k]
				mine = append(mine[:k:k], mine[k+1:]...)
				check(h)
				delete(holders, h.id)
				return h
			}
			for _, o := range ops {
				a.lull()
				switch o.K {
				case "get":
					b := bp.Get()
					mine = append(mine, take(b, width))
				case "getn":
					b := bp.GetBySize(int(atLeast(o.a(1), 0)))
					h := take(b, int(atLeast(o.a(1), 0)))
					if reused[base(b)] {
						x.Count("buffers_reused", 1)
						x.Nontrivial = true
					}
					mine = append(mine, h)
				case "put":
					if h := pop(o.a(2)); h != nil {
						reused[base(h.b)] = true
						bp.Put(h.b)
					}
				case "putcut":
					if h := pop(o.a(2)); h != nil {
						reused[base(h.b)] = true
						bp.Put(h.b[:len(h.b)/2])
					}
				case "putoff":
					if h := pop(o.a(2)); h != nil {
						if len(h.b) > 1 {
							bp.Put(h.b[1:])
						}
					}
				case "foreign":
					bp.Put(make([]byte, atLeast(o.a(1), 0)))
				case "check":
					for _, h := range mine {
						check(h)
					}
				}
				if o.a(3) > 0 {
					sim.Sleep(o.a(3) * us)
				}
			}
			for _, h := range mine {
				check(h)
			}
		})
	}
	done := a.wait(60 * sec)
	if a.died("P14") {
		return
	}
	if !done {
		x.Fail("P14", "stuck", "operations on the pool do not return:%s", a.stuck())
	}
}

// ---- P04: transaction ids ----

func genTxID(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["clients"] = int64(1 + r.Intn(6))
	p.N["init"] = int64(r.Pick(0, 1000, 255, 65535, 65530, 32767, r.Intn(65536)))
	p.N["draws"] = int64(r.Pick(2, 10, 60, 300))
	if r.P(0.02) {
		p.N["draws"] = 65536 / p.N["clients"]
		p.N["gap"] = 400
		p.N["stall"] = 0
	}
}

func runTxID(x *X) {
	a := x.newAPI("dht", NodeCfg{Port: 21000, Pool: 1, QueueSize: 1, FetchWP: 1})
	nc := int(atLeast(x.n("clients"), 1))
	g := dht.NewTxIdGenerator(uint16(x.n("init")))
	n := int(atLeast(x.n("draws"), 1))
	if n*nc > 65536 {
		n = 65536 / nc
	}
	seen := make(map[string]bool, n*nc)
	for i := 0; i < nc; i++ {
		a.Go("client", func() {
			for k := 0; k < n; k++ {
				id := g.Next()
				if seen[id] {
					x.Fail("P04", "duplicate", "transaction id %q was handed out twice within %d draws", id, len(seen)+1)
				}
				if id == "" {
					x.Fail("P04", "empty", "an empty transaction id was handed out")
				}
				seen[id] = true
			}
		})
	}
	done := a.wait(600 * sec)
	if a.died("P04") {
		return
	}
	if !done {
		x.Fail("P04", "stuck", "draws do not return:%s", a.stuck())
	}
	x.Nontrivial = nc > 1
	x.Count("ids_drawn", int64(len(seen)))
}

// ---- P17: the logger registry ----

type fakeLogger struct {
	name    string
	lvl     misc.LogLevel
	flushes int
}

func (l *fakeLogger) SetPrefix(prefix string) misc.Logger { return l }
func (l *fakeLogger) Debug(msg string, ctx misc.Dict)     {}
func (l *fakeLogger) Info(msg string, ctx misc.Dict)      {}
func (l *fakeLogger) Warn(msg string, ctx misc.Dict)      {}
func (l *fakeLogger) Error(msg string, ctx misc.Dict)     {}
func (l *fakeLogger) Panic(msg string, ctx misc.Dict)     {}
func (l *fakeLogger) Trace(msg string, ctx misc.Dict)     {}
func (l *fakeLogger) Flush()                              { sim.Gosched(); l.flushes++ }

type fakeFactory struct {
	x      *X
	made   smap[string, int]
	last   []*fakeLogger
	pause  int64
	sets   []*lvlSet
	asking smap[string, []int64] // when the look-ups under way began
}

// lvlSet is one call that sets the level.
type lvlSet struct {
	lvl        misc.LogLevel
	start, end int64
}

// stale says whether level was no longer in force at any time since at.
func (f *fakeFactory) stale(level misc.LogLevel, at int64) bool {
	for _, s := range f.sets {
		if s.lvl != level {
			continue
		}
		over := false
		for _, t := range f.sets {
			if s.end > 0 && s.end < t.start && t.end > 0 && t.end < at {
				over = true
			}
		}
		if !over {
			return false
		}
	}
	return true
}

func (f *fakeFactory) GetDefaultName() string { return "dflt" }
func (f *fakeFactory) NewLogger(name string, level misc.LogLevel) misc.Logger {
	if f.pause > 0 {
		sim.Sleep(f.pause)
	} else {
		sim.Gosched()
	}
	*f.made.at(name)++
	if n := *f.made.at(name); n > 1 {
		f.x.Fail("P17", "made-twice", "logger %q was created %d times", name, n)
	}
	at := int64(1) << 62
	for _, t := range *f.asking.at(name) {
		if t > 0 && t < at {
			at = t
		}
	}
	if f.stale(level, at) {
		f.x.Fail("P17", "level", "logger %q was created with level %d, which was not in force", name, level)
	}
	l := &fakeLogger{name: name, lvl: level}
	f.last = append(f.last, l)
	return l
}

func genLogger(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["clients"] = int64(2 + r.Intn(5))
	p.N["names"] = int64(1 + r.Intn(5))
	p.N["style"] = int64(r.Intn(len(logNames) + 1))
	p.N["pause"] = int64(r.Pick(0, 0, 1, 50)) * us
	n := 4 + r.Intn(r.Pick(8, 30))
	for i := 0; i < n; i++ {
		k := []string{"get", "get", "get", "get", "default", "level", "flush"}[r.Intn(7)]
		p.Ops = append(p.Ops, Op{K: k, A: []int64{int64(r.Intn(8)), int64(r.Intn(5))}})
		if r.P(0.01) {
			p.N["pause"] = 0
			p.Ops = append(p.Ops, Op{K: "bulk", A: []int64{int64(r.Intn(8)), int64(r.Pick(70, 300, 1100, 2500))}})
		}
	}
	genLull(r, p)
}

// names that are easily taken for each other
var logNames = [][]string{
	{"log", "Log", "LOG", "loG", "lOg"},
	{"log", "log ", " log", "\t", " "},
	{"krpc", "krpc.log", "krpc/log", "../krpc", "krpc\x00"},
	{"dflt", "dflt2", "dfl", "Dflt", "dflt/"},
	{"a%d", "a%s", "a%", "%", "a"},
	{"\u212a", "k", "K", "\xff", "\ufffd"},
}

func runLogger(x *X) {
	a := x.newAPI("misc", NodeCfg{})
	nc, nn := int(atLeast(x.n("clients"), 1)), atLeast(x.n("names"), 1)
	f := &fakeFactory{x: x, pause: x.n("pause")}
	f.sets = append(f.sets, &lvlSet{misc.WARN, 1, 1})
	a.tick()
	got := map[string]misc.Logger{}
	mk := x.W.GoClient(a.P, "mk", func() { misc.InitLogger(f, misc.WARN) })
	x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() })
	see := func(name string, l misc.Logger) {
		fl, ok := l.(*fakeLogger)
		if !ok || fl == nil {
			x.Fail("P17", "foreign", "looking up %q gave %T, not a logger of the installed factory", name, l)
			return
		}
		if fl.name != name {
			x.Fail("P17", "wrong-name", "looking up %q gave the logger of %q", name, fl.name)
		}
		if o, has := got[name]; has && o != l {
			x.Fail("P17", "two-loggers", "looking up %q gave two different loggers", name)
		}
		got[name] = l
	}
	gets := 0
	get := func(name string, names ...string) {
		q := f.asking.at(name)
		*q = append(*q, a.tick())
		i := len(*q) - 1
		see(name, misc.GetLogger(names...))
		(*f.asking.at(name))[i] = 0
		gets++
	}
	for _, ops := range splitOps(x.P.Ops, nc) {
		ops := ops
		a.Go("client", func() {
			for _, o := range ops {
				a.lull()
				switch o.K {
				case "get":
					name := fmt.Sprintf("log%d", o.a(1)%nn)
					if st := x.n("style"); st > 0 && int(st) <= len(logNames) {
						name = logNames[st-1][o.a(1)%5]
					}
					get(name, name)
				case "bulk":
					for i := int64(0); i < o.a(1); i++ {
						name := fmt.Sprintf("bulk%d", i)
						get(name, name)
					}
				case "default":
					get("dflt")
				case "level":
					s := &lvlSet{lvl: misc.LogLevel(o.a(1) % 6), start: a.tick()}
					f.sets = append(f.sets, s)
					misc.SetLevel(s.lvl)
					s.end = a.tick()
				case "flush":
					misc.Close()
				}
			}
		})
	}
	done := a.wait(60 * sec)
	if a.died("P17") {
		return
	}
	if !done {
		x.Fail("P17", "stuck", "look-ups do not return:%s", a.stuck())
		return
	}
	before := make([]int, len(f.last))
	for i, l := range f.last {
		before[i] = l.flushes
	}
	fin := x.W.GoClient(a.P, "flush", func() { misc.Close() })
	if !x.W.WaitUntil(60*sec, ms, func() bool { return fin.Dead() }) {
		x.Fail("P17", "stuck", "the final flush does not return:%s", a.stuck())
		return
	}
	for i, l := range f.last {
		if l.flushes != before[i]+1 {
			x.Fail("P17", "lost", "closing the registry flushed logger %q %d times", l.name, l.flushes-before[i])
		}
	}
	x.Nontrivial = gets > 1
	x.Count("lookups", int64(gets))
	x.Count("loggers", int64(len(f.last)))
}

func init() {
	register(&Scenario{Name: "syncmap", Props: []string{"P15", "P21"}, Gen: genSyncMap, Run: runSyncMap, Race: true, RaceAs: "P15",
		Rule: "a key saw at least two operations", Keep: map[string]bool{"clients": true, "keys": true, "style": true, "cap": true}})
	register(&Scenario{Name: "bytespool", Props: []string{"P14", "P21"}, Gen: genBytesPool, Run: runBytesPool, Race: true,
		Rule: "a returned buffer was handed out again", Keep: map[string]bool{"clients": true, "width": true}})
	register(&Scenario{Name: "txid", Props: []string{"P04", "P21"}, Gen: genTxID, Run: runTxID, Race: true,
		Rule: "several clients drew ids concurrently", Keep: map[string]bool{"clients": true, "draws": true, "init": true}})
	register(&Scenario{Name: "loggers", Props: []string{"P17", "P21"}, Gen: genLogger, Run: runLogger, Race: true, RaceAs: "P17",
		Rule: "at least two look-ups", Keep: map[string]bool{"clients": true, "names": true}})
}
