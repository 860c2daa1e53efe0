package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/GalaIO/P2Pcrawler/misc"

	"verif/dst/sim"
)

// The scenario logging: what is logged comes out whole, once, in order, at
// enabled levels only (P25).

var logWords = []string{"debug", "info", "warn", "error", "panic", "trace"}
var logPrefixes = []string{"", "krpc", "FetchMetadata", "a b", "[x]", "%d", "%!s(MISSING)", "p|q:r"}

func genLogging(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["clients"] = int64(1 + r.Intn(r.Pick(1, 3, 8)))
	p.N["files"] = int64(r.Pick(0, 1, 1, 2, 3))
	for i := int64(0); i < p.N["files"]; i++ {
		p.N[fmt.Sprintf("flevel%d", i)] = int64(r.Pick(1, 1, 0, 2, 3, 4, 5, 7, 8, 9))
	}
	span := r.Pick(1, 1000, 200000)
	levels := r.Pick(0, 0, 1, 3)
	for i := 1 + r.Intn(r.Pick(4, 30, 200)); i > 0; i-- {
		if levels > 0 && r.Intn(20) < levels {
			p.Ops = append(p.Ops, Op{K: "level", At: int64(r.Intn(span)), A: []int64{int64(r.Intn(6))}})
			continue
		}
		if r.P(0.03) {
			p.Ops = append(p.Ops, Op{K: "flush", At: int64(r.Intn(span))})
			continue
		}
		p.Ops = append(p.Ops, Op{K: "log", At: int64(r.Intn(span)), A: []int64{
			int64(r.Intn(4)), int64(r.Intn(3)), int64(r.Pick(1, 1, 0, 2, 3, 4, 5)), int64(r.Intn(len(logPrefixes))), int64(r.Intn(1 << 30))}})
	}
	switch r.Intn(8) {
	case 0, 1:
		p.N["killat"] = int64(1 + r.Intn(span+2000))
	case 2:
		p.N["diskerr"] = int64(r.Pick(50, 300, 1000))
	case 3:
		p.N["earlier"] = int64(1 + r.Intn(3)) // a file of an earlier run is there, torn or not
	}
	lullAt(r, p, 0.05)
}

type logRec struct {
	id, msg, prefix string
	client, n       int
	file            int // -1 the console
	level           int
	ctx             misc.Dict
	start, end      int64
	sure            bool // it comes out even after disk errors
	same            bool // one of several that are equal
}

// texts gives what must be found of a value.
func logTexts(v interface{}) []string {
	switch v := v.(type) {
	case string:
		return []string{v}
	case int:
		return []string{fmt.Sprint(v)}
	case error:
		return []string{v.Error()}
	case misc.List:
		var l []string
		for _, e := range v {
			l = append(l, logTexts(e)...)
		}
		return l
	case misc.Dict:
		var l []string
		for _, k := range keys(v) {
			l = append(append(l, k), logTexts(v[k])...)
		}
		return l
	}
	return nil
}

func validText(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

// logSame compares a JSON value with what was logged.
func logSame(got, v interface{}) bool {
	switch v := v.(type) {
	case nil:
		return got == nil
	case string:
		return got == validText(v)
	case int:
		n, ok := got.(json.Number)
		return ok && n.String() == fmt.Sprint(v)
	case error:
		return got == v.Error()
	case misc.List:
		l, ok := got.([]interface{})
		if !ok || len(l) != len(v) {
			return false
		}
		for i := range v {
			if !logSame(l[i], v[i]) {
				return false
			}
		}
		return true
	case misc.Dict:
		d, ok := got.(map[string]interface{})
		if !ok || len(d) != len(v) {
			return false
		}
		for k := range v {
			if e, has := d[k]; !has || !logSame(e, v[k]) {
				return false
			}
		}
		return true
	}
	return false
}

func runLogging(x *X) {
	a := x.newAPI("misc", NodeCfg{})
	a.P.KeepStdout = true
	nf := int(x.n("files"))
	path := func(f int) string { return fmt.Sprintf("/logs/f%d.log", f) }
	flevel := func(f int) (int, string) {
		n := int(x.n(fmt.Sprintf("flevel%d", f))) % 12
		w := logWords[n%6]
		if n < 6 {
			return n % 6, strings.ToUpper(w)
		}
		return n % 6, w
	}
	old := map[int]string{}
	for f := 0; f < nf && x.n("earlier") > 0; f++ {
		old[f] = "{\"level\":\"info\",\"msg\":\"earlier\"}\n{\"level\":\"info\",\"msg\":\"another\"}\n"
		torn := []string{"", "{\"level\":\"in", "{\"level\":\"info\",\"msg\":\"" + strings.Repeat("x", 9000)}[int(x.n("earlier"))%3]
		a.H.FS.PreloadDir("/logs")
		a.H.FS.Preload(path(f), []byte(old[f]+torn))
		a.H.FS.SyncAll()
	}
	var recs []*logRec
	sets := []*lvlSet{{misc.INFO, 0, 0}}
	disk := x.n("diskerr") > 0
	var files []misc.Logger
	open := func() bool {
		files = make([]misc.Logger, nf)
		mk := x.W.GoClient(a.P, "mk", func() {
			for f := range files {
				_, name := flevel(f)
				files[f] = misc.NewZapLogger(fmt.Sprintf("f%d", f), name)
			}
		})
		x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() || !a.P.Alive() })
		return a.P.Alive() && mk.Dead()
	}
	names := []string{"", "one", "two"}
	seq := 0
	write := func(client, file, name, level, prefix int, seed int64) {
		r := sim.NewRand(uint64(seed))
		seq++
		rec := &logRec{id: fmt.Sprintf("<%d.%d>", client, seq), client: client, n: seq, file: file, level: level, prefix: logPrefixes[prefix]}
		text := func(n int) string {
			if file >= 0 && r.P(0.5) {
				return string(r.Bytes(n))
			}
			return strings.Repeat([]string{"abc", "%s %d%", "\"{}", "a|b:c", "\\n\\u0000", "é世"}[r.Intn(6)], (n+2)/3)
		}
		rec.msg = rec.id + text(r.Pick(0, 3, 30, 3000))
		if rec.same = r.P(0.25); rec.same {
			rec.id = fmt.Sprintf("<%d.0%d>", client, level)
			rec.msg, rec.prefix = rec.id+"same", "same"
			rec.ctx = []misc.Dict{nil, {}, {"k": "v"}}[level%3]
		} else if r.P(0.8) {
			rec.ctx = misc.Dict{}
			for i := r.Pick(0, 1, 1, 2, 5, 12); i > 0; i-- {
				var v interface{}
				switch r.Intn(6) {
				case 0:
					v = int(r.U64())
				case 1:
					v = errors.New("err" + fmt.Sprint(r.Intn(1000000)))
				case 2:
					v = misc.List{"v" + fmt.Sprint(r.Intn(1000000)), r.Intn(1000)}
				case 3:
					v = misc.Dict{"in": misc.Dict{"k": "d" + fmt.Sprint(r.Intn(1000000))}}
				case 4:
					v = nil
				default:
					v = text(r.Pick(0, 5, 50, 5000))
				}
				rec.ctx[fmt.Sprintf("k%d", i)] = v
			}
		}
		var l misc.Logger
		if file >= 0 {
			l = files[file]
		} else if n := names[name%3]; n == "" {
			l = misc.GetLogger()
		} else {
			l = misc.GetLogger(n)
		}
		if rec.prefix != "" {
			l = l.SetPrefix(rec.prefix)
			if r.P(0.3) {
				sim.Sleep(int64(r.Intn(2000)) * us) // it is kept a while
			}
		}
		// a copy, so that what is compared is what was handed over
		ctx := rec.ctx
		if ctx != nil {
			ctx = misc.Dict{}
			for _, k := range keys(rec.ctx) {
				ctx[k] = rec.ctx[k]
			}
		}
		recs = append(recs, rec)
		rec.start = a.tick()
		func() {
			defer func() {
				if p := recover(); p != nil && level != 4 {
					x.Fail("P25", "panic", "logging at level %s panics: %v", logWords[level], p)
				}
			}()
			[]func(string, misc.Dict){l.Debug, l.Info, l.Warn, l.Error, l.Panic, l.Trace}[level](rec.msg, ctx)
			if level == 4 {
				x.Fail("P25", "no-panic", "logging at level panic returns to its caller")
			}
		}()
		rec.end = a.tick()
	}
	// what may come out of a record: -1 it must not, 1 it must, 0 either
	due := func(rec *logRec) int {
		if rec.file >= 0 {
			l, _ := flevel(rec.file)
			if rec.level < l {
				return -1
			}
		} else {
			yes, no := false, false
			for i, s := range sets {
				over := s.start < rec.end || rec.end == 0
				// one whose call ended before another one began is no longer in force
				gone := false
				for _, o := range sets[1:] {
					if s != o && (i == 0 || s.end > 0 && s.end < o.start) && o.end > 0 && o.end <= rec.start {
						gone = true
					}
				}
				if over && !gone {
					if rec.level >= int(s.lvl) {
						yes = true
					} else {
						no = true
					}
				}
			}
			if yes != no {
				if no {
					return -1
				}
			} else {
				return 0
			}
		}
		if rec.end == 0 {
			return 0
		}
		return 1
	}
	var outs []string // the console of each life
	check := func(rec *logRec, line string) bool {
		if rec.file < 0 {
			want := append([]string{logWords[rec.level], rec.prefix, rec.msg}, logTexts(rec.ctx)...)
			for i, w := range want {
				if !strings.Contains(line, w) && !(i == 0 && strings.Contains(strings.ToLower(line), w)) {
					x.Fail("P25", "console-record", "a record of level %s, prefix %q, %q with %v came out on the console without %q as %s", logWords[rec.level], rec.prefix, clip([]byte(rec.msg)), rec.ctx, w, clip([]byte(line)))
					return false
				}
			}
			if rec.prefix == "" && strings.Contains(line[:max(0, strings.Index(line, rec.msg))], "[") {
				x.Fail("P25", "foreign-prefix", "a record without a prefix came out on the console as %s", clip([]byte(line)))
			}
			return true
		}
		var d map[string]interface{}
		dec := json.NewDecoder(strings.NewReader(line))
		dec.UseNumber()
		if err := dec.Decode(&d); err != nil || dec.More() {
			return false
		}
		m, _ := d["msg"].(string)
		lv, _ := d["level"].(string)
		bad := ""
		if i := strings.Index(m, validText(rec.msg)); i < 0 || m[i:] != validText(rec.msg) || !strings.Contains(m[:i], rec.prefix) || rec.prefix == "" && i > 0 {
			bad = "msg"
		} else if rec.level < 5 && !strings.EqualFold(lv, logWords[rec.level]) {
			bad = "level"
		}
		for _, k := range keys(rec.ctx) {
			if v, has := d[k]; !has || !logSame(v, rec.ctx[k]) {
				bad = k
			}
		}
		if bad != "" {
			x.Fail("P25", "file-record", "a record of level %s, prefix %q, %q with %v stands in the file with another %q: %s", logWords[rec.level], rec.prefix, clip([]byte(rec.msg)), rec.ctx, bad, clip([]byte(line)))
		}
		return true
	}
	oracle := func(final bool) {
		for f := -1; f < nf; f++ {
			var lines []string
			all := ""
			if f < 0 {
				all = strings.Join(outs, "\n")
			} else {
				b, _ := a.H.FS.Peek(path(f))
				all = string(b)
				if !strings.HasPrefix(all, old[f]) {
					x.Fail("P25", "earlier-gone", "records of an earlier run were lost from %s, it begins %s", path(f), clip([]byte(all)))
				}
				all = all[min(len(old[f]), len(all)):]
			}
			lines = strings.Split(all, "\n")
			byID := &smap[string, []int]{}
			for i, l := range lines {
				// the ids are the only text of this form
				for rest := l; ; {
					j := strings.IndexByte(rest, '<')
					if f >= 0 {
						j = strings.Index(rest, "\\u003c")
						if k := strings.IndexByte(rest, '<'); k >= 0 && (j < 0 || k < j) {
							j = k
						}
					}
					if j < 0 {
						break
					}
					rest = strings.TrimPrefix(strings.TrimPrefix(rest[j:], "\\u003c"), "<")
					k := strings.IndexAny(rest, ">\\")
					if k > 0 && k < 12 {
						at := byID.at("<" + rest[:k] + ">")
						if n := len(*at); n == 0 || (*at)[n-1] != i {
							*at = append(*at, i)
						}
					}
				}
			}
			lastLine := &smap[int, int]{}
			least, most := &smap[string, int]{}, &smap[string, int]{}
			for _, rec := range recs {
				if rec.file != f {
					continue
				}
				at := *byID.at(rec.id)
				d := due(rec)
				if disk && f >= 0 {
					if d > 0 && !rec.sure {
						d = 0
					}
				}
				where := "on the console"
				if f >= 0 {
					where = "in " + path(f)
				}
				if rec.same {
					if d >= 0 {
						*most.at(rec.id)++
					}
					if d > 0 {
						*least.at(rec.id)++
					}
					continue
				}
				switch {
				case len(at) > 1:
					x.Fail("P25", "twice", "a record stands %s %d times: %s", where, len(at), clip([]byte(lines[at[0]])))
				case len(at) == 0 && d > 0:
					x.Fail("P25", "lost", "a record of level %s and prefix %q whose call returned is not %s: %s", logWords[rec.level], rec.prefix, where, clip([]byte(rec.msg)))
				case len(at) > 0 && d < 0:
					x.Fail("P25", "disabled-level", "a record of level %s came out %s where that level is off: %s", logWords[rec.level], where, clip([]byte(lines[at[0]])))
				case len(at) > 0:
					i := at[0]
					if !check(rec, lines[i]) && f >= 0 {
						tail := i == len(lines)-1 && rec.end == 0 && !final
						if !tail && (!disk || d > 0) {
							x.Fail("P25", "torn", "a record is not one whole line %s: %s", where, clip([]byte(lines[i])))
						}
					}
					if last := lastLine.at(rec.client); *last > i+1 {
						x.Fail("P25", "order", "record %s of one goroutine stands before an earlier one %s", rec.id, where)
					} else {
						*last = i + 1
					}
				}
			}
			for i, id := range most.k {
				if n := len(*byID.at(id)); n > most.v[i] || n < *least.at(id) {
					x.Fail("P25", "equal-records", "of equal records %s of sink %d, %d to %d were due and %d came out", id, f, *least.at(id), most.v[i], n)
				}
			}
			if f >= 0 && !disk && final && all != "" && !strings.HasSuffix(all, "\n") {
				x.Fail("P25", "torn", "%s ends in the middle of a record: %s", path(f), clip([]byte(lines[len(lines)-1])))
			}
			if f >= 0 && !disk && final {
				for _, l := range lines[:len(lines)-1] {
					if !json.Valid([]byte(l)) {
						x.Fail("P25", "torn", "a line of %s is no record: %s", path(f), clip([]byte(l)))
					}
				}
			}
		}
	}
	if !open() {
		a.died("P25")
		return
	}
	if disk {
		a.H.FS.Cfg.WriteErr = float64(x.n("diskerr")) / 1000
		a.H.FS.Cfg.Prefix = "/logs"
	}
	t0 := x.W.Now()
	if k := x.n("killat"); k > 0 {
		x.W.KillAt(t0+k*us, a.P, false)
	}
	for c, ops := range splitOps(x.P.Ops, int(atLeast(x.n("clients"), 1))) {
		c, ops := c, ops
		sortOps(ops)
		a.Go("client", func() {
			for _, o := range ops {
				a.at(t0, o.At)
				switch o.K {
				case "log":
					f := int(o.a(0)) - 1
					if f >= nf {
						f = -1
					}
					write(c, f, int(o.a(1)), int(o.a(2))%6, int(o.a(3))%len(logPrefixes), o.a(4))
				case "level":
					s := &lvlSet{lvl: misc.LogLevel(o.a(0) % 6), start: a.tick()}
					sets = append(sets, s)
					misc.SetLevel(s.lvl)
					s.end = a.tick()
				case "flush":
					misc.Close()
				}
			}
		})
	}
	done := a.wait(60 * sec)
	outs = append(outs, string(a.P.Stdout))
	if x.n("killat") > 0 && done && a.P.Alive() {
		x.W.Kill(a.P, false)
	}
	if !a.P.Alive() && a.P.How == "kill" {
		oracle(false)
		sets = []*lvlSet{{misc.INFO, 0, 0}}
		recs = filterRecs(recs) // those on the console are checked
		a.start("misc")
		a.P.KeepStdout = true
		outs = nil
		if !open() {
			a.died("P25")
			return
		}
	} else if a.died("P25") {
		return
	} else if !done {
		x.Fail("P25", "stuck", "logging does not return:%s", a.stuck())
		return
	} else {
		outs = nil
	}
	x.calm()
	a.H.FS.Cfg.WriteErr = 0
	a.Go("last", func() {
		for f := -1; f < nf; f++ {
			for i := 0; i < 2; i++ {
				write(99, f, 0, 5, 1, 5)
				recs[len(recs)-1].sure = i > 0
			}
		}
	})
	done = a.wait(60 * sec)
	if a.died("P25") {
		return
	}
	if !done {
		x.Fail("P25", "stuck", "logging does not return:%s", a.stuck())
		return
	}
	outs = append(outs, string(a.P.Stdout))
	oracle(true)
	n := 0
	for _, rec := range recs {
		if due(rec) > 0 {
			n++
		}
	}
	x.Nontrivial = n > 2
	x.Count("records", int64(len(recs)))
	x.Count("records_due", int64(n))
}

func filterRecs(recs []*logRec) (out []*logRec) {
	for _, r := range recs {
		if r.file >= 0 {
			out = append(out, r)
		}
	}
	return
}

func init() {
	register(&Scenario{Name: "logging", Props: []string{"P25", "P21"}, Gen: genLogging, Run: runLogging, Race: true,
		Rule: "records of an enabled level were logged by the program's goroutines"})
}
