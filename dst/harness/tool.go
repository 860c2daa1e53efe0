package harness

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"

	"github.com/GalaIO/P2Pcrawler/zzmain"

	"verif/dst/sim"
)

// ---- P22 (the command line tools) ----

// What the torrent tool may say about a file.
const (
	tListed = iota // exactly its line
	tBad           // nothing
	tMaybe         // its line or nothing
	tFree          // anything
)

type tfile struct {
	class int
	title string // name||file||length||piece length, without the file
	tail  string
}

func (f tfile) line(file string) string { return f.title + "||" + file + "||" + f.tail }

var toolLine = regexp.MustCompile(`^(?s)(.*)\|\|([^|]*)\|\|(-?[0-9]+)\|\|(-?[0-9]+)\r?$`)

// toolOf says what the listing of a file holding b must be.
func toolOf(b []byte, class int) tfile {
	f := tfile{class: class}
	if class == tBad || class == tFree {
		return f
	}
	d, ok := bdict(b)
	if !ok {
		f.class = tBad
		return f
	}
	f.title = "name err"
	if s, ok := d["name"].(string); ok {
		f.title = s
	}
	num := func(k string) int64 {
		n, _ := d[k].(int64)
		return n
	}
	f.tail = fmt.Sprintf("%d||%d", num("length"), num("piece length"))
	return f
}

// torrentMeta draws metadata of about n bytes the way real torrents have it.
func torrentMeta(r *sim.Rand, n int) []byte {
	d := D{}
	name := func() string {
		switch r.Intn(8) {
		case 0:
			return ""
		case 1:
			return string(r.Bytes(1+r.Intn(30))) + "x"
		case 2:
			return "a||b||1||2"
		case 3:
			return "日本語 – ülm.avi"
		case 4:
			return strings.Repeat("long name ", 1+r.Intn(40))
		}
		return fmt.Sprintf("file-%d.mkv", r.Intn(100000))
	}
	nm := strings.Map(func(c rune) rune {
		if c < 32 || c == 0xfffd || c == 127 {
			return '_'
		}
		return c
	}, name())
	if r.P(0.1) {
		nm += "\xff\xfe\x80" // not UTF-8
	}
	if !r.P(0.1) {
		d["name"] = nm
	}
	num := func(k string) {
		switch {
		case r.P(0.12):
		case r.P(0.06):
			d[k] = "12"
		case r.P(0.06):
			d[k] = L{int64(1)}
		default:
			d[k] = []int64{0, 1, -1, 7, 16384, 1 << 20, 1 << 31, 1<<32 + 5, 1<<62 - 1, int64(r.Intn(1 << 30))}[r.Intn(10)]
		}
	}
	num("length")
	num("piece length")
	if r.P(0.3) {
		var fs L
		for i := r.Intn(6); i > 0; i-- {
			fs = append(fs, D{"length": int64(r.Intn(1 << 30)), "path": L{"dir", name()}, "name": "inner", "piece length": int64(1)})
		}
		d["files"] = fs
	}
	if r.P(0.2) {
		d["private"] = int64(1)
	}
	if r.P(0.05) {
		var v interface{} = int64(1)
		for i := r.Intn(r.Pick(20, 900)); i > 0; i-- {
			if r.P(0.5) {
				v = L{v}
			} else {
				v = D{"x": v}
			}
		}
		d["zz"] = v
	}
	d["pieces"] = string(r.Bytes(n))
	return []byte(benc(d))
}

// toolFile draws the content of a file.
func toolFile(seed, kind, size int64) ([]byte, tfile) {
	r := sim.NewRand(uint64(seed)*31 + uint64(kind))
	b := torrentMeta(r, int(size))
	switch kind {
	case 0:
		return b, toolOf(b, tListed)
	case 1: // torn
		b = b[:r.Intn(len(b))]
		return b, tfile{class: tBad}
	case 2:
		b = append(b, r.Bytes(1+r.Intn(40))...)
		return b, tfile{class: tBad}
	case 3:
		b = append([]byte{"xielm"[r.Intn(5)]}, r.Bytes(int(size))...)
		return b, tfile{class: tBad}
	case 4:
		b = []byte([]string{"", "d", "e", "i5e", "le", "4:spam", "d4:name", "di1e1:ae", "d4:name99999999999999999999:ae", "d4:namei1xee", "d4:name-1:ae", "d6:lengthi99999999999999999999999ee", "d1:ad", "d1:al", "\n"}[r.Intn(15)])
		return b, tfile{class: tBad}
	case 5: // nested deep
		n := 200000 + r.Intn(100000)
		if r.P(0.1) {
			n = 4000000
		}
		b = []byte("d4:name4:deep2:zz" + strings.Repeat("l", n))
		if r.P(0.7) {
			b = append(b, strings.Repeat("e", n+1)...)
		}
		return b, tfile{class: tFree}
	}
	return b, toolOf(b, tListed)
}

func toolName(seed int64) (string, bool) {
	r := sim.NewRand(uint64(seed) + 977)
	h := fmt.Sprintf("%x", r.Bytes(20))
	switch r.Intn(14) {
	case 0:
		return h + ".torrent." + fmt.Sprint(r.Intn(1000)) + ".tmp", false
	case 1:
		return h + "." + fmt.Sprint(r.Intn(1000)) + ".tmp", false
	case 2:
		return []string{"README", "x.TORRENT", "a.torrent~", "torrent", "b.torrent.part"}[r.Intn(5)], false
	case 3:
		return []string{".torrent", "my file.torrent", "Ümlaut.torrent", "a.b.torrent", "%d.torrent", "..torrent", ".hidden.torrent", "." + h + ".torrent", "+v.torrent", "~.torrent", " .torrent", "#1.torrent",
			strings.ToUpper(h) + ".torrent", "\xff\xfe.torrent", strings.Repeat("n", 240) + ".torrent", h + ".torrent.torrent", h + ".tmp.torrent", "*.torrent", "[a].torrent"}[r.Intn(19)], true
	}
	return h + ".torrent", true
}

// runTool runs a command of the program to its end.
func (x *X) runTool(h *sim.Host, maxFiles int, crash func(*sim.Proc), args ...string) *sim.Proc {
	p := x.W.Spawn("p2pcrawler "+args[0], h, func() {
		enterProcess(nil, args...)
		zzmain.Main()
	})
	p.KeepStdout, p.MaxFiles = true, maxFiles
	if crash != nil {
		crash(p)
	}
	if !x.W.WaitUntil(120*sec, ms, func() bool { return !p.Alive() }) {
		st := x.W.Pol.StallP
		x.W.Pol.StallP = 0
		x.W.WaitUntil(120*sec, ms, func() bool { return !p.Alive() })
		x.W.Pol.StallP = st
	}
	return p
}

// checkListing compares what the tool printed with the files it had to list.
func (x *X) checkListing(p *sim.Proc, what string, want map[string]tfile) (n int) {
	got := map[string]bool{}
	last := ""
	for _, l := range strings.Split(string(p.Stdout), "\n") {
		m := toolLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		l = strings.TrimSuffix(l, "\r")
		f := m[2]
		w, known := want[f]
		switch {
		case !known:
			x.Fail("P22", "extra-line", "%s prints a line for %q, which is not a torrent file: %q", what, f, clip([]byte(l)))
			continue
		case w.class == tFree:
			continue
		case w.class == tBad:
			x.Fail("P22", "bad-listed", "%s prints a line for %q, which is no valid torrent: %q", what, f, clip([]byte(l)))
			continue
		case got[f]:
			x.Fail("P22", "listed-twice", "%s lists %q twice", what, f)
		case l != w.line(f):
			x.Fail("P22", "wrong-line", "%s prints %q, the file says %q", what, clip([]byte(l)), clip([]byte(w.line(f))))
		case f < last:
			x.Fail("P22", "order", "%s lists %q after %q", what, f, last)
		}
		got[f] = true
		last = f
		n++
	}
	for _, f := range keys(want) {
		if want[f].class == tListed && !got[f] {
			x.Fail("P22", "not-listed", "%s (%s, code %d %s) does not list %q of %d files; output:\n%s", what, p.How, p.Code, p.PanicV, f, len(want), tailOf(p.Out, 600))
			break
		}
	}
	return n
}

func tailOf(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

type snapshot map[string]string

func snap(fs *sim.FS) snapshot {
	s := snapshot{}
	for _, f := range fs.Tree() {
		b, _ := fs.Peek(f)
		s[f] = string(b)
	}
	return s
}

// An op "f" puts a file in the directory: A = [name seed, content seed, kind,
// size]. An op "w" is a step somebody else takes on the directory when the tool
// makes its At-th file-system operation: A = [step, name seed, content seed, size].
func genTool(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["tick"] = 100
	p.N["maxsteps"] = 60000000
	p.N["mode"] = int64(r.Pick(0, 0, 0, 0, 0, 0, 1, 1, 2))
	p.N["form"] = int64(r.Intn(6))
	n := r.Intn(r.Pick(2, 6, 20, 60))
	kind := func() int64 {
		if r.P(0.6) {
			return 0
		}
		if r.P(0.01) {
			return 5
		}
		return int64(1 + r.Intn(4))
	}
	size := func() int64 {
		if r.P(0.01) {
			return int64(r.Pick(300000, 2000000))
		}
		return int64(r.Intn(r.Pick(2, 200, 3000, 40000)))
	}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{K: "f", A: []int64{int64(r.Intn(1 << 30)), int64(r.Intn(1 << 30)), kind(), size()}})
	}
	if r.P(0.5) {
		for i := 1 + r.Intn(6); i > 0; i-- {
			o := Op{K: "w", At: int64(1 + r.Intn(r.Pick(5, 20, 3*n+10))), A: []int64{int64(r.Intn(4)), int64(r.Intn(1 << 30)), int64(r.Intn(1 << 30)), size()}}
			if o.A[0] >= 2 && n > 0 {
				o.A[1] = p.Ops[r.Intn(n)].A[0]
			}
			p.Ops = append(p.Ops, o)
		}
	}
	if r.P(0.06) {
		p.N["many"] = int64(r.Pick(130, 300, 1100, 2100))
	}
	if r.P(0.3) {
		p.N["files"] = int64(r.Pick(8, 12, 40))
	}
	if r.P(0.5) {
		p.N["running"] = 1
	}
	if r.P(0.3) {
		p.N["noconf"] = 1
	}
	if r.P(0.5) {
		p.N["log"] = int64(1 + r.Intn(2))
	}
	if r.P(0.15) {
		p.N["rderr"] = int64(r.Pick(20, 200))
	}
	if r.P(0.2) {
		p.N["crashop"] = int64(1 + r.Intn(r.Pick(5, 30, 100)))
	}
}

func runTool(x *X) {
	h := x.Net.AddHost("node", "10.0.0.1")
	fs := h.NewFS()
	fs.PreloadDir("/")
	cfg := NodeCfg{Port: 21000, Pool: 2, QueueSize: 4, FetchWP: 2, Pprof: true, Bootstrap: []string{"10.0.1.1:6881"}}
	boot := x.NewDPeer("boot", "10.0.1.1", 6881, "B123456789B123456789")
	if x.n("noconf") == 0 {
		fs.Preload(confFile, cfg.JSON())
	}
	if x.n("running") == 1 {
		// what a node running here holds
		if _, err := h.BindUDP("", cfg.Port); err != nil {
			panic(err)
		}
		if _, err := h.ListenTCP("", 10080); err != nil {
			panic(err)
		}
	}
	switch x.n("log") {
	case 1:
		fs.Preload("/logs/infohash.log", []byte("{\"msg\":\"get_peer\"}\n"))
	case 2: // a record on its way
		fs.Preload("/logs/infohash.log", []byte("{\"msg\":\"get_peer\"}\n{\"msg\":\"annou"))
	}
	dir := "/torrent"
	arg := []string{"torrent", "./torrent", "/torrent", "torrent/", "torrent/../torrent", "."}[x.n("form")%6]
	if arg == "." {
		dir = "/"
	}
	fs.PreloadDir(dir)
	want := map[string]tfile{}
	for _, o := range x.P.Ops {
		if o.K != "f" {
			continue
		}
		n, isT := toolName(o.a(0))
		b, f := toolFile(o.a(1), o.a(2), o.a(3))
		fs.Preload(path.Join(dir, n), b)
		if isT {
			want[n] = f
		}
		x.Count("tool_files", 1)
	}
	for i := int64(0); i < x.n("many"); i++ {
		n, _ := toolName(i*7 + 1)
		n = fmt.Sprintf("%x", i%16) + n
		b, f := toolFile(i, 0, 20)
		fs.Preload(path.Join(dir, n), b)
		if strings.HasSuffix(n, ".torrent") {
			want[n] = f
		}
	}
	if sd := path.Join(dir, "sub.torrent"); x.n("form")%2 == 0 {
		b, _ := toolFile(5, 0, 20)
		fs.Preload(sd+"/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.torrent", b)
	}
	fs.SyncAll()
	x.Net.Keep = true
	names := keys(want)
	sort.Strings(names)
	x.Nontrivial = len(names) > 0
	// others at work on the directory meanwhile
	nop := 0
	exp := snap(fs)
	steps := func() {
		nop++
		for _, o := range x.P.Ops {
			if o.K != "w" || o.At != int64(nop) {
				continue
			}
			x.W.Faults.Add("dir_changed_meanwhile", 1)
			n, isT := toolName(o.a(1))
			q := path.Join(dir, n)
			switch o.a(0) {
			case 0: // a torrent is being stored
				b, _ := toolFile(o.a(2), 0, o.a(3))
				q = path.Join(dir, n+".77.tmp")
				fs.Preload(q, b[:len(b)/2])
				exp[q] = string(b[:len(b)/2])
			case 1: // and is complete
				b, f := toolFile(o.a(2), 0, o.a(3))
				tmp := path.Join(dir, n+".77.tmp")
				fs.Unload(tmp)
				delete(exp, tmp)
				fs.Preload(q, b)
				exp[q] = string(b)
				if isT {
					f.class = tMaybe
					if _, old := want[n]; old {
						f.class = tFree // the old one or the new one
					}
					want[n] = f
				}
			case 2: // stored once more
				if b, ok := fs.Peek(q); ok {
					fs.Preload(q, b)
				}
			case 3: // taken away
				fs.Unload(q)
				delete(exp, q)
				if f, ok := want[n]; ok && f.class == tListed {
					f.class = tMaybe
					want[n] = f
				}
			}
		}
	}
	fs.OnRdErr = func(p string) {
		if f, ok := want[path.Base(p)]; ok && path.Dir(p) == dir {
			f.class = tFree
			want[path.Base(p)] = f
		}
	}
	// left checks that the tool disturbed nothing.
	left := func(what string) {
		now := snap(fs)
		for _, f := range keys(exp) {
			if b, ok := now[f]; !ok {
				if x.n("noconf") == 0 || !strings.HasPrefix(f, "/conf/") {
					x.Fail("P22", "removed", "%s removed %s", what, f)
				}
			} else if b != exp[f] {
				x.Fail("P22", "changed", "%s changed %s: %s", what, f, clip([]byte(b)))
			}
		}
		for _, f := range keys(now) {
			if _, ok := exp[f]; !ok && !(x.n("noconf") == 1 && strings.HasPrefix(f, "/conf/")) {
				x.Fail("P22", "created", "%s created %s", what, f)
			}
		}
		if n := len(x.Net.Sent) + len(x.Net.Dials) + len(boot.Got); n > 0 {
			x.Fail("P22", "network", "%s used the network: %d datagrams sent, %d connections", what, len(x.Net.Sent), len(x.Net.Dials))
		}
	}
	ended := func(p *sim.Proc, what string) bool {
		if p.Alive() {
			x.Fail("P22", "no-end", "%s has not ended after 240 s", what)
			x.W.Kill(p, false)
			return false
		}
		return true
	}
	if k := x.n("crashop"); k > 0 {
		// one that is interrupted
		p := x.runTool(h, 0, func(p *sim.Proc) { p.CrashOp = k }, "torrent", arg)
		if !ended(p, "torrent") {
			return
		}
	}
	fs.OnOp = func(kind, p string) { steps() }
	fs.Cfg.ReadErr, fs.Cfg.Prefix = float64(x.n("rderr"))/1000, dir
	if dir == "/" {
		fs.Cfg.ReadErr = 0
	}
	mf := int(x.n("files"))
	switch x.n("mode") {
	case 0:
		p := x.runTool(h, mf, nil, "torrent", arg)
		what := "p2pcrawler torrent " + arg
		if !ended(p, what) {
			return
		}
		x.Count("tool_lines", int64(x.checkListing(p, what, want)))
		if p.How != "exit" || p.Code != 0 {
			x.Fail("P22", "exit", "%s ends as %s with code %d: %s; output:\n%s", what, p.How, p.Code, p.PanicV, tailOf(p.Out, 600))
		}
		left(what)
	case 1:
		for i, n := range names {
			if i > 6 {
				break
			}
			f := want[n]
			a := path.Join(dir, n)
			switch x.n("form") % 3 {
			case 1:
				a = "." + a
			case 2:
				a = strings.TrimPrefix(a, "/")
			}
			p := x.runTool(h, mf, nil, "torrent", a)
			what := "p2pcrawler torrent " + a
			if !ended(p, what) {
				return
			}
			if g, ok := want[n]; !ok || g.class == tFree {
				f.class = tFree
			} else if f.class == tListed {
				f.class = g.class
			}
			x.Count("tool_lines", int64(x.checkListing(p, what, map[string]tfile{a: f})))
			if f.class == tListed && (p.How != "exit" || p.Code != 0) {
				x.Fail("P22", "exit", "%s ends as %s with code %d: %s", what, p.How, p.Code, p.PanicV)
			}
			if f.class == tBad && p.How == "exit" && p.Code == 0 {
				x.Fail("P22", "bad-accepted", "%s ends with success, the file is no valid torrent", what)
			}
			left(what)
		}
	case 2:
		p := x.runTool(h, mf, nil, "version")
		if !ended(p, "version") {
			return
		}
		x.Nontrivial = true
		if p.How != "exit" || p.Code != 0 || !strings.Contains(string(p.Stdout), " version ") {
			x.Fail("P22", "version", "p2pcrawler version ends as %s with code %d: %s; output:\n%s", p.How, p.Code, p.PanicV, tailOf(p.Out, 600))
		}
		left("p2pcrawler version")
	}
}

// listStored runs the tool on what a node has stored.
func (x *X) listStored(h *sim.Host, fs *sim.FS) {
	want := map[string]tfile{}
	for _, n := range fs.ListDir("/torrent") {
		if b, ok := fs.Peek("/torrent/" + n); ok && strings.HasSuffix(n, ".torrent") {
			want[n] = toolOf(b, tListed)
		}
	}
	if !fs.IsDirP("/torrent") {
		return
	}
	on, cfg := fs.OnOp, fs.Cfg
	fs.OnOp, fs.Cfg = nil, sim.FSCfg{}
	p := x.runTool(h, 0, nil, "torrent", "torrent")
	fs.OnOp, fs.Cfg = on, cfg
	if p.Alive() {
		x.Fail("P22", "no-end", "p2pcrawler torrent torrent has not ended after 240 s")
		return
	}
	x.Count("stored_listed", int64(x.checkListing(p, "after the node, p2pcrawler torrent torrent", want)))
	if p.How != "exit" || p.Code != 0 {
		x.Fail("P22", "exit", "after the node, p2pcrawler torrent torrent ends as %s with code %d: %s; output:\n%s", p.How, p.Code, p.PanicV, tailOf(p.Out, 600))
	}
}

func init() {
	register(&Scenario{Name: "tool", Props: []string{"P22"}, Gen: genTool, Run: runTool, Hang: []string{"P22"},
		Rule: "the directory held a torrent file, or the version was asked for"})
}
