package harness

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"

	"verif/dst/sim"
)

// Scenarios about the life of the whole node: P13 (signals), P18 (start and
// configuration) and P02 (hostile remotes).

func (nw *NW) sock() *sim.UDPSock { return nw.N.H.UDP(nw.N.Cfg.Port) }

// swarm is a set of peers that announces lead to.
type swarm struct {
	x     *X
	hosts smap[string, *sim.Host]
	src   smap[sim.Addr, *DPeer]
	dst   smap[sim.Addr, *TPeer]
	All   []*TPeer
}

// ann sends the announce of an "ann" op (see genAnnOps).
func (s *swarm) ann(nw *NW, i int, o Op) {
	x := s.x
	ip := annHost(o.a(0))
	h := s.hosts.at(ip)
	if *h == nil {
		*h = x.Net.AddHost("ann"+ip, ip)
	}
	ua := sim.Addr{IP: (*h).IP, Port: 6001 + int(o.a(1))}
	d := s.src.at(ua)
	if *d == nil {
		*d = x.NewDPeerOn(*h, ua.Port, "")
	}
	mode := int(o.a(2)) % mModes
	ta := sim.Addr{IP: (*h).IP, Port: int(o.a(8))}
	if ta.Port == 0 {
		ta.Port = 20000 + int(uint64(o.a(3)*31+o.a(0)*7+o.a(1))%10000)
	}
	port := ta.Port
	if mode == mImplied || mode == mImplied9 {
		ta.Port = ua.Port
	}
	t := s.dst.at(ta)
	if *t == nil {
		n := atLeast(o.a(4), 1)
		b := TBeh{Kind: int(o.a(5)), UT: int(o.a(6)), Flag: int(o.a(7)), Seed: o.a(3), Gap: 150 * ms / (3 + 4*(n4(o.a(4))+1))}
		*t = x.NewTPeerOn(*h, ta.Port, metaOf(n, o.a(3)), b)
		s.All = append(s.All, *t)
	}
	a := D{"id": "A123456789A123456789", "info_hash": (*t).Hash, "port": int64(port), "token": "aa"}
	switch mode {
	case mZero:
		a["implied_port"] = int64(0)
	case mImplied:
		a["implied_port"] = int64(1)
	case mImplied9:
		a["implied_port"] = int64(9)
	case mNeg:
		a["implied_port"] = int64(-1)
	}
	(*d).Send(nw.N.Addr, query(fmt.Sprintf("a%d", i), "announce_peer", a))
}

func n4(n int64) int64 { return n / 16384 }

// ---- P13 ----

func genSigterm(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["tick"] = 100
	p.N["maxsteps"] = 60000000
	lvl := 0
	if r.P(0.4) {
		lvl = 1
	}
	genNet(r, p, lvl)
	p.N["pool"] = int64(1 + r.Intn(6))
	p.N["queue"] = int64(r.Pick(1, 1, 2, 8, 64))
	p.N["fw"] = int64(r.Pick(1, 2, 3))
	span := int64(r.Pick(1000, 30000, 300000, 3000000, 15000000))
	if r.P(0.25) { // during the start
		p.N["early"] = 1
		span = int64(r.Pick(20, 300, 3000, 100000))
	}
	p.N["sigat"] = 1 + int64(r.Intn(int(span)))
	p.N["sig"] = int64(r.Pick(2, 15))
	if r.P(0.4) { // and another one
		p.N["sig2"] = int64(r.Pick(2, 15))
		p.N["sig2at"] = int64(r.Intn(r.Pick(1, 100, 100000, 4000000)))
	}
	if r.P(0.3) {
		p.N["keep"] = 1 // traffic goes on
	}
	n := r.Intn(r.Pick(2, 10, 40))
	for i := 0; i < n; i++ {
		if r.P(0.6) {
			p.Ops = append(p.Ops, Op{K: "udp", At: int64(r.Intn(int(span))), A: []int64{int64(r.Intn(4))}, B: genDatagram(r, i)})
		} else {
			genAnnOps(r, p, 1, 0.3)
			p.Ops[len(p.Ops)-1].At = int64(r.Intn(int(span)))
		}
	}
	sortOps(p.Ops)
}

func runSigterm(x *X) {
	cfg := NodeCfg{Port: 21000, Pool: int(atLeast(x.n("pool"), 1)), QueueSize: int(atLeast(x.n("queue"), 1)), FetchWP: int(atLeast(x.n("fw"), 1))}
	var nw *NW
	early := x.n("early") == 1
	if early {
		nw = &NW{x: x}
		nw.Boot = x.NewDPeer("boot", "10.0.1.1", 6881, "B123456789B123456789")
		nw.Probe = x.NewDPeer("probe", "10.0.2.1", 7000, "P123456789P123456789")
		cfg.Bootstrap = []string{nw.Boot.Addr.String()}
		nw.N = x.NewNodeHost(cfg)
		x.Net.Keep = true
		nw.watch()
		nw.N.Start()
	} else if nw = x.bootNode(cfg, "P02"); nw == nil {
		return
	}
	sw := &swarm{x: x}
	var peers []*DPeer
	for i := 0; i < 4; i++ {
		ip := fmt.Sprintf("10.0.3.%d", i+1)
		if i == 3 {
			ip = "2001:db8::7"
		}
		peers = append(peers, x.NewDPeer(fmt.Sprintf("p%d", i), ip, 4000+i, ""))
	}
	fs := nw.N.H.FS
	fs.OnOp = func(kind, p string) {
		if strings.HasPrefix(p, "/torrent/") {
			x.checkStored(fs, "after "+kind+" of "+p)
		}
	}
	t0 := x.W.Now()
	for i, o := range x.P.Ops {
		i, o := i, o
		at := o.At * us
		if x.n("keep") == 1 && i%2 == 0 {
			at += x.n("sigat") * us
		}
		x.W.At(t0+at, func() {
			if o.K == "udp" {
				peers[int(o.a(0))%len(peers)].Send(nw.N.Addr, nw.own(o.B))
			} else {
				sw.ann(nw, i, o)
			}
		})
	}
	sim.Sleep(t0 + x.n("sigat")*us - x.W.Now())
	if c, bad := nw.N.crashed(); bad {
		x.Fail("P02", "crash", "before the signal, %s", c)
		return
	}
	sock := nw.sock()
	sig := int(x.n("sig"))
	if sig == 0 {
		sig = 15
	}
	tS := x.W.Now()
	if s2 := int(x.n("sig2")); s2 > 0 {
		x.W.SignalAt(tS+x.n("sig2at")*us, nw.N.P, s2)
	}
	x.W.Signal(nw.N.P, sig)
	slack := 300*ms + 3*x.n("stallmax")
	if x.n("stall") > 0 {
		slack += 20 * x.n("stallmax")
	}
	s0, gone := x.W.StallNs, func() bool { return !nw.N.P.Alive() }
	if !x.W.WaitUntil(5*sec+slack, 10*ms, gone) && !x.W.WaitUntil(atLeast(x.W.StallNs-s0, ms), 10*ms, gone) {
		x.Fail("P13", "no-exit", "signal %d came %d us into the run and the node still runs %d ms later; output:\n%s", sig, x.n("sigat"), (5*sec+slack)/ms, nw.N.P.Out)
		x.W.Kill(nw.N.P, false)
	}
	x.Count("exit_ms", (nw.N.P.ExitAt-tS)/ms)
	p := nw.N.P
	switch p.How {
	case "panic", "fatal":
		x.Fail("P13", "crash", "after signal %d, the process died (%s): %s\n%s", sig, p.How, p.PanicV, p.PanicSt)
	case "exit":
		x.Count("clean_exits", 1)
		if p.Code != 0 {
			x.Fail("P13", "exit-code", "after signal %d the process exited with code %d", sig, p.Code)
		}
		if !early {
			if sock == nil {
				x.Fail("P13", "no-socket", "the node had no UDP socket on its port %d when the signal came", cfg.Port)
			} else if sock.NClose == 0 {
				x.Fail("P13", "socket-open", "after signal %d the node exited %d ms later without closing its UDP socket", sig, (p.ExitAt-tS)/ms)
			}
		}
	default:
		if !early {
			x.Fail("P13", "killed", "signal %d ended the running node without a shutdown (%s)", sig, p.How)
		}
		x.Count("default_disposition", 1)
	}
	x.Nontrivial = p.How == "exit"
	x.checkStored(fs, "after the shutdown")
	_, bad, _ := readInfoHashLog(fs)
	if len(bad) > 0 {
		x.Fail("P20", "log-line", "after the shutdown the log has a line that is no record: %q", bad[0])
	}
	// the next start
	x.quiet(func() {
		fs.OnOp = nil
		nw.N.P = nil
		nw.LocalID = ""
		nw.N.Start()
		if !nw.N.waitUp(nw.Probe, 60*sec) {
			x.Fail("P13", "restart", "after a shutdown the node does not start again; output:\n%s", nw.N.P.Out)
		}
	})
}

// ---- P18 ----

// slip makes a mistake in a configuration.
func slip(c []byte, kind int, seed int64) []byte {
	r := sim.NewRand(uint64(seed)*41 + uint64(kind))
	b := append([]byte(nil), c...)
	switch kind {
	case 1: // saved half way
		return b[:r.Intn(len(b))]
	case 2:
		return nil
	case 3: // a bracket too many
		i := r.Intn(len(b) + 1)
		return append(b[:i:i], append([]byte{"{}[]\","[r.Intn(6)]}, b[i:]...)...)
	case 4: // a character of the syntax left out
		for n := 0; n < 200; n++ {
			if i := r.Intn(len(b)); strings.IndexByte("{}[]\",:", b[i]) >= 0 {
				return append(b[:i:i], b[i+1:]...)
			}
		}
	case 5:
		return []byte("Port: 21000\n")
	case 6: // another kind of value
		return bytes.Replace(b, []byte("21000"), []byte(`"x"`), 1)
	case 7:
		return []byte([]string{"[]", "null", "0", "\"\"", "\xff\xfe{}", "// to do\n{}"}[r.Intn(6)])
	}
	return b[:len(b)/2]
}

// genConfig draws either a first start with faults or a configuration written
// by the operator.
func genConfig(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["tick"] = 100
	p.N["maxsteps"] = 60000000
	p.N["delay"] = int64(r.Pick(1, 50, 1000)) * us
	if r.P(0.45) {
		p.N["first"] = 1
		for i := 1 + r.Intn(3); i > 0; i-- {
			o := Op{K: "start", A: []int64{0, int64(r.Intn(2)), 0, 0, 0, 0, 0}}
			if r.P(0.6) {
				o.A[0] = int64(1 + r.Intn(r.Pick(6, 16, 30))) // crash before this op
			}
			if r.P(0.4) {
				for k := 2; k < 6; k++ {
					if r.P(0.5) {
						o.A[k] = int64(r.Pick(100, 400, 1000))
					}
				}
				if r.P(0.4) {
					o.A[6] = int64(r.Pick(1, 50, 200, 300, 400, 600))
				}
			}
			if r.P(0.3) {
				o.A = append(o.A, int64(r.Intn(3000))) // killed this many us after start
			}
			p.Ops = append(p.Ops, o)
		}
		if r.P(0.3) {
			p.N["edit"] = 1
		}
	}
	p.N["port"] = int64(r.Pick(21000, 6881, 1025, 65535, 40000, 80))
	p.N["pool"] = int64(1 + r.Intn(r.Pick(2, 12)))
	p.N["queue"] = int64(1 + r.Intn(r.Pick(1, 60)))
	p.N["fw"] = int64(1 + r.Intn(r.Pick(2, 8)))
	p.N["pprof"] = int64(r.Intn(2))
	p.N["boots"] = int64(r.Intn(5))
	if r.P(0.1) {
		p.N["boots"] = int64(r.Pick(9, 17, 40, 130))
	}
	if r.P(0.04) {
		// one size as large as operators make them
		p.N["pk"], p.N["big"] = 0, 1
		switch r.Intn(3) {
		case 0:
			p.N["pool"] = int64(r.Pick(300, 2000, 5000))
		case 1:
			p.N["queue"] = int64(r.Pick(1000, 1000, 3000, 8000))
		case 2:
			p.N["fw"] = int64(r.Pick(100, 600, 1100))
		}
	}
	if r.P(0.4) {
		p.N["same"] = int64(r.Intn(1 << 16)) // bootstrap nodes that share a host
	}
	p.N["style"] = int64(r.Intn(1 << 20))
	if r.P(0.3) {
		// settings left out; the large defaults cost time
		for i := 1 + r.Intn(3); i > 0; i-- {
			p.N["omit"] |= int64(r.Pick(oPort, oBoots, oPprof, oPprofSec, oLogger, oQueue, oPort|oBoots))
		}
		if r.P(0.15) {
			p.N["omit"] |= int64(r.Pick(oPool, oFW, oFetchSec, oDhtSec))
		}
	}
	if r.P(0.3) {
		p.N["named"] = int64(1 + r.Intn(len(confNames))) // with --config
		p.N["decoy"] = int64(r.Intn(3))
		p.N["argform"] = int64(r.Intn(2))
	}
	if r.P(0.3) {
		p.N["usercrash"] = int64(1 + r.Intn(12))
		p.N["power"] = int64(r.Intn(2))
	}
	if r.P(0.3) {
		p.N["broken"] = int64(1 + r.Intn(7))
	}
	if r.P(0.3) {
		p.N["usererr"] = int64(r.Pick(100, 500, 1000))
	}
}

// settings an operator may leave out
const (
	oPort = 1 << iota
	oPool
	oBoots
	oQueue
	oFW
	oPprof
	oPprofSec
	oLogger
	oFetchSec
	oDhtSec
)

// effective is what the node must run with.
func (c NodeCfg) effective(omit int64) NodeCfg {
	if omit&oDhtSec != 0 {
		omit |= oPort | oPool | oBoots
	}
	if omit&oFetchSec != 0 {
		omit |= oQueue | oFW
	}
	for _, s := range []struct {
		bit int64
		f   func()
	}{
		{oPort, func() { c.Port = 21000 }},
		{oPool, func() { c.Pool = 2000 }},
		{oBoots, func() { c.Bootstrap = []string{"87.98.162.88:6881"} }},
		{oQueue, func() { c.QueueSize = 300000 }},
		{oFW, func() { c.FetchWP = 500 }},
		{oPprof | oPprofSec, func() { c.Pprof = true }},
		{oLogger, func() { c.Level = "Info" }},
	} {
		if omit&s.bit != 0 {
			s.f()
		}
	}
	return c
}

// styled writes a configuration the way operators do: any order, any case, with
// extra keys.
//
// The settings in omit are left out.
func styled(c NodeCfg, style, omit int64) []byte {
	r := sim.NewRand(uint64(style) + 5)
	cs := func(s string) string {
		switch r.Intn(4) {
		case 0:
			return strings.ToLower(s)
		case 1:
			return strings.ToUpper(s)
		}
		return s
	}
	ws := func() string { return []string{"", " ", "\n", "\t", "\r\n  "}[r.Intn(5)] }
	obj := func(kv []string) string {
		for i := len(kv) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			kv[i], kv[j] = kv[j], kv[i]
		}
		return "{" + ws() + strings.Join(kv, ","+ws()) + ws() + "}"
	}
	kv := func(k, v string) string { return fmt.Sprintf("%q%s:%s%s", cs(k), ws(), ws(), v) }
	var q []string
	for _, b := range c.Bootstrap {
		q = append(q, fmt.Sprintf("%q", b))
	}
	var d, f, pp, top []string
	add := func(l *[]string, bit int64, k, v string) {
		if omit&bit == 0 {
			*l = append(*l, kv(k, v))
		}
	}
	add(&d, oPort, "Port", fmt.Sprint(c.Port))
	add(&d, oPool, "WorkPoolSize", fmt.Sprint(c.Pool))
	add(&d, oBoots, "BootstrapNodes", "["+strings.Join(q, ",")+"]")
	add(&f, oQueue, "InfoHashQueueSize", fmt.Sprint(c.QueueSize))
	add(&f, oFW, "WorkPoolSize", fmt.Sprint(c.FetchWP))
	add(&pp, oPprof, "NeedRun", fmt.Sprint(c.Pprof))
	add(&top, oDhtSec, "dht", obj(d))
	add(&top, oFetchSec, "fetchTorrent", obj(f))
	add(&top, oPprofSec, "pprof", obj(pp))
	add(&top, oLogger, "logger", obj([]string{kv("Level", fmt.Sprintf("%q", c.level()))}))
	if r.P(0.4) {
		top = append(top, kv("comment", `"do not touch"`))
	}
	s := ws() + obj(top) + ws()
	if r.P(0.3) {
		s += "\n\n"
	}
	return []byte(s)
}

// field looks a path up in parsed JSON, ignoring case.
func field(v interface{}, path ...string) interface{} {
	for _, k := range path {
		m, ok := v.(map[string]interface{})
		if !ok {
			return nil
		}
		v = nil
		for n, e := range m {
			if strings.EqualFold(n, k) {
				v = e
			}
		}
	}
	return v
}

const confFile = "/conf/config.json"

// what an operator may pass to --config, and the file it is
var confNames = [][2]string{
	{"/etc/p2pcrawler/node.json", "/etc/p2pcrawler/node.json"},
	{"node2.json", "/node2.json"},
	{"./conf/other.json", "/conf/other.json"},
	{"conf/config.json", confFile},
	{"./conf/config.json", confFile},
	{"/srv/conf/config.json", "/srv/conf/config.json"},
}

func runConfig(x *X) {
	nw := &NW{x: x}
	nw.Probe = x.NewDPeer("probe", "10.0.2.1", 7000, "P123456789P123456789")
	h := x.Net.AddHost("node", "10.0.0.1")
	fs := h.NewFS()
	fs.PreloadDir("/")
	fs.SyncAll()
	x.Net.Keep = true
	nw.watch()
	x.Nontrivial = true
	var args []string
	start := func(c NodeCfg) {
		nw.N = &Node{x: x, H: h, Cfg: c, Addr: sim.Addr{IP: h.IP, Port: c.Port}}
		nw.LocalID = ""
		nw.Asks = nil
		nw.N.Args = args
		nw.N.Start()
	}
	asked := func(a sim.Addr) bool {
		for _, k := range nw.Asks {
			if k.To == a && k.Q == "find_node" {
				return true
			}
		}
		return false
	}
	var dfltBoot *DPeer
	if x.n("first") == 1 {
		dflt := NodeCfg{Port: 21000, Pool: 2000, QueueSize: 300000, FetchWP: 500, Pprof: true, Bootstrap: []string{"87.98.162.88:6881"}}
		dfltBoot = x.NewDPeer("default-boot", "87.98.162.88", 6881, "B123456789B123456789")
		for i, o := range x.P.Ops {
			c := &fs.Cfg
			c.CreateErr, c.WriteErr = float64(o.a(2))/1000, float64(o.a(3))/1000
			c.SyncErr, c.RenameErr = float64(o.a(4))/1000, float64(o.a(5))/1000
			if k := o.a(6); k > 0 {
				c.Capacity = k
			}
			start(dflt)
			p := nw.N.P
			if k := o.a(0); k > 0 {
				p.CrashOp, p.CrashPower = k, o.a(1) == 1
			}
			if k := o.a(7); k > 0 {
				x.W.KillAt(x.W.Now()+k*us, p, o.a(1) == 1)
			}
			up := nw.N.waitUp(nw.Probe, 3*sec)
			if !p.Alive() {
				x.Count("start_"+p.How, 1)
			} else if !up && *c == (sim.FSCfg{}) {
				st := x.W.Pol.StallP
				x.W.Pol.StallP = 0
				up = nw.N.waitUp(nw.Probe, 60*sec)
				x.W.Pol.StallP = st
				if !p.Alive() {
					x.Count("start_"+p.How, 1)
				}
			}
			if !up && p.Alive() && *c == (sim.FSCfg{}) {
				x.Fail("P18", "first-start", "start %d without a configuration and without disk errors does not serve; output:\n%s", i+1, p.Out)
			}
			x.W.Kill(p, o.a(1) == 1)
			*c = sim.FSCfg{}
		}
		before, had := fs.Peek(confFile)
		start(dflt)
		if !nw.N.waitUp(nw.Probe, 60*sec) {
			out := nw.N.P.Out
			c, _ := nw.N.crashed()
			x.Fail("P18", "restart", "after %d interrupted first starts the node does not start: %s; conf/config.json %v %s; output:\n%s", len(x.P.Ops), c, had, clip(before), out)
			return
		}
		b, ok := fs.Peek(confFile)
		var v interface{}
		if !ok {
			x.Fail("P18", "not-created", "a node started without a configuration did not create conf/config.json")
			return
		}
		if err := json.Unmarshal(b, &v); err != nil {
			x.Fail("P18", "not-json", "conf/config.json: %v: %s", err, clip(b))
			return
		}
		want := func(w interface{}, p ...string) {
			if g := field(v, p...); fmt.Sprint(g) != fmt.Sprint(w) {
				x.Fail("P18", "default-"+strings.Join(p, "."), "the created configuration has %s = %v, the default is %v", strings.Join(p, "."), g, w)
			}
		}
		want(21000, "dht", "Port")
		want(2000, "dht", "WorkPoolSize")
		want([]interface{}{"87.98.162.88:6881"}, "dht", "BootstrapNodes")
		want("300000", "fetchTorrent", "InfoHashQueueSize")
		want(500, "fetchTorrent", "WorkPoolSize")
		want(true, "pprof", "NeedRun")
		want("Info", "logger", "Level")
		if !x.W.WaitUntil(2*sec, 10*ms, func() bool { return asked(dfltBoot.Addr) }) {
			x.Fail("P18", "default-bootstrap", "a node with the default configuration did not ask its bootstrap node")
		}
		if !x.W.WaitUntil(2*sec, 10*ms, func() bool { return h.TCP(10080) != nil }) {
			x.Fail("P18", "default-pprof", "a node with the default configuration does not serve profiles")
		}
		x.W.Kill(nw.N.P, false)
		if a, _ := fs.Peek(confFile); !bytes.Equal(a, b) {
			x.Fail("P18", "rewritten", "the configuration changed while the node ran")
		}
		if x.n("edit") == 0 {
			return
		}
	}
	x.calm()
	// the operator's configuration
	cfg := NodeCfg{Port: int(atLeast(x.n("port"), 1)), Pool: int(atLeast(x.n("pool"), 1)), QueueSize: int(atLeast(x.n("queue"), 1)), FetchWP: int(atLeast(x.n("fw"), 1)), Pprof: x.n("pprof") == 1, Level: levels[int(x.n("level"))%len(levels)]}
	var boots []*DPeer
	var names []string
	for i := int64(0); i < x.n("boots"); i++ {
		ip, name := fmt.Sprintf("10.0.1.%d", i+1), ""
		switch i {
		case 2:
			ip = "2001:db8::11"
		case 3:
			name = "router.example.org"
		}
		var d *DPeer
		if id := fmt.Sprintf("B%02d3456789B123456789", i); i > 0 && i != 3 && x.n("same")>>(i%16)&1 != 0 {
			d, name = x.NewDPeerOn(boots[i-1].Host, 6881+int(i), id), names[i-1]
		} else {
			d = x.NewDPeer(fmt.Sprintf("boot%d", i), ip, 6881+int(i), id)
		}
		names = append(names, name)
		boots = append(boots, d)
		s := d.Addr.String()
		if name != "" {
			if i == 3 {
				x.Net.AddName(name, ip)
			}
			s = fmt.Sprintf("%s:%d", name, d.Addr.Port)
		}
		cfg.Bootstrap = append(cfg.Bootstrap, s)
	}
	omit := x.n("omit")
	own := styled(cfg, x.n("style"), omit)
	if cfg = cfg.effective(omit); omit&(oBoots|oDhtSec) != 0 {
		boots = boots[:0]
		if dfltBoot == nil {
			dfltBoot = x.NewDPeer("default-boot", "87.98.162.88", 6881, "B123456789B123456789")
		}
		boots = append(boots, dfltBoot)
	}
	if omit != 0 {
		x.Count("settings_left_out", 1)
	}
	huge := cfg.QueueSize > 50000
	file := confFile
	if k := x.n("named"); k > 0 {
		c := confNames[int(k-1)%len(confNames)]
		file = c[1]
		if x.n("argform") == 0 {
			args = []string{"--config", c[0]}
		} else {
			args = []string{"--config=" + c[0]}
		}
		if x.n("decoy") > 0 && file != confFile {
			// the file used when none is named
			other := NodeCfg{Port: cfg.Port%60000 + 1111, Pool: cfg.Pool + 3, QueueSize: cfg.QueueSize + 5, FetchWP: cfg.FetchWP + 2, Pprof: !cfg.Pprof, Bootstrap: []string{"10.0.1.99:6999"}}
			x.NewDPeer("other", "10.0.1.99", 6999, "O123456789O123456789")
			if x.n("decoy") == 2 {
				fs.Preload(confFile, styled(other, x.n("style")+1, 0))
			} else {
				fs.Preload(confFile, other.JSON())
			}
		}
		x.Count("config_named", 1)
	}
	if k := x.n("broken"); k > 0 {
		// the operator's first attempt, with a slip in it
		bad := slip(own, int(k), x.n("style"))
		fs.Preload(file, bad)
		fs.SyncAll()
		fs.OnOp = func(kind, p string) {
			if b, ok := fs.Peek(file); !ok || !bytes.Equal(b, bad) {
				x.Fail("P18", "altered", "%s of %s altered the operator's configuration, which has a slip in it: %s", kind, p, clip(bad))
			}
		}
		start(cfg)
		nw.N.waitUp(nw.Probe, 2*sec)
		x.W.Kill(nw.N.P, false)
		x.Count("config_with_slip", 1)
		fs.OnOp = nil
		x.W.Kill(nw.N.P, false)
	}
	fs.Preload(file, own)
	fs.SyncAll()
	fs.OnOp = func(kind, p string) {
		if b, ok := fs.Peek(file); !ok || !bytes.Equal(b, own) {
			x.Fail("P18", "altered", "%s of %s altered the operator's configuration", kind, p)
		}
	}
	if x.n("usercrash") > 0 || x.n("usererr") > 0 {
		e := float64(x.n("usererr")) / 1000
		fs.Cfg = sim.FSCfg{CreateErr: e, WriteErr: e, SyncErr: e, RenameErr: e, ReadErr: e}
		start(cfg)
		p := nw.N.P
		if k := x.n("usercrash"); k > 0 {
			p.CrashOp, p.CrashPower = k, x.n("power") == 1
		}
		nw.N.waitUp(nw.Probe, 2*sec)
		x.W.Kill(p, x.n("power") == 1)
		if b, ok := fs.Peek(file); !ok || !bytes.Equal(b, own) {
			x.Fail("P18", "altered", "a start with faults altered the operator's configuration: %v %s", ok, clip(b))
			return
		}
	}
	x.calm()
	start(cfg)
	nw.N.P.KeepStdout = true
	if !nw.N.waitUp(nw.Probe, 60*sec) {
		c, _ := nw.N.crashed()
		x.Fail("P18", "own-start", "the node does not serve on its configured port %d: %s; configuration %s; output:\n%s", cfg.Port, c, clip(own), nw.N.P.Out)
		return
	}
	up := len(nw.N.P.Stdout)
	defer func() { x.levelKept(nw.N.P.Stdout[up:], cfg.level()) }()
	sim.Sleep(200 * ms)
	for i, b := range boots {
		if !asked(b.Addr) {
			x.Fail("P18", "bootstrap", "the node did not ask its bootstrap node %s", cfg.Bootstrap[i])
		}
	}
	for _, k := range nw.Asks {
		ok := false
		for _, b := range boots {
			ok = ok || k.To == b.Addr
		}
		if !ok {
			x.Fail("P18", "other-bootstrap", "the node asked %s, which is not among its bootstrap nodes %v", k.To, cfg.Bootstrap)
		}
	}
	if has := h.TCP(10080) != nil; has != cfg.Pprof {
		x.Fail("P18", "pprof", "NeedRun is %v and the profile server's presence is %v", cfg.Pprof, has)
	}
	// more announces of a peer that never answers than the node can hold
	bh := x.Net.AddHost("hole", "10.7.0.1")
	l, err := bh.ListenTCP(bh.IP, 9999)
	if err != nil {
		panic(err)
	}
	l.Behave = 2
	src := x.NewDPeerOn(bh, 9998, "")
	n := cfg.QueueSize + 2*cfg.FetchWP + 2 + 2*cfg.Pool + 4
	if huge {
		n = 2*cfg.FetchWP + 100
	}
	if x.n("big") == 1 || n > 900 {
		n += 4 * cfg.FetchWP
	}
	s0 := len(x.Net.Sent)
	x.quiet(func() {
		for i := 0; i < n; i++ {
			// paced, so that no socket buffer overflows
			src.SendClean(nw.N.Addr, query(fmt.Sprintf("c%d", i), "announce_peer", D{"id": "A123456789A123456789", "info_hash": fmt.Sprintf("%020d", i), "port": int64(9999), "token": "aa"}))
			if x.n("big") == 1 || n > 900 {
				sim.Sleep(100 * us)
			} else {
				sim.Sleep(ms)
			}
			// a slow node may take longer over them
			for k := 0; k < 200 && i%64 == 63; k++ {
				sk := nw.sock()
				if sk == nil {
					break
				}
				q := sk.Queued()
				if q < 128 {
					break
				}
				sim.Sleep(5 * ms)
				if sk := nw.sock(); sk == nil || sk.Queued() >= q {
					break
				}
			}
		}
		sim.Sleep(sec)
		took := func() int {
			b, _ := fs.Peek("/logs/infohash.log")
			return len(b) + len(x.Net.Sent)
		}
		for k := 0; k < 100; k++ {
			t := took()
			sim.Sleep(100 * ms)
			if took() == t {
				break
			}
		}
	})
	if c, bad := nw.N.crashed(); bad {
		x.Fail("P02", "crash", "%s", c)
		return
	}
	ans := 0
	rs, _ := nw.replies(s0)
	for _, r := range rs {
		if y, _ := r.D.str("y"); y == "r" && r.To == src.Addr {
			ans++
		}
	}
	recs, _, _ := readInfoHashLog(fs)
	logged := 0
	for _, r := range recs {
		if r.Addr == src.Addr.String() {
			logged++
		}
	}
	dials, over := 0, 0
	for _, d := range x.Net.Dials {
		if d.Res == "" {
			dials++
		} else {
			over++ // given up, and the next announce took its place
		}
	}
	if dials != cfg.FetchWP {
		x.Fail("P18", "fetch-workers", "%d fetches are under way, fetchTorrent.WorkPoolSize is %d", dials, cfg.FetchWP)
	}
	if b, ok := fs.Peek(file); !ok || !bytes.Equal(b, own) {
		x.Fail("P18", "altered", "the operator's configuration was altered")
	}
	if huge {
		// more than fits in a run
		if ans != n {
			x.Fail("P18", "queue", "the node took %d of %d announces, InfoHashQueueSize is %d", ans, n, cfg.QueueSize)
		}
		return
	}
	if lo := cfg.QueueSize + cfg.FetchWP; ans < lo || ans > lo+cfg.FetchWP+2+over {
		x.Fail("P18", "queue", "the node took %d announces with InfoHashQueueSize %d and %d fetch workers", ans, cfg.QueueSize, cfg.FetchWP)
	}
	if logged-ans != cfg.Pool {
		x.Fail("P18", "workers", "%d queries are being handled with all workers busy, dht.WorkPoolSize is %d", logged-ans, cfg.Pool)
	}
}

// ---- P02 ----

func genHostile(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["tick"] = 100
	p.N["maxsteps"] = 80000000
	lvl := 1
	if r.P(0.3) {
		lvl = 0
	}
	genNet(r, p, lvl)
	if r.P(0.3) {
		p.N["senderr"] = int64(r.Pick(20, 200, 1000))
	}
	if r.P(0.2) {
		p.N["recverr"] = int64(r.Pick(50, 300, 900))
	}
	p.N["pool"] = int64(1 + r.Intn(5))
	p.N["queue"] = int64(r.Pick(1, 2, 8, 64))
	p.N["fw"] = int64(r.Pick(1, 2, 4))
	n := 1 + r.Intn(r.Pick(5, 20, 60))
	span := r.Pick(1000, 100000, 2000000, 30000000)
	for i := 0; i < n; i++ {
		at := int64(r.Intn(span))
		switch r.Intn(10) {
		case 0, 1:
			genAnnOps(r, p, 1, 0.15)
			p.Ops[len(p.Ops)-1].At = at
		case 2:
			d := int64(r.Pick(1, 1000, 86400000)) * int64(r.Intn(2000)-1000)
			p.Ops = append(p.Ops, Op{K: "jump", At: at, A: []int64{d}})
		case 3, 4, 5:
			// the i-th answer to the node's own queries
			p.Ops = append(p.Ops, Op{K: "evil", A: []int64{int64(r.Intn(nEvil)), int64(r.Intn(1 << 30))}})
		case 6:
			// announces with odd ports and addresses
			t := fmt.Sprintf("o%d", i)
			a := D{"id": id20(r), "info_hash": string(r.Bytes(r.Pick(20, 20, 0, 1, 40, 300))), "token": "x",
				"port": []interface{}{0, -1, 65536, 1 << 40, 21000, 1, "80", L{}, D{}}[r.Intn(9)]}
			if r.P(0.5) {
				a["implied_port"] = []interface{}{0, 1, -1, 1 << 40, "1", L{}}[r.Intn(6)]
			}
			p.Ops = append(p.Ops, Op{K: "udp", At: at, A: []int64{int64(r.Intn(5))}, B: query(t, "announce_peer", a)})
		case 7:
			if r.P(0.3) {
				// sends fail for a while; queries make the node send
				k := int64(r.Pick(1, 10, 100, 400))
				p.Ops = append(p.Ops, Op{K: "sfail", At: at, A: []int64{k}})
				if k > 10 || r.P(0.5) {
					for j := int64(0); j < k; j++ {
						p.Ops = append(p.Ops, Op{K: "udp", At: at + 10*j, A: []int64{int64(r.Intn(5))}, B: query(fmt.Sprintf("s%d.%d", i, j), "ping", D{"id": id20(r)})})
					}
				}
				continue
			}
			if r.P(0.12) {
				// the same thing very many times
				b := genDatagram(r, i)
				for classify(b).q == "announce_peer" {
					b = genDatagram(r, i)
				}
				n := r.Pick(100, 300, 1200, 2500)
				if r.P(0.2) {
					// a peer that accepts no connection
					b = query(fmt.Sprintf("f%d", i), "announce_peer", D{"id": id20(r), "info_hash": id20(r), "token": "x", "port": 9})
					n /= 4
				}
				p.Ops = append(p.Ops, Op{K: "flood", At: at, A: []int64{int64(r.Intn(5)), int64(n), int64(r.Pick(20, 100, 500))}, B: b})
				continue
			}
			if r.P(0.4) {
				p.Ops = append(p.Ops, Op{K: "rfail", At: at, A: []int64{int64(r.Pick(1, 5, 40, 200, 1500))}})
				continue
			}
			fallthrough
		default:
			p.Ops = append(p.Ops, Op{K: "udp", At: at, A: []int64{int64(r.Intn(5))}, B: genDatagram(r, i)})
		}
	}
	lullAt(r, p, 0.04)
	sortOps(p.Ops)
}

const nEvil = 16

// evil makes an answer to a query of the node's.
func evil(r *sim.Rand, k int, t string, nodes string) []byte {
	id := id20(r)
	odd := func() interface{} {
		return []interface{}{1, "", "x", L{}, L{1, "x"}, D{}, D{"id": 1}, nodes, string(r.Bytes(26 * 3))}[r.Intn(9)]
	}
	switch k {
	case 0: // addresses that cannot be sent to
		s := ""
		for _, a := range []string{"0.0.0.0", "255.255.255.255", "127.0.0.1", "224.0.0.1", "10.0.0.1", "10.0.0.0"} {
			for _, p := range []int{0, 1, 21000, 65535} {
				s += compactNode(id20(r), sim.Addr{IP: sim.IP4(a), Port: p})
			}
		}
		return reply(t, D{"id": id, "nodes": s})
	case 1:
		return reply(t, D{"id": id, "nodes": odd()})
	case 2:
		return reply(t, D{"id": odd(), "nodes": nodes})
	case 3:
		return reply(t, D{"id": id})
	case 4:
		return []byte(benc(D{"t": t, "y": "r", "r": odd()}))
	case 5:
		return []byte(benc(D{"t": t, "y": "r"}))
	case 6:
		return []byte(benc(D{"t": t, "y": "e", "e": odd()}))
	case 7:
		return []byte(benc(D{"t": t, "y": "e", "r": D{"id": id, "nodes": nodes}}))
	case 8:
		return reply(t, D{"id": id, "nodes": nodes[:len(nodes)-len(nodes)/3]})
	case 9:
		b := reply(t, D{"id": id, "nodes": nodes})
		return b[:r.Intn(len(b))]
	case 10:
		return reply(t, D{"id": id, "nodes": string(r.Bytes(26 * r.Intn(36)))})
	case 11:
		return reply(t, D{"id": id, "values": L{string(r.Bytes(6)), "x", 1}, "nodes": nodes})
	case 12:
		return []byte(benc(D{"t": t, "y": odd(), "r": D{"id": id, "nodes": nodes}}))
	case 13:
		return append(reply(t, D{"id": id, "nodes": nodes}), r.Bytes(1+r.Intn(30))...)
	case 14:
		b := reply(t, D{"id": id, "nodes": nodes})
		for i := 1 + r.Intn(4); i > 0; i-- {
			b[r.Intn(len(b))] = byte(r.U64())
		}
		return b
	default:
		return reply(t, D{"id": id, "nodes": nodes})
	}
}

func runHostile(x *X) {
	cfg := NodeCfg{Port: 21000, Pool: int(atLeast(x.n("pool"), 1)), QueueSize: int(atLeast(x.n("queue"), 1)), FetchWP: int(atLeast(x.n("fw"), 1))}
	var evils, rest []Op
	for _, o := range x.P.Ops {
		if o.K == "evil" {
			evils = append(evils, o)
		} else {
			rest = append(rest, o)
		}
	}
	nw := &NW{x: x}
	nw.Boot = x.NewDPeer("boot", "10.0.1.1", 6881, "B123456789B123456789")
	nw.Probe = x.NewDPeer("probe", "10.0.2.1", 7000, "P123456789P123456789")
	cfg.Bootstrap = []string{nw.Boot.Addr.String()}
	nw.N = x.NewNodeHost(cfg)
	var peers []*DPeer
	for i := 0; i < 5; i++ {
		ip := fmt.Sprintf("10.0.3.%d", i+1)
		if i == 3 {
			ip = "2001:db8::7"
		}
		peers = append(peers, x.NewDPeer(fmt.Sprintf("p%d", i), ip, 4000+i, ""))
	}
	silent, ne, asked := false, 0, 0
	respond := func(p *DPeer) func(sim.Addr, []byte) {
		return func(from sim.Addr, b []byte) {
			t, _, _, ok := isQuery(b)
			if !ok || silent || ne >= len(evils) {
				return
			}
			asked++
			o := evils[ne]
			ne++
			r := sim.NewRand(uint64(o.a(1)))
			nodes := ""
			for i := 0; i < 3; i++ {
				q := peers[r.Intn(len(peers))]
				if len(q.Addr.IP) == 4 {
					nodes += compactNode(id20(r), q.Addr)
				}
			}
			a := evil(r, int(o.a(0))%nEvil, t, nodes)
			p.Send(from, a)
			if r.P(0.3) {
				p.Send(from, a)
			}
			if r.P(0.3) {
				p.Send(from, evil(r, r.Intn(nEvil), t, nodes))
			}
		}
	}
	nw.Boot.On = respond(nw.Boot)
	for _, p := range peers {
		p.On = respond(p)
	}
	if !nw.up("P02") {
		return
	}
	sw := &swarm{x: x}
	fs := nw.N.H.FS
	d0 := len(x.Net.Dials)
	r0 := len(x.Net.Rcvd)
	t0 := x.W.Now()
	last := int64(0)
	for i, o := range rest {
		i, o := i, o
		end := o.At * us
		if o.K == "flood" {
			end += o.a(1) * o.a(2) * us
		}
		if end > last {
			last = end
		}
		x.W.At(t0+o.At*us, func() {
			if !nw.N.P.Alive() {
				return
			}
			switch o.K {
			case "udp":
				peers[int(o.a(0))%len(peers)].Send(nw.N.Addr, nw.own(o.B))
			case "flood":
				for j := int64(0); j < o.a(1); j++ {
					x.W.After(j*o.a(2)*us, func() {
						if nw.N.P.Alive() {
							peers[int(o.a(0))%len(peers)].Send(nw.N.Addr, nw.own(o.B))
						}
					})
				}
			case "ann":
				sw.ann(nw, i, o)
			case "jump":
				x.W.JumpWall(o.a(0) * us)
			case "rfail":
				if s := nw.N.H.UDP(nw.N.Addr.Port); s != nil {
					s.FailReads(int(o.a(0)))
				}
			case "sfail":
				if s := nw.N.H.UDP(nw.N.Addr.Port); s != nil {
					s.FailSends(int(o.a(0)))
				}
			}
		})
	}
	x.W.WaitUntil(last+200*ms+40*x.Net.Cfg.MinDelay+8*x.Net.Cfg.Jitter, 50*ms+last/2000, func() bool { return !nw.N.P.Alive() })
	if c, bad := nw.N.crashed(); bad {
		x.Fail("P02", "crash", "%s", c)
		return
	}
	x.Nontrivial = asked+len(rest) > 0
	x.Count("hostile_answers", int64(asked))
	// silence
	silent = true
	x.calm()
	if s := nw.N.H.UDP(nw.N.Addr.Port); s != nil {
		s.FailSends(0)
	}
	anns := 0
	for _, p := range x.Net.Rcvd[r0:] {
		if e := classify(p.Data); e.q == "announce_peer" {
			anns++
		}
	}
	limit := (int64(anns)/int64(cfg.FetchWP)+2)*(20*sec+500*ms+3*x.n("stallmax")) + 30*sec
	tS := x.W.Now()
	nw.Probe.On = nil
	if !nw.N.waitUp(nw.Probe, limit) {
		if c, bad := nw.N.crashed(); bad {
			x.Fail("P02", "crash", "%s", c)
		} else {
			x.Fail("P02", "dead", "the adversary fell silent and the node does not answer pings within %d s (%d announces, %d fetch workers)", limit/sec, anns, cfg.FetchWP)
		}
		return
	}
	good := x.NewTPeer("good", "10.9.0.1", 6999, metaOf(20000, 77), TBeh{Kind: pHonest, UT: 3, Seed: 5, Gap: ms})
	gsrc := x.NewDPeerOn(good.H, 6998, "")
	gsrc.SendClean(nw.N.Addr, query("good", "announce_peer", D{"id": "A123456789A123456789", "info_hash": good.Hash, "port": int64(6999), "token": "aa"}))
	want := "/torrent/" + hex.EncodeToString([]byte(good.Hash)) + ".torrent"
	ok := x.W.WaitUntil(limit, 50*ms, func() bool {
		if !nw.N.P.Alive() {
			return true
		}
		b, has := fs.Peek(want)
		return has && bytes.Equal(b, good.Meta)
	})
	if c, bad := nw.N.crashed(); bad {
		x.Fail("P02", "crash", "%s", c)
		return
	}
	if !ok {
		x.Fail("P02", "not-fetched", "the adversary fell silent and the metadata an honest peer announced was not stored within %d s", limit/sec)
	}
	x.Count("recovered_ms", (x.W.Now()-tS)/ms)
	if !nw.ping(limit) {
		x.Fail("P02", "dead-later", "the node no longer answers pings")
	}
	x.checkStored(fs, "at the end")
	if _, bad, tail := readInfoHashLog(fs); len(bad) > 0 || tail != "" {
		x.Fail("P20", "log-line", "the log has a line that is no record: %q %q", bad, tail)
	}
	x.checkConns(x.Net.Dials[d0:], 20*sec+500*ms+20*x.n("stallmax"))
}

// checkConns checks how long each connection of the node lived.
func (x *X) checkConns(ds []sim.DialRec, max int64) {
	for _, d := range ds {
		end := x.W.Now()
		if d.Res != "" && d.End == nil {
			end = d.Done
		} else if d.End != nil && d.End.Closed {
			end = d.End.ClosedAt
			if d.End.NCloses > 1 {
				x.Fail("P10", "closed-twice", "the connection to %s was closed %d times", d.To, d.End.NCloses)
			}
		}
		if end-d.At > max {
			x.Fail("P10", "too-long", "the node was connected to %s for %d ms", d.To, (end-d.At)/ms)
		}
	}
}

func init() {
	register(&Scenario{Name: "sigterm", Props: []string{"P13", "P21"}, Gen: genSigterm, Run: runSigterm, Race: true, Hang: []string{"P13"},
		Rule: "the node shut down on a signal it had subscribed to"})
	register(&Scenario{Name: "config", Props: []string{"P18", "P25"}, Gen: genConfig, Run: runConfig, Race: true, Hang: []string{"P18"},
		Rule: "the node was started at least once"})
	register(&Scenario{Name: "hostile", Props: []string{"P02", "P21"}, Gen: genHostile, Run: runHostile, Race: true, Hang: []string{"P02"},
		Rule: "the adversary sent at least one datagram"})
}

var logLine = regexp.MustCompile(`^[-0-9]+ [:.0-9]+ +(Debug|Info|Warn|Error|Panic|Trace): `)

// levelKept looks for records below the configured level on a node's console.
func (x *X) levelKept(out []byte, level string) {
	min := -1
	for i, w := range logWords {
		if strings.EqualFold(w, level) {
			min = i
		}
	}
	n := int64(0)
	for _, l := range strings.Split(string(out), "\n") {
		m := logLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		n++
		for i, w := range logWords {
			if strings.EqualFold(w, m[1]) && i < min {
				x.Fail("P25", "level-setting", "with logger.Level %q the node prints %s", level, clip([]byte(l)))
				return
			}
		}
	}
	x.Count("console_records", n)
}
