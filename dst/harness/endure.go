package harness

import (
	"encoding/hex"
	"fmt"
	"runtime"
	"runtime/metrics"

	"verif/dst/sim"
)

// The scenario endure: a node under a long stretch of traffic of one or two
// kinds must hold, once the traffic is over, no more goroutines, connections,
// sockets, files and memory than before (P23), and work as before (P02).

// kinds of traffic
const (
	eQuery   = iota // valid queries
	eJunk           // datagrams of every kind but announces
	eRefused        // announces of a peer that refuses connections
	eFetch          // announces of honest peers, each of another torrent
	eBad            // announces of misbehaving peers
	eAgain          // announces of one torrent
	eRecvErr        // receive errors
	eSendErr        // sends that fail
	eDiskErr        // announces of honest peers while the disk fails
	eAnswers        // answers nobody asked for
	eFar            // announces of a host that does not answer connects
	eKinds
)

func genEndure(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	if p.N["pk"] == 1 && p.N["gap"] < 20 {
		p.N["gap"] = int64(r.Pick(20, 60, 200, 1000))
	}
	delete(p.N, "stall")
	p.N["tick"] = 100
	p.N["maxsteps"] = 80000000
	genNet(r, p, 0)
	if p.N["delay"] > 1000*us {
		p.N["delay"] = 1000 * us
	}
	if p.N["jitter"] > 5000*us {
		p.N["jitter"] = 5000 * us
	}
	p.N["pool"] = int64(1 + r.Intn(5))
	p.N["queue"] = int64(r.Pick(1, 8, 64, 500))
	p.N["fw"] = int64(r.Pick(1, 2, 4))
	p.N["hosts"] = int64(r.Pick(1, 3, 40))
	p.N["gapus"] = int64(r.Pick(50, 300, 2000, 20000))
	p.N["long"] = int64(b2i(r.P(0.3)))
	// one kind, or two by turns
	ks := []int{r.Intn(eKinds)}
	if r.P(0.4) {
		ks = append(ks, r.Intn(eKinds))
	}
	n := r.Pick(150, 300, 800, 2500)
	for _, k := range ks {
		switch k {
		case eFetch, eDiskErr, eBad, eFar, eAgain:
			if n > 150 {
				n = r.Pick(90, 150)
			}
		}
	}
	p.N["warm"] = int64(r.Pick(10, 40))
	for i := 0; i < n; i++ {
		k := ks[i%len(ks)]
		p.Ops = append(p.Ops, Op{K: "e", A: []int64{int64(k), int64(r.Intn(1 << 30))}})
	}
	p.N["all"] = int64(n)
}

// footprint is what the node holds.
type footprint struct {
	gs, conns, socks, files int
	heap                    int64
}

var heapSample = []metrics.Sample{{Name: "/gc/heap/live:bytes"}}

func (nw *NW) footprint(mem bool) (f footprint) {
	x := nw.x
	f.gs = nw.N.P.NGs()
	var open []sim.DialRec
	for _, d := range x.Net.Dials {
		if d.End != nil && !d.End.Closed || d.End == nil && d.Res == "" {
			open = append(open, d)
		}
	}
	f.conns, x.Net.Dials = len(open), open
	f.socks = nw.N.H.NSocks()
	f.files = len(nw.N.H.FS.OpenUnder("/"))
	if mem {
		runtime.GC()
		runtime.GC()
		metrics.Read(heapSample)
		f.heap = int64(heapSample[0].Value.Uint64()) - nw.N.H.FS.Held() - x.W.Held()
	}
	return
}

func runEndure(x *X) {
	cfg := NodeCfg{Port: 21000, Pool: int(atLeast(x.n("pool"), 1)), QueueSize: int(atLeast(x.n("queue"), 1)), FetchWP: int(atLeast(x.n("fw"), 1))}
	nw := x.bootNode(cfg, "P02")
	if nw == nil {
		return
	}
	x.Net.Keep = false
	x.Net.Sent, x.Net.Rcvd = nil, nil
	nh := int(atLeast(x.n("hosts"), 1))
	var socks []*sim.UDPSock
	for i := 0; i < nh; i++ {
		ip := fmt.Sprintf("10.3.%d.%d", i/200, 1+i%200)
		h := x.Net.AddHost("e"+ip, ip)
		s, err := h.BindUDP(h.IP, 4000)
		if err != nil {
			panic(err)
		}
		s.Handler = func(sim.Addr, []byte) {}
		socks = append(socks, s)
	}
	far := x.Net.AddHost("far", "10.3.9.9")
	if l, err := far.ListenTCP(far.IP, 9); err == nil {
		l.Behave = 2
	}
	fs := nw.N.H.FS
	var anns int64 // fetches to come
	good, err := far.BindUDP(far.IP, 4000)
	if err != nil {
		panic(err)
	}
	good.Handler = func(sim.Addr, []byte) {}
	used := map[int64]bool{}
	// memory is looked at in the unshortened run only, which keeps the measure
	// away from its bound when a failure is minimised
	mem := !raceBuild && int64(len(x.P.Ops)) == x.n("all")
	for _, o := range x.P.Ops {
		used[o.a(0)] = true
		switch o.a(0) {
		case eFetch, eBad, eDiskErr, eAgain, eFar: // the simulated connections stay in memory
			mem = false
		}
	}
	same := x.NewTPeer("same", "10.3.8.8", 6000, metaOf(3000, 3), TBeh{Kind: pHonest, UT: 2, Seed: 9, Gap: ms})
	// look takes the footprint with what the peers remember left out
	look := func() footprint {
		x.Net.Conns = nil
		return nw.footprint(mem)
	}
	port := 20000
	event := func(i int, o Op) {
		if !nw.N.P.Alive() {
			return
		}
		r := sim.NewRand(uint64(o.a(1)))
		s := socks[r.Intn(len(socks))]
		from := s.Addr()
		ann := func(from sim.Addr, hash string, port int) {
			anns++
			x.Net.InjectClean(from, nw.N.Addr, query(fmt.Sprintf("e%d", i), "announce_peer",
				D{"id": "A123456789A123456789", "info_hash": hash, "port": int64(port), "token": "aa"}))
		}
		serve := func(b TBeh) {
			port++
			t := x.NewTPeerOn(s.Host(), port, metaOf(int64(1+r.Intn(3000)), o.a(1)), b)
			ann(from, t.Hash, port)
		}
		switch o.a(0) {
		case eQuery:
			d, _ := goodQuery(r, fmt.Sprintf("e%d", i))
			for q, _ := d.str("q"); q == "announce_peer"; q, _ = d.str("q") {
				d, _ = goodQuery(r, fmt.Sprintf("e%d", i))
			}
			x.Net.InjectClean(from, nw.N.Addr, []byte(benc(d)))
		case eJunk:
			b := genDatagram(r, i)
			for classify(b).q == "announce_peer" {
				b = genDatagram(r, i)
			}
			x.Net.InjectClean(from, nw.N.Addr, b)
		case eRefused:
			ann(from, id20(r), 9)
		case eFar:
			ann(sim.Addr{IP: far.IP, Port: 4000}, id20(r), 9)
		case eFetch, eDiskErr:
			if o.a(0) == eDiskErr {
				c := sim.FSCfg{Prefix: "/torrent"}
				switch r.Intn(5) {
				case 0:
					c.CreateErr = 1
				case 1:
					c.WriteErr = 1
				case 2:
					c.SyncErr = 1
				case 3:
					c.RenameErr = 1
				case 4:
					c.WriteErr, c.SyncErr = 0.5, 0.5
				}
				fs.Cfg = c
			}
			serve(TBeh{Kind: pHonest, UT: 1 + r.Intn(200), Flag: int(r.U64()) & fAll, Seed: o.a(1), Gap: ms})
		case eBad:
			serve(TBeh{Kind: 1 + r.Intn(pKinds-1), UT: 1 + r.Intn(200), Flag: int(r.U64()) & fAll, Seed: o.a(1), Gap: 10 * ms})
		case eAgain:
			ann(sim.Addr{IP: same.Addr.IP, Port: 4000}, same.Hash, same.Addr.Port)
		case eRecvErr:
			if s := nw.sock(); s != nil {
				s.FailReads(1)
			}
		case eSendErr:
			if s := nw.sock(); s != nil {
				s.FailSends(1)
			}
			x.Net.InjectClean(from, nw.N.Addr, query(fmt.Sprintf("e%d", i), "ping", D{"id": id20(r)}))
		case eAnswers:
			x.Net.InjectClean(from, nw.N.Addr, evil(r, r.Intn(nEvil), string(r.Bytes(4)), string(r.Bytes(26*3))))
		}
	}
	gap := atLeast(x.n("gapus"), 1) * us
	stretch := func(ops []Op, base int) bool {
		anns = 0
		t0 := x.W.Now()
		for i, o := range ops {
			i, o := i, o
			x.W.At(t0+int64(i)*gap, func() { event(base+i, o) })
		}
		x.W.WaitUntil(int64(len(ops))*gap+100*ms, 50*ms, func() bool { return !nw.N.P.Alive() })
		fs.Cfg = sim.FSCfg{}
		if s := nw.sock(); s != nil {
			s.FailSends(0)
			s.FailReads(0)
		}
		// long enough for every fetch to end and every wait of the node's
		nd, calm := len(x.Net.Dials), x.W.Now()
		limit := (anns/int64(cfg.FetchWP)+2)*(21*sec) + 30*sec
		x.W.WaitUntil(limit, 500*ms, func() bool {
			if !nw.N.P.Alive() {
				return true
			}
			if n := len(x.Net.Dials); n != nd {
				nd, calm = n, x.W.Now()
			}
			return x.W.Now()-calm > 45*sec
		})
		if x.n("long") == 1 {
			sim.Sleep(3600 * sec)
		}
		if c, bad := nw.N.crashed(); bad {
			x.Fail("P02", "crash", "%s", c)
			return false
		}
		return true
	}
	warm := int(x.n("warm"))
	if warm > len(x.P.Ops) {
		warm = len(x.P.Ops)
	}
	if !stretch(x.P.Ops[:warm], 0) {
		return
	}
	a := look()
	rest := x.P.Ops[warm:]
	half := len(rest) / 2
	if !stretch(rest[:half], warm) {
		return
	}
	h := look()
	if !stretch(rest[half:], warm+half) {
		return
	}
	b := look()
	x.Nontrivial = len(rest) > 20
	x.Count("events", int64(len(rest)))
	x.Count("goroutines_after", int64(b.gs))
	kinds := ""
	for _, k := range keys(used) {
		kinds += fmt.Sprintf(" %d", k)
	}
	// workers may have been started one by one
	if max := a.gs + cfg.Pool + cfg.FetchWP + 10; b.gs > max {
		x.Fail("P23", "goroutines", "after %d events (kinds%s) the node had %d goroutines, after %d more and a pause %d (%d and %d workers)", warm, kinds, a.gs, len(rest), b.gs, cfg.Pool, cfg.FetchWP)
	}
	if b.conns > 0 {
		x.Fail("P23", "connections", "%d connections are open after %d events (kinds%s) and a pause", b.conns, len(x.P.Ops), kinds)
	}
	if b.socks > a.socks+2 {
		x.Fail("P23", "sockets", "after %d events (kinds%s) the node had %d sockets, after %d more and a pause %d", warm, kinds, a.socks, len(rest), b.socks)
	}
	if b.files > a.files+8 {
		x.Fail("P23", "files", "after %d events (kinds%s) the node had %d open files, after %d more and a pause %d: %v", warm, kinds, a.files, len(rest), b.files, fs.OpenUnder("/"))
	}
	if mem && half > 0 {
		// what is set up once shows in one half only
		grew := h.heap - a.heap
		if g := b.heap - h.heap; g < grew {
			grew = g
		}
		per := grew / int64(half)
		x.Count("bytes_per_event", per)
		if grew > 96<<10+20*int64(half) {
			x.Fail("P23", "memory", "the memory in use grows with the traffic: of %d events (kinds%s) each leaves about %d bytes behind", len(rest), kinds, per/100*100)
		}
	}
	// and it works as before
	g := x.NewTPeer("good", "10.9.0.1", 6999, metaOf(20000, 77), TBeh{Kind: pHonest, UT: 3, Seed: 5, Gap: ms})
	gsrc := x.NewDPeerOn(g.H, 6998, "")
	gsrc.SendClean(nw.N.Addr, query("good", "announce_peer", D{"id": "A123456789A123456789", "info_hash": g.Hash, "port": int64(6999), "token": "aa"}))
	want := "/torrent/" + hex.EncodeToString([]byte(g.Hash)) + ".torrent"
	if !x.W.WaitUntil(60*sec, 50*ms, func() bool {
		_, has := fs.Peek(want)
		return has || !nw.N.P.Alive()
	}) {
		x.Fail("P02", "not-fetched", "after %d events (kinds%s) and a pause the metadata an honest peer announced was not stored within 60 s", len(x.P.Ops), kinds)
	}
	if !nw.ping(60 * sec) {
		if c, bad := nw.N.crashed(); bad {
			x.Fail("P02", "crash", "%s", c)
		} else {
			x.Fail("P02", "dead", "after %d events (kinds%s) and a pause the node does not answer pings", len(x.P.Ops), kinds)
		}
	}
}

func init() {
	register(&Scenario{Name: "endure", Props: []string{"P23", "P02", "P21"}, Gen: genEndure, Run: runEndure, Race: true, Hang: []string{"P23"},
		Rule: "more than 20 events were sent between the two looks at the node"})
}
