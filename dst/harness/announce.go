package harness

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"verif/dst/sim"
)

// ---- P07 (each announce is fetched once) and P11 (what is stored) ----

// An op "ann" is one announce: A = [host, udp port, mode, torrent seed, size,
// peer kind, ut, flags, announced port or 0].
//
// modes
const (
	mPlain    = iota // port of its own
	mZero            // implied_port = 0
	mImplied         // implied_port = 1
	mImplied9        // implied_port = 9
	mNeg             // implied_port = -1
	mModes
)

func annHost(i int64) string {
	if i%4 == 3 {
		return fmt.Sprintf("2001:db8::5:%d", i+1)
	}
	return fmt.Sprintf("10.5.0.%d", i+1)
}

func genAnnOps(r *sim.Rand, p *Plan, n int, honest float64) {
	span := r.Pick(1, 2000, 100000, 5000000)
	for i := 0; i < n; i++ {
		k, ut, fl := genBeh(r)
		if r.P(honest) {
			k = pHonest
		}
		mode := mPlain
		if r.P(0.5) {
			mode = r.Intn(mModes)
		}
		size := metaSize(r)
		if size > 70000 && r.P(0.7) {
			size = 3000
		}
		seed := int64(r.Intn(1 << 30))
		if r.P(0.15) && i > 0 { // the same torrent from another peer
			o := p.Ops[r.Intn(i)]
			seed, size = o.a(3), o.a(4)
		}
		port := int64(0)
		if r.P(0.2) && i > 0 { // announced again
			o := p.Ops[r.Intn(i)]
			o.At = int64(r.Intn(span))
			p.Ops = append(p.Ops, o)
			continue
		}
		if r.P(0.1) {
			port = int64(r.Pick(1, 80, 255, 256, 32767, 32768, 65535))
		} else if r.P(0.08) {
			// no port at all, which does not matter when the other one is meant
			port = []int64{-1, -6881, 65536, 65536 + 99, 70000, 1 << 31, 1<<32 + 99, 1<<40 + 80}[r.Intn(8)]
		}
		p.Ops = append(p.Ops, Op{K: "ann", At: int64(r.Intn(span)), A: []int64{int64(r.Intn(5)), int64(r.Intn(3)), int64(mode), seed, size, k, ut, fl, port}})
	}
}

func genAnnounce(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["tick"] = 100
	p.N["maxsteps"] = 60000000
	lvl := 0
	if r.P(0.4) {
		lvl = 1
	}
	genNet(r, p, lvl)
	delete(p.N, "recverr")
	if p.N["delay"] > 1000*us {
		p.N["delay"] = 1000 * us
	}
	if p.N["jitter"] > 5000*us {
		p.N["jitter"] = 5000 * us
	}
	p.N["pool"] = int64(1 + r.Intn(6))
	p.N["queue"] = int64(r.Pick(1, 1, 2, 8, 64))
	p.N["fw"] = int64(r.Pick(1, 2, 3, 8))
	if r.P(0.06) {
		// fetches that take long, one at a time, so that announces wait long
		p.N["fw"], p.N["queue"], p.N["pool"] = 1, int64(r.Pick(1, 1, 4)), int64(r.Pick(6, 12, 30))
		genAnnOps(r, p, 12+r.Intn(r.Pick(4, 30)), 0)
		for i := range p.Ops {
			if r.P(0.9) {
				p.Ops[i].A[5] = pBlackhole
			}
		}
		return
	}
	genAnnOps(r, p, 1+r.Intn(r.Pick(2, 6, 16, 30)), 0.4)
	lullAt(r, p, 0.04)
}

func genStore(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["tick"] = 100
	p.N["maxsteps"] = 60000000
	p.N["delay"] = int64(r.Pick(1, 50, 500)) * us
	p.N["jitter"] = int64(r.Pick(1, 50, 2000)) * us
	p.N["pool"] = int64(1 + r.Intn(4))
	p.N["queue"] = 64
	p.N["fw"] = int64(r.Pick(1, 2, 4))
	p.N["store"] = 1
	genAnnOps(r, p, 1+r.Intn(r.Pick(2, 5, 12)), 0.8)
	for i := range p.Ops {
		if r.P(0.8) {
			p.Ops[i].At /= 100
		}
	}
	switch r.Intn(4) {
	case 0: // disk errors
		p.N["fsprefix"] = int64(r.Intn(2))
		set := func(k string, pr float64) {
			if r.P(pr) {
				p.N[k] = int64(r.Pick(50, 200, 500, 1000))
			}
		}
		set("createerr", 0.4)
		set("writeerr", 0.5)
		set("syncerr", 0.4)
		set("renameerr", 0.4)
		if r.P(0.3) {
			p.N["capacity"] = int64(r.Pick(1, 100, 5000, 20000, 60000))
		}
		if r.P(0.08) {
			p.N["notdir"] = 1
		}
	case 1: // crash before the n-th operation on the disk
		p.N["crashop"] = int64(1 + r.Intn(r.Pick(6, 20, 60)))
		p.N["power"] = int64(r.Intn(2))
	case 2: // crash after the n-th operation on a stored file
		p.N["crashfile"] = int64(1 + r.Intn(r.Pick(4, 10, 30)))
		p.N["power"] = int64(r.Intn(2))
	}
	if r.P(0.3) {
		p.N["leftover"] = 1
	}
	if r.P(0.5) {
		p.N["tool"] = 1
	}
}

// isStored tells whether a name is that of a stored torrent.
func isStored(n string) (string, bool) {
	if len(n) != 48 || !strings.HasSuffix(n, ".torrent") {
		return "", false
	}
	b, err := hex.DecodeString(n[:40])
	if err != nil {
		return "", false
	}
	return string(b), true
}

// checkStored checks every stored file.
func (x *X) checkStored(fs *sim.FS, when string) (n int) {
	if x.losses != fs.Losses {
		// a new file's entry in the directory may be lost with the power
		x.losses, x.kept = fs.Losses, nil
	}
	seen := x.kept
	x.kept = nil
	defer func() {
		for _, f := range seen {
			if i := sort.SearchStrings(x.kept, f); i == len(x.kept) || x.kept[i] != f {
				x.Fail("P11", "gone", "%s, torrent/%s, which was stored, is not there any more", when, f)
			}
		}
	}()
	for _, f := range fs.ListDir("/torrent") {
		h, ok := isStored(f)
		if !ok {
			continue
		}
		n++
		x.kept = append(x.kept, f)
		b, ok := fs.Peek("/torrent/" + f)
		if !ok || sha(b) != h {
			x.Fail("P11", "incomplete-file", "%s, torrent/%s holds %d bytes that hash to %x", when, f, len(b), sha(b))
		}
	}
	return
}

type annTarget struct {
	addr  sim.Addr
	p     *TPeer
	meta  []byte
	ts    []string // transactions of its announces
	froms []sim.Addr
	kind  int
}

func runAnnounce(x *X) {
	store := x.n("store") == 1
	prop := "P07"
	if store {
		prop = "P11"
	}
	cfg := NodeCfg{Port: 21000, Pool: int(atLeast(x.n("pool"), 1)), QueueSize: int(atLeast(x.n("queue"), 1)), FetchWP: int(atLeast(x.n("fw"), 1))}
	nw := x.bootNode(cfg, "P02")
	if nw == nil {
		return
	}
	fs := nw.N.H.FS
	hosts := map[string]*sim.Host{}
	peers := map[sim.Addr]*DPeer{}
	targets := map[sim.Addr]*annTarget{}
	var order []*annTarget
	type planned struct {
		at   int64
		from *DPeer
		b    []byte
	}
	var sends []planned
	for i, o := range x.P.Ops {
		ip := annHost(o.a(0))
		h := hosts[ip]
		if h == nil {
			h = x.Net.AddHost("ann"+ip, ip)
			hosts[ip] = h
		}
		ua := sim.Addr{IP: h.IP, Port: 6001 + int(o.a(1))}
		d := peers[ua]
		if d == nil {
			d = x.NewDPeerOn(h, ua.Port, "")
			peers[ua] = d
		}
		mode := int(o.a(2)) % mModes
		implied := mode == mImplied || mode == mImplied9
		port := int(o.a(8))
		if port == 0 {
			// announcing the same thing again names the same port
			port = 20000 + int(uint64(o.a(3)*31+o.a(0)*7+o.a(1))%10000)
		}
		ta := sim.Addr{IP: h.IP, Port: port}
		if implied {
			ta.Port = ua.Port
		}
		tg := targets[ta]
		bad := ta.Port <= 0 || ta.Port > 65535
		if bad {
			tg = &annTarget{addr: ta, p: &TPeer{Hash: sha(metaOf(atLeast(o.a(4), 1), o.a(3)))}}
		}
		if tg == nil {
			beh := TBeh{Kind: int(o.a(5)), UT: int(o.a(6)), Flag: int(o.a(7)), Seed: o.a(3)}
			n := atLeast(o.a(4), 1)
			beh.Gap = 150 * ms / (3 + 4*(n/16384+1))
			tg = &annTarget{addr: ta, meta: metaOf(n, o.a(3)), kind: beh.Kind}
			tg.p = x.NewTPeerOn(h, ta.Port, tg.meta, beh)
			tg.p.HProp = "P07"
			targets[ta] = tg
			order = append(order, tg)
		}
		t := fmt.Sprintf("a%d", i)
		a := D{"id": "A123456789A123456789", "info_hash": tg.p.Hash, "port": int64(port), "token": "aa"}
		switch mode {
		case mZero:
			a["implied_port"] = int64(0)
		case mImplied:
			a["implied_port"] = int64(1)
		case mImplied9:
			a["implied_port"] = int64(9)
		case mNeg:
			a["implied_port"] = int64(-1)
		}
		tg.ts = append(tg.ts, t)
		tg.froms = append(tg.froms, ua)
		sends = append(sends, planned{o.At * us, d, query(t, "announce_peer", a)})
	}
	s0, r0, d0 := len(x.Net.Sent), len(x.Net.Rcvd), len(x.Net.Dials)
	// the disk
	fops := int64(0)
	crashed := func() bool { return !nw.N.P.Alive() && nw.N.P.How == "kill" }
	if store {
		fs.OnOp = func(kind, p string) {
			if !strings.HasPrefix(p, "/torrent") {
				return
			}
			x.checkStored(fs, "after "+kind+" of "+p)
			if strings.HasPrefix(p, "/torrent/") {
				fops++
				if fops == x.n("crashfile") {
					x.W.Faults.Add("crash_after_file_op", 1)
					x.W.Kill(nw.N.P, x.n("power") == 1)
				}
			}
		}
		if x.n("leftover") == 1 {
			// what an older version or an interrupted run may have left
			fs.Preload("/torrent/junk.tmp", []byte("junk"))
			if len(order) > 0 {
				n := hex.EncodeToString([]byte(order[0].p.Hash))
				fs.Preload("/torrent/"+n+".tmp", []byte("half"))
				if sha(order[0].meta) == order[0].p.Hash {
					fs.Preload("/torrent/"+n+".torrent", order[0].meta)
				}
			}
		}
		if x.n("notdir") == 1 && x.n("leftover") == 0 {
			fs.Preload("/torrent", []byte("a file"))
		}
		c := &fs.Cfg
		c.CreateErr, c.WriteErr = float64(x.n("createerr"))/1000, float64(x.n("writeerr"))/1000
		c.SyncErr, c.RenameErr = float64(x.n("syncerr"))/1000, float64(x.n("renameerr"))/1000
		if x.n("fsprefix") == 0 {
			c.Prefix = "/torrent"
		}
		if k := x.n("capacity"); k > 0 {
			used := int64(0)
			for _, f := range []string{"/conf/config.json", "/logs/infohash.log"} {
				b, _ := fs.Peek(f)
				used += int64(len(b))
			}
			c.Capacity = used + k
		}
		if k := x.n("crashop"); k > 0 {
			nw.N.P.CrashOp, nw.N.P.CrashPower = nw.N.P.FsOps+k, x.n("power") == 1
		}
	}
	t0 := x.W.Now()
	last := int64(0)
	for _, s := range sends {
		s := s
		if s.at > last {
			last = s.at
		}
		x.W.At(t0+s.at, func() { s.from.Send(nw.N.Addr, s.b) })
	}
	// wait until the announces are in, answered and fetched
	read := func() map[string]int { // by transaction
		m := map[string]int{}
		for _, p := range x.Net.Rcvd[r0:] {
			if e := classify(p.Data); (e.kind == "ok" || e.kind == "okerr") && e.q == "announce_peer" {
				m[e.t]++
			}
		}
		return m
	}
	answered := func(errs bool) map[string]int {
		m := map[string]int{}
		for _, p := range x.Net.Sent[s0:] {
			if d, ok := bdict(p.Data); ok {
				if y, _ := d.str("y"); y == "r" || y == "e" && errs {
					t, _ := d.str("t")
					m[t]++
				}
			}
		}
		return m
	}
	nAnn := func(m map[string]int, g *annTarget) (n int) {
		for _, t := range g.ts {
			n += m[t]
		}
		return
	}
	dials := func(g *annTarget) (out []sim.DialRec) {
		for _, r := range x.Net.Dials[d0:] {
			if r.To == g.addr.String() {
				out = append(out, r)
			}
		}
		return
	}
	over := func(r sim.DialRec) bool { return r.Res != "" && (r.End == nil || r.End.Closed) }
	idle := func() bool {
		if !nw.N.P.Alive() {
			return true
		}
		rd, an, re := read(), answered(false), answered(true)
		for _, g := range order {
			if nAnn(re, g) < nAnn(rd, g) {
				return false
			}
			ds := dials(g)
			if len(ds) < nAnn(an, g) {
				return false
			}
			for _, r := range ds {
				if !over(r) {
					return false
				}
			}
		}
		return true
	}
	sim.Sleep(last + 200*ms + 40*x.Net.Cfg.MinDelay + 8*x.Net.Cfg.Jitter)
	x.W.Pol.StallP = 0
	nAll, limit, ok := 0, int64(0), false
	for i := 0; i < 20; i++ {
		nAll = 0
		for _, n := range read() {
			nAll += n
		}
		limit = (int64(nAll)/int64(cfg.FetchWP)+2)*(20*sec+3*x.n("stallmax")+500*ms) + 10*sec
		ok = x.W.WaitUntil(limit, 20*ms, idle)
		sim.Sleep(500 * ms)
		// what was late is waited for
		if !ok || idle() {
			break
		}
	}
	if c, bad := nw.N.crashed(); bad && !crashed() {
		x.Fail("P02", "crash", "%s", c)
		return
	}
	died := crashed()
	rd, an, re := read(), answered(false), answered(true)
	fetched := 0
	if !died {
		for _, g := range order {
			n, k := nAnn(an, g), len(dials(g))
			fetched += k
			if k < n {
				x.Fail("P07", "not-fetched", "%d announces for %s were answered but %d fetches were attempted there within %d s", n, g.addr, k, limit/sec)
			}
			if k > n && nAnn(rd, g) == n {
				x.Fail("P07", "fetched-too-often", "%d announces for %s were answered but %d fetches were attempted there", n, g.addr, k)
			}
			if n := nAnn(re, g); n < nAnn(rd, g) {
				x.Fail("P01", "no-reply", "%d of %d announces for %s were answered within %d s", n, nAnn(rd, g), g.addr, limit/sec)
			}
		}
		if !ok && len(x.V) == 0 {
			x.Fail("P10", "fetch-does-not-end", "fetches are still under way %d s after %d announces", limit/sec, nAll)
		}
	}
	for _, r := range x.Net.Dials[d0:] {
		known := false
		for _, g := range order {
			known = known || r.To == g.addr.String()
		}
		if !known {
			x.Fail("P07", "wrong-address", "the node connected to %s, which nobody announced", r.To)
		}
	}
	// how many at once
	type edge struct {
		at int64
		d  int
	}
	var es []edge
	for _, r := range x.Net.Dials[d0:] {
		end := x.W.Now()
		if r.Res != "" && r.End == nil {
			end = r.Done
		} else if r.End != nil && r.End.Closed {
			end = r.End.ClosedAt
		}
		es = append(es, edge{r.At, 1}, edge{end, -1})
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at || es[i].at == es[j].at && es[i].d < es[j].d })
	cur, max := 0, 0
	for _, e := range es {
		cur += e.d
		if cur > max {
			max = cur
		}
	}
	if max > cfg.FetchWP {
		x.Fail("P07", "too-many-fetches", "%d fetches ran at once with %d workers", max, cfg.FetchWP)
	}
	x.Count("announces_read", int64(nAll))
	x.Count("fetch_attempts", int64(fetched))
	x.Nontrivial = nAll > 0
	// what is logged
	if x.n("capacity") == 0 && (x.n("fsprefix") == 0 || x.W.Faults.Get("fs_write_error") == 0 && x.W.Faults.Get("fs_open_error") == 0) && !(died && x.n("power") == 1) {
		x.checkAnnounceLog(fs, x.Net.Rcvd[r0:], x.Net.Sent[s0:], died)
	}
	// what is stored
	x.checkStored(fs, "at the end")
	clean := true
	for _, f := range []string{"fs_open_error", "fs_write_error", "fs_sync_error", "fs_rename_error", "disk_full"} {
		if x.W.Faults.Get(f) > 0 {
			clean = false
		}
	}
	if x.n("notdir") == 1 && x.n("leftover") == 0 {
		clean = false
	}
	slow := x.n("stall") > 0
	missing := func() *annTarget {
		for _, g := range order {
			if g.kind != pHonest || nAnn(an, g) == 0 {
				continue
			}
			if b, ok := fs.Peek("/torrent/" + hex.EncodeToString([]byte(g.p.Hash)) + ".torrent"); !ok || sha(b) != g.p.Hash {
				return g
			}
		}
		return nil
	}
	if !died && clean && !slow && ok {
		if g := missing(); g != nil {
			x.Fail("P11", "not-stored", "an honest peer at %s served %d bytes (%s), no disk error was reported, and torrent/%x.torrent is not there", g.addr, len(g.meta), g.p.B, g.p.Hash)
		}
	}
	if !store {
		if !nw.ping(30 * sec) {
			x.Fail("P02", "dead", "the node no longer answers pings")
		}
		return
	}
	stored := x.checkStored(fs, "at the end")
	x.Count("files_stored", int64(stored))
	if x.n("tool") == 1 {
		// the operator looks at what there is
		defer func() {
			if len(x.V) > 0 {
				return
			}
			x.calm()
			if nw.N.P != nil {
				x.W.Kill(nw.N.P, false)
			}
			fs.OnOp = nil
			x.listStored(nw.N.H, fs)
		}()
		if died {
			x.listStored(nw.N.H, fs)
		}
	}
	if !died {
		if o := fs.OpenUnder("/torrent"); len(o) > 0 {
			x.Fail("P11", "handle-open", "files are still open when the node is idle: %v", o)
		}
	}
	// once the disk works again the node stores what it is told about, after a
	// restart if it was killed
	x.quiet(func() {
		x.calm()
		fs.Cfg = sim.FSCfg{}
		fops = 1 << 40 // a crash that was not due so far never is
		nw.N.P.CrashOp = 0
		if x.n("notdir") == 1 && x.n("leftover") == 0 {
			if !nw.ping(30 * sec) {
				x.Fail("P11", "dead", "after disk errors the node no longer answers pings")
			}
			return
		}
		if died {
			x.Count("restarts", 1)
			nw.N.P = nil
			fs.OnOp = nil
			nw.LocalID = ""
			nw.N.Start()
			if !nw.N.waitUp(nw.Probe, 60*sec) {
				x.Fail(prop, "restart", "the node does not come up again after the crash; output:\n%s", nw.N.P.Out)
				return
			}
			x.checkStored(fs, "after the restart")
		}
		kept := map[string]bool{}
		var again []*annTarget
		an = map[string]int{}
		for i, g := range order {
			if g.kind != pHonest || kept[g.p.Hash] {
				continue
			}
			kept[g.p.Hash] = true
			again = append(again, g)
			t := fmt.Sprintf("z%d", i)
			g.ts = []string{t}
			an[t] = 1
			g.p.B.Flag &^= fSlow
			nw.Probe.SendClean(nw.N.Addr, query(t, "ping", D{"id": "A123456789A123456789"}))
			d := peers[g.froms[0]]
			a := D{"id": "A123456789A123456789", "info_hash": g.p.Hash, "port": int64(g.addr.Port), "token": "aa"}
			d.SendClean(nw.N.Addr, query(t, "announce_peer", a))
		}
		if !x.W.WaitUntil(60*sec, 20*ms, func() bool { return !nw.N.P.Alive() || missing() == nil }) || !nw.N.P.Alive() {
			if c, bad := nw.N.crashed(); bad {
				x.Fail("P02", "crash", "%s", c)
				return
			}
			g := missing()
			x.Fail("P11", "not-stored-later", "with the disk in order again an honest peer at %s was announced, and torrent/%x.torrent is not there", g.addr, g.p.Hash)
		}
		x.Count("refetched", int64(len(again)))
		x.checkStored(fs, "after the faults")
		sim.Sleep(500 * ms)
		if o := fs.OpenUnder("/torrent"); len(o) > 0 {
			x.Fail("P11", "handle-open", "files are still open when the node is idle: %v", o)
		}
	})
}

// checkAnnounceLog compares logs/infohash.log with the announces the node
// answered, whatever became of the torrents they name.
func (x *X) checkAnnounceLog(fs *sim.FS, rcvd, sent []sim.Pkt, killed bool) {
	rec := map[string]string{} // by transaction
	most := map[string]int{}
	vague := false
	for _, p := range rcvd {
		e := classify(p.Data)
		if e.kind == "any" {
			vague = true
		}
		if (e.kind != "ok" && e.kind != "okerr") || e.q != "announce_peer" {
			continue
		}
		r := ihRec{Msg: "announce_peer", Addr: p.From.String(), Hash: e.hash, Port: e.port, HasPort: e.hasP}.String()
		rec[e.t] = r
		most[r]++
	}
	least := map[string]int{}
	for _, p := range sent {
		if d, ok := bdict(p.Data); ok {
			if y, _ := d.str("y"); y == "r" {
				t, _ := d.str("t")
				if r, ok := rec[t]; ok {
					least[r]++
				}
			}
		}
	}
	recs, bad, tail := readInfoHashLog(fs)
	for _, l := range bad {
		x.Fail("P20", "bad-line", "logs/infohash.log holds a line that is not a record: %q", l)
	}
	if tail != "" && !killed {
		x.Fail("P20", "bad-line", "logs/infohash.log ends inside a line: %q", tail)
	}
	have := map[string]int{}
	for _, r := range recs {
		have[r.String()]++
	}
	for _, k := range keys(least) {
		if have[k] < least[k] {
			x.Fail("P20", "missing-record", "%d announces were answered but logs/infohash.log has %d records %q", least[k], have[k], k)
		}
	}
	for _, k := range keys(have) {
		if have[k] > most[k] && !vague {
			x.Fail("P20", "too-many-records", "logs/infohash.log has %d records %q and the node read %d such announces", have[k], k, most[k])
		}
	}
	x.Count("log_records_checked", int64(len(recs)))
}

func init() {
	register(&Scenario{Name: "announce", Props: []string{"P07", "P11", "P02", "P10", "P20", "P21"}, Gen: genAnnounce, Run: runAnnounce, Race: true, Hang: []string{"P07"},
		Rule: "the node read at least one announce_peer query"})
	register(&Scenario{Name: "store", Props: []string{"P11", "P02", "P20", "P22", "P21"}, Gen: genStore, Run: runAnnounce, Race: true, Hang: []string{"P11"},
		Rule: "the node read at least one announce_peer query, with or without disk faults and a crash"})
}
