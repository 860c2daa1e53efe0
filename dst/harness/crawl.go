package harness

import (
	"fmt"
	"math/bits"
	"net"

	"verif/dst/sim"
)

// ---- P06: the crawl ----

// An op "node" is one advertised DHT node: A = [common prefix length, seed,
// behaviour, answer delay in us, how many nodes it advertises, id twin].

const (
	cReply = iota
	cSilent
	cError       // error message that also carries nodes
	cLateSecond  // answers, and much later answers again with other nodes
	cTwoAnswers  // two different answers close together
	cUnsolicited // answers, and sends an answer nobody asked for
	cNoNodes
	cBadNodes
	cOddLen
	cDead
	cMany
	cHijack // error that carries an "r" with nodes, then the real answer
	cBehs
)

func genCrawl(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	lvl := 0
	if r.P(0.5) {
		lvl = 1
	}
	genNet(r, p, lvl)
	if r.P(0.3) {
		p.N["senderr"] = int64(r.Pick(20, 100, 300))
	}
	p.N["pool"] = int64(r.Pick(1, 2, 4, 16))
	p.N["boots"] = int64(1 + r.Intn(3))
	p.N["bseed"] = int64(r.Intn(1 << 20))
	if r.P(0.3) {
		p.N["hosts"] = int64(1 + r.Intn(4)) // nodes behind few addresses
	}
	n := 1 + r.Intn(r.Pick(3, 10, 30, 60))
	if r.P(0.02) {
		n = 100 + r.Intn(300)
	}
	p.N["odd"] = int64(r.Pick(0, 0, 1, 2, 3)) // 1: addresses, 2: ids
	late := r.P(0.08)
	style := r.Intn(5)
	quick := r.P(0.4)
	dense := r.Pick(2, 6, 12)
	for i := 0; i < n; i++ {
		plen := 0
		switch style {
		case 0: // as ids are in the wild
			for plen < 150 && r.P(0.5) {
				plen++
			}
		case 1:
			plen = r.Intn(2)
		case 2:
			plen = r.Intn(160)
		case 3:
			plen = r.Pick(0, 1, 2, 3, 7, 8, 9, 15, 16)
		case 4:
			plen = r.Pick(3, 3, 3, 40, 159, 158)
		}
		beh := cReply
		if r.P(0.45) {
			beh = r.Intn(cBehs)
		}
		d := 0
		if !quick {
			d = r.Intn(r.Pick(1, 2000, 50000))
		}
		if late && r.P(0.3) {
			d = r.Pick(1000000, 5000000, 16000000, 61000000, 600000000)
		}
		twin := 0
		if r.P(0.08) && i > 0 {
			twin = 1 + r.Intn(i)
		}
		adv := 1 + r.Intn(dense)
		if beh == cMany {
			adv = 28
		}
		p.Ops = append(p.Ops, Op{K: "node", A: []int64{int64(plen), int64(r.Intn(1 << 30)), int64(beh), int64(d), int64(adv), int64(twin)}})
	}
}

// idAt makes an id that shares exactly plen leading bits with base.
func idAt(base string, plen int, r *sim.Rand) string {
	b := r.Bytes(20)
	for i := 0; i < 160; i++ {
		m := byte(0x80 >> (i % 8))
		want := base[i/8] & m
		if i == plen {
			want ^= m
		}
		if i <= plen {
			b[i/8] = b[i/8]&^m | want
		}
	}
	return string(b)
}

// oddID is like idAt, with the bytes after the prefix all alike.
func oddID(base string, plen int, r *sim.Rand) string {
	b := []byte(idAt(base, plen, r))
	c := byte(r.Pick(0, 0xff, 'e', 'd', 'i', '1', ':', 0x80, int(base[19])))
	for i := plen/8 + 1; i < 20; i++ {
		b[i] = c
		if r.P(0.1) {
			b[i] = base[i]
		}
	}
	return string(b)
}

func prefixLen(a, b string) int {
	for i := 0; i < len(a); i++ {
		if x := a[i] ^ b[i]; x != 0 {
			return i*8 + bits.LeadingZeros8(x)
		}
	}
	return len(a) * 8
}

// crawlNode is a node somebody may advertise.
type crawlNode struct {
	id   string
	addr sim.Addr
	p    *DPeer
	beh  int
	seed int64
	d    int64
	adv  int
	n    int // queries it got
}

func runCrawl(x *X) {
	nb := int(atLeast(x.n("boots"), 1))
	cfg := NodeCfg{Port: 21000, Pool: int(atLeast(x.n("pool"), 1)), QueueSize: 8, FetchWP: 1}
	nw := &NW{x: x}
	nw.Probe = x.NewDPeer("probe", "10.0.2.1", 7000, "P123456789P123456789")
	var boots []*DPeer
	for i := 0; i < nb; i++ {
		b := x.NewDPeer(fmt.Sprintf("boot%d", i), fmt.Sprintf("10.0.1.%d", i+1), 6881+i, fmt.Sprintf("B%02d3456789B123456789", i))
		boots = append(boots, b)
		cfg.Bootstrap = append(cfg.Bootstrap, b.Addr.String())
	}
	nw.Boot = boots[0]
	nw.N = x.NewNodeHost(cfg)

	// the id is the node's own business: the harness learns it from the first
	// query and only then makes up a network around it
	var nodes []*crawlNode
	byAddr := map[sim.Addr]*crawlNode{}
	ghosts := 0
	// answers delivered are found in Net.Rcvd; what each advertised is parsed
	// from there
	ready := false
	mkGhost := func(r *sim.Rand) string {
		ghosts++
		a := sim.Addr{IP: sim.IP4(fmt.Sprintf("10.66.%d.%d", ghosts/250, 1+ghosts%250)), Port: 1000 + ghosts}
		return compactNode(idAt(nw.LocalID, r.Intn(8), r), a)
	}
	hosts := map[string]*sim.Host{}
	build := func() {
		ready = true
		for i, o := range x.P.Ops {
			r := sim.NewRand(uint64(o.a(1)))
			n := &crawlNode{addr: sim.Addr{IP: sim.IP4(fmt.Sprintf("10.1.%d.%d", i/200, 1+i%200)), Port: 2000 + i}, beh: int(o.a(2)), seed: o.a(1), d: o.a(3), adv: int(o.a(4))}
			if hs := x.n("hosts"); hs > 0 {
				n.addr.IP = sim.IP4(fmt.Sprintf("10.1.0.%d", 1+int64(i)%hs))
			}
			if x.n("odd")&1 != 0 && x.n("hosts") == 0 {
				// addresses and ports that are used, if rarely
				b := []byte{byte(r.Pick(1, 11, 46, 101, 192, 223, 100+r.Intn(20))), byte(r.Pick(0, 1, 168, 254, 255)), byte(r.Pick(0, 13, 10, 255, r.Intn(256))), byte(r.Pick(0, 1, 254, 255, r.Intn(256)))}
				a := sim.Addr{IP: string(b), Port: r.Pick(1, 53, 80, 255, 256, 1023, 1024, 2570, 6881, 21000, 25701, 32767, 32768, 65535, 1+r.Intn(65535))}
				if _, dup := byAddr[a]; !dup {
					n.addr = a
				}
			}
			n.id = idAt(nw.LocalID, int(o.a(0))%160, r)
			if x.n("odd")&2 != 0 {
				n.id = oddID(nw.LocalID, int(o.a(0))%160, r)
			}
			if t := int(o.a(5)); t > 0 && t <= i {
				n.id = nodes[t-1].id
			}
			nodes = append(nodes, n)
			byAddr[n.addr] = n
			if n.beh != cDead {
				if h := hosts[n.addr.IP]; h != nil {
					n.p = x.NewDPeerOn(h, n.addr.Port, n.id)
				} else {
					n.p = x.NewDPeer(fmt.Sprintf("n%d", i), netIP(n.addr.IP), n.addr.Port, n.id)
					hosts[n.addr.IP] = n.p.Host
				}
			}
		}
	}
	list := func(r *sim.Rand, k int, self *crawlNode) string {
		s := ""
		if r.P(0.12) || self.p == nil && r.P(0.25) {
			s = compactNode(self.id, self.addr) // as many a node does
		}
		if r.P(0.06) {
			b := boots[r.Intn(len(boots))]
			s += compactNode(b.ID, b.Addr)
		}
		if len(nodes) == 0 {
			return s
		}
		for ; k > 0; k-- {
			n := nodes[r.Intn(len(nodes))]
			s += compactNode(n.id, n.addr)
		}
		return s
	}
	answer := func(p *DPeer, n *crawlNode, b []byte) {
		t, q, _, ok := isQuery(b)
		if !ok || q != "find_node" {
			return
		}
		if !ready {
			_, _, a, _ := isQuery(b)
			nw.LocalID, _ = a.str("id")
			if len(nw.LocalID) != 20 {
				return
			}
			build()
		}
		// the node asks a known node again whenever it is advertised again: the
		// scripted network must not keep it going for ever
		n.n++
		r := sim.NewRand(uint64(n.seed)*7 + uint64(n.n))
		to := nw.N.Addr
		if n.n > 1+int(n.seed%3)/2 {
			if n.n%2 == 0 {
				p.Send(to, reply(t, D{"id": n.id, "nodes": ""}))
			}
			return
		}
		say := func(d int64, b []byte) { x.W.After(d, func() { p.Send(to, b) }) }
		ans := func(s string) []byte { return reply(t, D{"id": n.id, "nodes": s}) }
		switch n.beh {
		case cSilent, cDead:
		case cError:
			say(n.d*us, []byte(benc(D{"t": t, "y": "e", "e": L{int64(201), "no"}, "r": D{"id": n.id, "nodes": mkGhost(r)}, "nodes": mkGhost(r)})))
		case cHijack:
			say(n.d*us, []byte(benc(D{"t": t, "y": "e", "e": L{int64(201), "no"}, "r": D{"id": n.id, "nodes": mkGhost(r)}})))
			say(n.d*us+int64(r.Pick(0, 100, 20000))*us, ans(list(r, n.adv, n)))
		case cLateSecond:
			say(n.d*us, ans(list(r, n.adv, n)))
			b := ans(mkGhost(r) + mkGhost(r))
			say(n.d*us+4*sec, b)
			say(n.d*us+5*sec, b)
		case cTwoAnswers:
			say(n.d*us, ans(list(r, n.adv, n)+mkGhost(r)))
			say(n.d*us+int64(r.Pick(0, 1, 100, 5000))*us, ans(mkGhost(r)+list(r, 2, n)))
		case cUnsolicited:
			say(n.d*us, ans(list(r, n.adv, n)))
			u := []string{"zz", "", t + "0", "0" + t, "ffff", "\x00\x01"}[r.Intn(6)]
			say(int64(r.Intn(100))*ms, reply(u, D{"id": n.id, "nodes": mkGhost(r)}))
			say(int64(r.Intn(100))*ms, query("qq", "ping", D{"id": n.id, "nodes": mkGhost(r)}))
		case cNoNodes:
			say(n.d*us, reply(t, D{"id": n.id}))
		case cBadNodes:
			v := []interface{}{int64(5), L{mkGhost(r)}, D{"x": mkGhost(r)}}[r.Intn(3)]
			say(n.d*us, reply(t, D{"id": n.id, "nodes": v}))
		case cOddLen:
			s := list(r, n.adv, n)
			say(n.d*us, ans(s+mkGhost(r)[:1+r.Intn(25)]))
		default:
			say(n.d*us, ans(list(r, n.adv, n)))
		}
	}
	for i, b := range boots {
		b, n := b, &crawlNode{id: b.ID, addr: b.Addr, seed: int64(i) + 5 + x.n("bseed"), adv: 1 + len(x.P.Ops)/2}
		if n.adv > 30 {
			n.adv = 30
		}
		b.On = func(from sim.Addr, d []byte) { answer(b, n, d) }
	}
	hook := func() {
		for _, n := range nodes {
			if n.p != nil && n.p.On == nil {
				n := n
				n.p.On = func(from sim.Addr, d []byte) { answer(n.p, n, d) }
			}
		}
	}
	x.Net.Keep = true
	nw.watch()
	failed := 0
	inner := x.Net.OnSent
	x.Net.OnSent = func(p *sim.Pkt) {
		inner(p)
		hook()
		// a query whose send failed is forgotten: an answer to it is unsolicited
		if t, q, _, ok := isQuery(p.Data); ok && q == "find_node" && p.Err != "" && ready && failed < 5 {
			failed++
			d := reply(t, D{"id": "F123456789F123456789", "nodes": mkGhost(sim.NewRand(uint64(failed)))})
			x.W.After(3*sec, func() { nw.Probe.Send(nw.N.Addr, d) })
		}
	}
	se := x.Net.Cfg.SendErr
	x.Net.Cfg.SendErr = 0 // a bootstrap query that cannot be sent ends the start
	nw.N.Start()
	x.W.WaitUntil(20*sec, ms, func() bool { return len(nw.Asks) >= nb || !nw.N.P.Alive() })
	x.Net.Cfg.SendErr = se
	hook()
	if c, bad := nw.N.crashed(); bad {
		x.Fail("P02", "start-crash", "%s", c)
		return
	}
	step := 6*sec + 200*ms
	for _, o := range x.P.Ops {
		if s := o.a(3)*us + 200*ms; s > step {
			step = s // somebody answers late
		}
	}
	for i := 0; i < 40 && nw.N.P.Alive(); i++ {
		n := len(x.Net.Sent)
		m := len(x.Net.Rcvd)
		calm := x.W.Pol.StallP == 0 // from the start of this window on
		sim.Sleep(step)
		if i == 6 {
			x.W.Pol.StallP = 0
		}
		if n == len(x.Net.Sent) && m == len(x.Net.Rcvd) {
			if calm {
				break
			}
			x.W.Pol.StallP = 0
		}
	}
	if c, bad := nw.N.crashed(); bad {
		x.Fail("P02", "crash", "%s", c)
		return
	}
	if !ready {
		if len(nw.Asks) > 0 && len(nw.Asks[0].ID) != 20 {
			x.Fail("P06", "id", "the node's first query carries the id %x", nw.Asks[0].ID)
		}
		x.checkAsks(nw)
		return // the bootstrap query was lost
	}
	// what was asked
	x.checkAsks(nw)
	asked := map[sim.Addr]int{}
	tOf := map[string]ask{}
	for _, k := range nw.Asks {
		asked[k.To]++
		tOf[k.T] = k
	}
	for _, b := range boots {
		if asked[b.Addr] == 0 {
			x.Fail("P06", "bootstrap-not-asked", "the bootstrap node %s was never asked", b.Addr)
		}
	}
	// the responses the node read, by the query they answer
	type answerT struct {
		at    int64
		nodes map[sim.Addr]string
	}
	type cand struct {
		t    string
		as   []answerT
		seen map[string]bool
	}
	cs := map[string]*cand{}
	var order []*cand
	for _, p := range x.Net.Rcvd {
		if len(p.Data) > 1024 {
			continue
		}
		d, ok := bdict(p.Data)
		if !ok {
			continue
		}
		if y, _ := d.str("y"); y != "r" {
			continue
		}
		t, ok1 := d.str("t")
		rr, ok2 := d.dict("r")
		if !ok1 || !ok2 {
			continue
		}
		ns, ok := rr.str("nodes")
		if _, ok2 := rr.str("id"); !ok || !ok2 {
			continue
		}
		k, known := tOf[t]
		if !known || k.Err != "" || p.At < k.At {
			continue
		}
		c := cs[t]
		if c == nil {
			c = &cand{t: t, seen: map[string]bool{}}
			cs[t] = c
			order = append(order, c)
		}
		if c.seen[ns] {
			continue // a copy
		}
		c.seen[ns] = true
		if len(c.as) > 0 && p.At > c.as[0].at+3*sec && x.n("stall") == 0 {
			continue // by now the first one has been handled
		}
		m := map[sim.Addr]string{}
		for ; len(ns) >= 26; ns = ns[26:] {
			m[sim.Addr{IP: ns[20:24], Port: int(ns[24])<<8 | int(ns[25])}] = ns[:20]
		}
		c.as = append(c.as, answerT{p.At, m})
	}
	allowed := map[sim.Addr]string{}
	for _, c := range order {
		for _, a := range c.as {
			for ad, id := range a.nodes {
				allowed[ad] = id
			}
		}
	}
	isBoot := map[sim.Addr]bool{}
	for _, b := range boots {
		isBoot[b.Addr] = true
		asked[b.Addr]-- // not because somebody advertised it
	}
	for _, k := range nw.Asks {
		if _, ok := allowed[k.To]; !ok && !isBoot[k.To] {
			x.Fail("P06", "contacted-unadvertised", "the node asked %s, which no response to one of its queries advertised", k.To)
		}
		if k.Q != "find_node" {
			x.Fail("P06", "other-query", "the node sent a %s query to %s", k.Q, k.To)
		}
	}
	// accepted nodes per common prefix length
	acc := map[int]int{}
	for ad, id := range allowed {
		if asked[ad] > 0 {
			acc[prefixLen(id, nw.LocalID)]++
		}
	}
	for _, pl := range keys(acc) {
		n := acc[pl]
		if n > 8 {
			x.Fail("P06", "bucket-overflow", "the node asked %d advertised nodes whose ids share exactly %d bits with its own; a bucket holds 8", n, pl)
		}
	}
	left := 0
	for _, c := range order {
		// the node acts on exactly one of several different answers
		okOne, why := false, ""
		acted := 0
		for i, a := range c.as {
			w := ""
			own := false
			for _, ad := range keys(a.nodes) {
				id := a.nodes[ad]
				if asked[ad] == 0 {
					if pl := prefixLen(id, nw.LocalID); acc[pl] < 8 {
						w = fmt.Sprintf("node %x at %s, advertised in the response to t=%q, was never asked although only %d nodes with its prefix length %d were", id, ad, c.t, acc[pl], pl)
					} else {
						left++
					}
				} else if ad.IP[1] == 66 {
					only := true
					for j, b := range c.as {
						if _, both := b.nodes[ad]; both && j != i {
							only = false
						}
					}
					own = own || only
				}
			}
			if own {
				acted++
			}
			if w == "" {
				okOne = true
			} else if why == "" {
				why = w
			}
		}
		if acted > 1 {
			x.Fail("P06", "acted-twice", "the node acted on %d different responses to its query t=%q", acted, c.t)
		}
		if !okOne && why != "" {
			x.Fail("P06", "not-asked", "%s", why)
		}
	}
	x.Nontrivial = len(order) > 0
	x.Count("find_node_sent", int64(len(nw.Asks)))
	x.Count("responses_read", int64(len(order)))
	x.Count("left_out_full_bucket", int64(left))
	if !nw.ping(30 * sec) {
		x.Fail("P02", "dead", "the node no longer answers pings")
	}
}

// checkAsks checks every query the node sent on its own account.
func (x *X) checkAsks(nw *NW) {
	ts := map[string]bool{}
	for i, k := range nw.Asks {
		if len(k.ID) != 20 || k.ID != nw.LocalID {
			x.Fail("P06", "id", "query %d carries the id %x, the first one %x", i, k.ID, nw.LocalID)
		}
		if k.Q == "find_node" && k.Target != nw.LocalID {
			x.Fail("P06", "target", "query %d asks for %x, not for the node's own id", i, k.Target)
		}
		if k.T == "" {
			x.Fail("P06", "no-t", "query %d has no transaction id", i)
		}
		if ts[k.T] && i < 65536 {
			x.Fail("P04", "t-reused", "the transaction id %q was used for two of the node's first %d queries", k.T, i+1)
		}
		ts[k.T] = true
	}
}

func netIP(raw string) string { return net.IP(raw).String() }

func init() {
	register(&Scenario{Name: "crawl", Props: []string{"P06", "P04", "P02", "P21"}, Gen: genCrawl, Run: runCrawl, Race: true, Hang: []string{"P06"},
		Rule: "the node read at least one response that answers one of its queries"})
}
