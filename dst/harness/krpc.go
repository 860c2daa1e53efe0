package harness

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"verif/dst/sim"
)

// Queries against a real node: P01 (answered exactly once), P20 (the log of
// info hashes), under loss, duplication, delay, slow goroutines and kills.

// expectation of one datagram the node read.
type exp struct {
	kind string // "none", "ok", "err", "okerr" (either, but exactly one), "any" (none or one)
	q, t string
	hash string
	port int64
	hasP bool
}

// lenient finds the end of one value in the widest reading of bencode.
func lenient(s string, i, depth int) int {
	if i >= len(s) || depth > 1100 {
		return -1
	}
	switch c := s[i]; {
	case c == 'i':
		j := strings.IndexByte(s[i:], 'e')
		if j < 0 {
			return -1
		}
		return i + j + 1
	case c == 'l' || c == 'd':
		i++
		for {
			if i >= len(s) {
				return -1
			}
			if s[i] == 'e' {
				return i + 1
			}
			if i = lenient(s, i, depth+1); i < 0 {
				return -1
			}
		}
	case c >= '0' && c <= '9':
		j := strings.IndexByte(s[i:], ':')
		if j < 0 || j > 10 {
			return -1
		}
		n := 0
		for _, x := range []byte(s[i : i+j]) {
			if x < '0' || x > '9' {
				return -1
			}
			n = n*10 + int(x-'0')
		}
		if i+j+1+n > len(s) {
			return -1
		}
		return i + j + 1 + n
	}
	return -1
}

func classify(b []byte) exp {
	if len(b) > 1024 {
		return exp{kind: "any"}
	}
	d, strict := bdict(b)
	if !strict {
		if len(b) > 0 && b[0] == 'd' && lenient(string(b), 0, 0) > 0 {
			return exp{kind: "any"}
		}
		return exp{kind: "none"}
	}
	if y, ok := d.str("y"); !ok || y != "q" {
		return exp{kind: "none"}
	}
	t, ok := d.str("t")
	if !ok {
		return exp{kind: "none"}
	}
	q, ok := d.str("q")
	e := exp{q: q, t: t}
	if !ok {
		e.kind = "any"
		return e
	}
	switch q {
	case "ping", "find_node", "get_peers", "announce_peer":
	default:
		e.kind = "err"
		return e
	}
	a, ok := d.dict("a")
	if !ok {
		e.kind = "err"
		return e
	}
	if id, ok := a.str("id"); !ok || len(id) != 20 {
		e.kind = "err"
		return e
	}
	e.kind = "ok"
	switch q {
	case "find_node":
		if tg, ok := a.str("target"); !ok || len(tg) != 20 {
			e.kind = "okerr"
		}
	case "get_peers", "announce_peer":
		h, ok := a.str("info_hash")
		if !ok {
			e.kind = "err"
			return e
		}
		e.hash = hex.EncodeToString([]byte(h))
		if len(h) != 20 {
			e.kind = "okerr"
		}
		if q == "get_peers" {
			break
		}
		p, ok := a.num("port")
		if !ok {
			e.kind = "err"
			if _, imp := a["implied_port"]; imp {
				e.kind = "okerr"
			}
			return e
		}
		e.port, e.hasP = p, true
		if _, ok := a.str("token"); !ok {
			e.kind = "okerr"
		}
		if v, has := a["implied_port"]; has {
			if _, ok := v.(int64); !ok {
				e.kind = "okerr"
			}
		}
		if p <= 0 || p > 65535 {
			e.kind = "okerr"
		}
	}
	return e
}

// checkReply compares one reply with what the query asks for.
func checkReply(e exp, r rep, localIDs []string) string {
	y, _ := r.D.str("y")
	if y == "e" {
		if e.kind == "ok" {
			return "a well-formed query got an error reply"
		}
		l, ok := r.D.list("e")
		if !ok || len(l) < 2 {
			return "the error reply carries no [code, message] list"
		}
		c, ok1 := l[0].(int64)
		m, ok2 := l[1].(string)
		if !ok1 || !ok2 || c < 201 || c > 204 {
			return "the error reply is not [20x, message]"
		}
		if len(m) > 300+len(e.q) || strings.Contains(m, "goroutine ") || strings.Contains(m, ".go:") {
			return "the error message leaks internals"
		}
		return ""
	}
	if e.kind == "err" {
		return "an unacceptable query got a success reply"
	}
	b, ok := r.D.dict("r")
	if !ok {
		return "the reply has no r dictionary"
	}
	id, _ := b.str("id")
	if len(id) != 20 || id != localIDs[0] && id != localIDs[len(localIDs)-1] {
		return fmt.Sprintf("the reply's id is %q, the node's id is %q", id, localIDs)
	}
	nodes := func() string {
		if n, ok := b.str("nodes"); !ok || len(n)%26 != 0 {
			return "the reply has no compact node list"
		}
		return ""
	}
	switch e.q {
	case "find_node":
		return nodes()
	case "get_peers":
		if tk, ok := b.str("token"); !ok || tk == "" && e.t != "" {
			return "the get_peers reply has no token"
		}
		if _, ok := b.list("values"); !ok {
			return nodes()
		}
	}
	return ""
}

func genT(r *sim.Rand, i int) string {
	switch r.Intn(7) {
	case 6:
		if r.P(0.5) {
			return string(r.Bytes(r.Pick(0, 1, 2, 20, 32, 33, 64, 128, 200, 420, 600, 800)))
		}
		return fmt.Sprintf("%d:%s", i, strings.Repeat("t", r.Intn(220)))
	case 0:
		return string([]byte{byte(i >> 8), byte(i)})
	case 1:
		return fmt.Sprintf("%s%d", string(r.Bytes(1+r.Intn(12))), i)
	case 2:
		return fmt.Sprintf("q:%d:e", i)
	default:
		return fmt.Sprintf("%c%c%d", 'a'+r.Intn(26), 'a'+r.Intn(26), i)
	}
}

// bencAny encodes a dictionary with its keys in a random order.
func bencShuffled(r *sim.Rand, d D) string {
	var ks []string
	for _, k := range sortedKeys(d) {
		ks = append(ks, k)
	}
	for i := len(ks) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		ks[i], ks[j] = ks[j], ks[i]
	}
	s := "d"
	for _, k := range ks {
		s += benc(k)
		if sub, ok := d[k].(D); ok {
			s += bencShuffled(r, sub)
		} else {
			s += benc(d[k])
		}
	}
	return s + "e"
}

func genJunk(r *sim.Rand, depth int) interface{} {
	switch r.Intn(5) {
	case 0:
		return int(int64(r.U64()) >> uint(r.Intn(60)))
	case 1:
		if depth < 3 {
			l := L{}
			for i := r.Intn(4); i > 0; i-- {
				l = append(l, genJunk(r, depth+1))
			}
			return l
		}
	case 2:
		if depth < 3 {
			d := D{}
			for i := r.Intn(4); i > 0; i-- {
				d[fmt.Sprintf("k%d", r.Intn(9))] = genJunk(r, depth+1)
			}
			return d
		}
	}
	return string(r.Bytes(r.Intn(12)))
}

// ownID stands for the id of the node under test, which a query may carry too.
const ownID = "\x00own id of the node\x00"

// someID draws an id; some come back, and some are odd.
func someID(r *sim.Rand) string {
	if r.P(0.75) {
		return id20(r)
	}
	return []string{ownID, ownID, "mnopqrstuvwxyz123456", "abcdefghij0123456789", strings.Repeat("\x00", 20), strings.Repeat("\xff", 20), "d1:ad2:id20:eeeeeeee", "ABCDEFGHIJ0123456789"}[r.Intn(8)]
}

func goodQuery(r *sim.Rand, t string) (D, string) {
	q := []string{"ping", "find_node", "get_peers", "announce_peer"}[r.Intn(4)]
	a := D{"id": someID(r)}
	switch q {
	case "find_node":
		a["target"] = someID(r)
	case "get_peers":
		a["info_hash"] = someID(r)
	case "announce_peer":
		a["info_hash"] = someID(r)
		a["port"] = 1 + r.Intn(65535)
		a["token"] = string(r.Bytes(1 + r.Intn(6)))
		if r.P(0.4) {
			a["implied_port"] = r.Intn(2)
		}
	}
	return D{"t": t, "y": "q", "q": q, "a": a}, q
}

// genDatagram draws a datagram a remote node might send.
func genDatagram(r *sim.Rand, i int) []byte {
	t := genT(r, i)
	d, q := goodQuery(r, t)
	a := d["a"].(D)
	enc := func() []byte {
		if r.P(0.25) {
			d[[]string{"v", "ro", "ip", "zz", "A"}[r.Intn(5)]] = genJunk(r, 0)
		}
		if r.P(0.1) {
			a[[]string{"seed", "name", "want", "x"}[r.Intn(4)]] = genJunk(r, 0)
		}
		if r.P(0.3) {
			return []byte(bencShuffled(r, d))
		}
		return []byte(benc(d))
	}
	switch x := r.Intn(100); {
	case x < 55:
		return enc()
	case x < 78: // a query that cannot be served
		switch r.Intn(12) {
		case 0:
			d["q"] = []string{"vote", "", "get", "put", "pingping", "PING", "sample_infohashes", strings.Repeat("q", 1+r.Intn(700))}[r.Intn(8)]
		case 1:
			delete(d, "a")
		case 2:
			d["a"] = genJunk(r, 0)
			return []byte(benc(d))
		case 3:
			delete(a, "id")
		case 4:
			a["id"] = string(r.Bytes(r.Pick(0, 1, 19, 21, 40)))
		case 5:
			a["id"] = r.Intn(100)
		case 6:
			delete(a, "info_hash")
			delete(a, "target")
		case 7:
			a["info_hash"] = []interface{}{7, string(r.Bytes(19)), "", string(r.Bytes(64))}[r.Intn(4)]
		case 8:
			delete(a, "port")
		case 9:
			a["port"] = []interface{}{"6881", 0, -1, 70000, L{1}}[r.Intn(5)]
		case 10:
			delete(d, []string{"q", "t", "y"}[r.Intn(3)])
		case 11:
			d[[]string{"q", "t", "y"}[r.Intn(3)]] = genJunk(r, 0)
		}
		return enc()
	case x < 90: // not a message at all
		b := enc()
		switch r.Intn(8) {
		case 0:
			return b[:r.Intn(len(b))]
		case 1:
			for k := 1 + r.Intn(3); k > 0; k-- {
				b[r.Intn(len(b))] = byte(r.U64())
			}
			return b
		case 2:
			return r.Bytes(r.Intn(80))
		case 3:
			return []byte(strings.Repeat(string("dl"[r.Intn(2)]), 1+r.Intn(900)))
		case 4:
			return append(b, r.Bytes(1+r.Intn(10))...)
		case 5:
			return b[:len(b)-1-r.Intn(2)]
		case 6:
			k := r.Intn(len(b))
			return append(b[:k:k], b[k+r.Intn(len(b)-k):]...)
		default:
			return []byte([]string{"d", "de", "i1e", "le", "0:", "d1:y1:qe", "d1:t2:aa1:y1:q1:qi0", "d1:t", "d1:t9223372036854775807:",
				"d1:t99999999999999999999:ae", "i-", "d1:yi0", "5:abc", "d1:ti-5e1:y1:qe", "d1:ad2:idi0"}[r.Intn(15)])
		}
	case x < 97: // responses and errors out of nowhere
		if r.P(0.5) {
			return reply(t, D{"id": id20(r), "nodes": string(r.Bytes(26 * r.Intn(3)))})
		}
		return []byte(benc(D{"t": t, "y": "e", "e": L{201, "x"}}))
	default: // longer than the receive buffer
		if q == "ping" {
			a["pad"] = string(r.Bytes(r.Pick(900, 1000, 1100, 2000, 8000)))
		}
		return []byte(benc(d))
	}
}

func sortedKeys(d D) []string {
	ks := make([]string, 0, len(d))
	for k := range d {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

func genOpsTimes(r *sim.Rand, n int) []int64 {
	span := int64(r.Pick(0, 1000, 20000, 300000, 2000000))
	out := make([]int64, n)
	for i := range out {
		if span > 0 {
			out[i] = int64(r.Intn(int(span)))
		}
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func genKrpc(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	lvl := 0
	if r.P(0.6) {
		lvl = 1
	}
	genNet(r, p, lvl)
	if r.P(0.15) {
		p.N["rcvbuf"] = int64(r.Pick(1, 4, 16))
	}
	if r.P(0.12) {
		p.N["senderr"] = int64(r.Pick(20, 200))
	}
	p.N["peers"] = int64(1 + r.Intn(4))
	if r.P(0.5) {
		p.N["addrs"] = int64(1 + r.Intn(1<<20))
		if r.P(0.4) {
			p.N["addrs"] |= int64(r.Intn(32)) << 20
		}
	}
	p.N["pool"] = int64(1 + r.Intn(6))
	p.N["queue"] = int64(r.Pick(1, 2, 8, 64))
	p.N["fw"] = int64(1 + r.Intn(3))
	n := 1 + r.Intn(r.Pick(4, 12, 40, 80))
	at := genOpsTimes(r, n)
	for i := 0; i < n; i++ {
		o := Op{K: "udp", At: at[i], A: []int64{int64(r.Intn(4))}, B: genDatagram(r, i)}
		if r.P(0.08) && i > 0 { // the same datagram once more: one more query
			o = p.Ops[r.Intn(len(p.Ops))]
			o.At = at[i]
		}
		p.Ops = append(p.Ops, o)
	}
	if r.P(0.1) {
		// one remote asks the same kind of question again and again
		d, q := goodQuery(r, "")
		for q == "ping" {
			d, q = goodQuery(r, "")
		}
		b0 := int64(0)
		if n > 1 {
			b0 = at[r.Intn(n)]
		}
		step := int64(r.Pick(0, 10, 300, 3000))
		for i, m := 0, 100+r.Intn(400); i < m; i++ {
			d["t"] = fmt.Sprintf("B%d", i)
			if r.P(0.3) {
				a := d["a"].(D)
				a["id"] = id20(r)
			}
			p.Ops = append(p.Ops, Op{K: "udp", At: b0 + int64(i)*step, A: []int64{int64(r.Intn(4))}, B: []byte(benc(d))})
		}
		sortOps(p.Ops)
		if n = len(p.Ops); p.Ops[n-1].At > at[len(at)-1] {
			at = append(at, p.Ops[n-1].At)
		}
		delete(p.N, "rcvbuf")
		n = len(at)
	}
	if lullAt(r, p, 0.04) == 0 && r.P(0.25) {
		p.N["kill"] = 1 + int64(r.Intn(1000))*(at[n-1]+20000)/1000
		if r.P(0.6) {
			p.N["again"] = 1 // and started again
		}
	}
	if r.P(0.35) {
		// the log of earlier runs
		p.N["log"] = int64(r.Pick(1, 2, 20, 1000, 9000))
		if r.P(0.1) {
			p.N["log"] = 80000
		}
		if r.P(0.4) {
			// ... the last of which was killed in the middle of a record
			p.N["torn"] = int64(1 + r.Intn(100))
		}
	}
}

// earlierLog makes a log as earlier runs of the node leave it.
func earlierLog(n int64) []byte {
	var b []byte
	r := sim.NewRand(uint64(n))
	for i := int64(0); i < n; i++ {
		b = append(b, fmt.Sprintf(`{"level":"info","ts":%d.%03d,"msg":"get_peer","addr":"10.8.0.%d:%d","infoHash":"%x"}`+"\n", 1600000000+i, i%1000, 1+i%200, 1024+i%50000, r.Bytes(20))...)
	}
	return b
}

// own puts the node's own id in its place.
func (nw *NW) own(b []byte) []byte {
	if len(nw.LocalID) != len(ownID) || !bytes.Contains(b, []byte(ownID)) {
		return b
	}
	return bytes.ReplaceAll(b, []byte(ownID), []byte(nw.LocalID))
}

func runKrpc(x *X) {
	old := earlierLog(x.n("log"))
	x.prepFS = func(fs *sim.FS) {
		if len(old) > 0 {
			fs.PreloadDir("/logs")
			var torn []byte
			if k := x.n("torn"); k > 0 {
				torn = earlierLog(1)
				if int64(len(torn)) > k {
					torn = torn[:k]
				}
				torn = bytes.TrimSuffix(torn, []byte("\n"))
			}
			fs.Preload("/logs/infohash.log", append(old[:len(old):len(old)], torn...))
		}
	}
	nw := x.bootNode(NodeCfg{Port: 21000, Pool: int(x.n("pool")) + b2i(x.n("pool") == 0), QueueSize: int(x.n("queue")) + b2i(x.n("queue") == 0), FetchWP: int(x.n("fw")) + b2i(x.n("fw") == 0)}, "P02")
	if nw == nil {
		return
	}
	var peers []*DPeer
	for i := int64(0); i <= x.n("peers"); i++ {
		ip := fmt.Sprintf("10.0.3.%d", i+1)
		if i == 3 {
			ip = "2001:db8::7"
		}
		if x.n("addrs")>>(20+i)&1 == 1 {
			ip = []string{"1.0.0.1", "223.255.255.255", "192.168.0.0", "2a02:6b8:ffff:ffff:ffff:ffff:ffff:ffff", "100.64.0.1"}[i%5]
		}
		port := int(4000 + i)
		if x.n("addrs") > 0 {
			// any source port, and several sources on one machine
			k := x.n("addrs") >> (4 * i)
			port = []int{4000, 53, 1, 65535, 1023, 80, 21000, 32768}[k&7]
			if k&8 != 0 && len(peers) > 0 {
				h := peers[len(peers)-1].Host
				for h.UDP(port) != nil {
					port = 5000 + int(i)
				}
				peers = append(peers, x.NewDPeerOn(h, port, ""))
				continue
			}
		}
		peers = append(peers, x.NewDPeer(fmt.Sprintf("p%d", i), ip, port, ""))
	}
	s0, r0 := len(x.Net.Sent), len(x.Net.Rcvd)
	t0 := x.W.Now()
	for _, o := range x.P.Ops {
		o := o
		x.W.At(t0+o.At*us, func() { peers[int(o.a(0))%len(peers)].Send(nw.N.Addr, nw.own(o.B)) })
	}
	killed := false
	if k := x.n("kill"); k > 0 {
		sim.Sleep(t0 + k*us - x.W.Now())
		if nw.N.P.Alive() {
			x.W.Kill(nw.N.P, false)
			killed = true
		}
	}
	again, localIDs := int64(0), []string{nw.LocalID}
	if killed && x.n("again") == 1 {
		nw.LocalID = ""
		again = x.W.Now()
		if !nw.up("P02") {
			return
		}
		killed = false
		localIDs = append(localIDs, nw.LocalID)
		x.Count("restarts", 1)
	}
	span := int64(0)
	if len(x.P.Ops) > 0 {
		span = x.P.Ops[len(x.P.Ops)-1].At * us
	}
	if d := t0 + span - x.W.Now(); d > 0 {
		sim.Sleep(d)
	}
	type group struct {
		from       sim.Addr
		t          string
		must, may  int
		ok         []exp
		n          int
		first, raw []byte
	}
	var gs []*group
	build := func() {
		gs = nil
		idx := map[string]*group{}
		for _, p := range x.Net.Rcvd[r0:] {
			if p.From == nw.Probe.Addr || p.From == nw.Boot.Addr {
				continue
			}
			e := classify(p.Data)
			if e.kind == "none" {
				continue
			}
			if e.kind == "any" && e.t == "" {
				// the transaction id is whatever a lenient reader makes of it
				if d, _, err := bdec(string(p.Data)); err == nil {
					if dd, ok := d.(D); ok {
						e.t, _ = dd.str("t")
					}
				}
			}
			k := p.From.String() + "/" + e.t
			g := idx[k]
			if g == nil {
				g = &group{from: p.From, t: e.t, raw: p.Data}
				idx[k] = g
				gs = append(gs, g)
			}
			switch {
			case e.kind == "any", p.At < again: // the kill may have come first
				g.may++
			default:
				g.must++
			}
			g.ok = append(g.ok, e)
		}
	}
	count := func(g *group, rs []rep) int {
		n := 0
		for _, r := range rs {
			if r.To == g.from && r.T == g.t {
				n++
			}
		}
		return n
	}
	if !killed {
		x.W.Pol.StallP = 0
		// everything sent has arrived and everything read has been answered
		nw.settle(120*sec, func() bool {
			build()
			rs, _ := nw.replies(s0)
			for _, g := range gs {
				if count(g, rs) < g.must {
					return false
				}
			}
			return true
		})
	}
	build()
	if c, bad := nw.N.crashed(); bad && !killed {
		x.Fail("P02", "crash", "%s", c)
		return
	}
	rs, bad := nw.replies(s0)
	for _, b := range bad {
		x.Fail("P01", "malformed-output", "the node sent a datagram that is not a KRPC message: %s to %s", clip(b.Data), b.To)
	}
	replied := 0
	for _, g := range gs {
		n := count(g, rs)
		g.n = n
		replied += n
		if n > g.must+g.may {
			x.Fail("P01", "too-many-replies", "%d replies to %d copies of a query from %s with t=%q: %s", n, g.must+g.may, g.from, g.t, clip(g.raw))
		}
		if n < g.must && !killed {
			x.Fail("P01", "no-reply", "%d replies to %d copies of a query from %s with t=%q: %s", n, g.must, g.from, g.t, clip(g.raw))
		}
	}
	for _, r := range rs {
		if r.To == nw.Probe.Addr || r.To == nw.Boot.Addr {
			continue
		}
		found, why, vague := false, "", false
		for _, g := range gs {
			if g.from == r.To && g.t == r.T {
				found = true
				why = "?"
				for _, e := range g.ok {
					if e.kind == "any" {
						vague = true
					}
					w := checkReply(e, r, localIDs)
					if w == "" {
						why = ""
						break
					}
					why = w
				}
				if why != "" && !vague {
					x.Fail("P01", "bad-reply:"+why, "%s; query %s, reply %s", why, clip(g.raw), clip(r.Raw))
				}
			}
		}
		if !found {
			// a lenient reading of a broken datagram may have produced another t
			any := false
			for _, p := range x.Net.Rcvd[r0:] {
				if p.From == r.To && classify(p.Data).kind == "any" {
					any = true
				}
			}
			if !any {
				x.Fail("P01", "unasked-reply", "the node sent %s to %s, which never sent a query with that transaction id", clip(r.Raw), r.To)
			}
		}
	}
	if replied > 0 {
		x.Nontrivial = true
	}
	if old != nil {
		if b, _ := nw.N.H.FS.Peek("/logs/infohash.log"); !bytes.HasPrefix(b, old) {
			x.Fail("P20", "earlier-records", "logs/infohash.log had %d records (%d bytes) when the node started, and they are not there any more (%d bytes now, files %v)", x.n("log"), len(old), len(b), nw.N.H.FS.ListDir("/logs"))
			return
		}
	}
	x.Count("queries_read", int64(len(x.Net.Rcvd)-r0))
	x.Count("replies", int64(replied))
	if killed {
		x.Count("killed_runs", 1)
	}
	// the log
	recs, badl, tl := readInfoHashLogFrom(nw.N.H.FS, len(old))
	for _, l := range badl {
		x.Fail("P20", "bad-line", "logs/infohash.log holds a line that is not a record: %q", l)
	}
	if tl != "" && !killed && !(len(recs) == 0 && x.n("torn") > 0) {
		x.Fail("P20", "bad-line", "logs/infohash.log ends inside a line: %q", tl)
	}
	have := map[string]int{}
	for _, r := range recs {
		have[r.String()]++
	}
	want, maxw := map[string]int{}, map[string]int{}
	for _, g := range gs {
		left := g.n
		oks, kinds := 0, map[string]bool{}
		for _, e := range g.ok {
			oks += b2i(e.kind == "ok" || e.kind == "okerr")
			kinds[fmt.Sprint(e.q, e.hash, e.port)] = true
		}
		if left < oks && len(kinds) > 1 {
			left = 0 // a kill left some unanswered, and one cannot tell which
		}
		for _, e := range g.ok {
			if e.q != "get_peers" && e.q != "announce_peer" {
				continue
			}
			r := ihRec{Msg: map[string]string{"get_peers": "get_peer", "announce_peer": "announce_peer"}[e.q], Addr: g.from.String(), Hash: e.hash, Port: e.port, HasPort: e.hasP}
			maxw[r.String()]++
			if e.kind == "ok" && left > 0 {
				left--
				want[r.String()]++
			}
		}
	}
	for _, k := range keys(want) {
		n := want[k]
		if have[k] < n {
			x.Fail("P20", "missing-record", "%d queries were answered but logs/infohash.log has %d records %q", n, have[k], k)
		}
	}
	vagueFrom := map[string]bool{}
	for _, p := range x.Net.Rcvd[r0:] {
		if classify(p.Data).kind == "any" {
			vagueFrom[p.From.String()] = true // may have been read as a query this harness does not see in it
		}
	}
	seen := map[string]int{}
	for _, r := range recs {
		if !vagueFrom[r.Addr] {
			seen[r.String()]++
		}
	}
	for _, k := range keys(seen) {
		n := seen[k]
		if n > maxw[k] {
			x.Fail("P20", "extra-record", "logs/infohash.log has %d records %q for %d queries read", n, k, maxw[k])
		}
	}
	x.Count("log_records", int64(len(recs)))
	if !killed {
		if !nw.ping(30 * sec) {
			x.Fail("P02", "dead", "the node no longer answers pings")
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	register(&Scenario{Name: "krpc", Props: []string{"P01", "P20", "P02", "P21"}, Gen: genKrpc, Run: runKrpc, Race: true,
		Rule: "the node answered at least one query", Keep: map[string]bool{"pool": true, "queue": true, "fw": true}})
}
