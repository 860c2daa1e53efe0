package harness

import (
	"fmt"
	"math/bits"
	"net"

	"github.com/GalaIO/P2Pcrawler/dht"

	"verif/dst/sim"
)

// ---- P05: the routing table ----

func genRTable(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["k"] = int64(r.Pick(1, 1, 2, 3, 8))
	p.N["cap"] = int64(r.Pick(1, 2, 3, 5, 8, 20, 160))
	p.N["clients"] = int64(r.Pick(1, 2, 2, 3, 4))
	n := 4 + r.Intn(r.Pick(10, 20, 36))
	if p.N["clients"] == 1 {
		n = 4 + r.Intn(r.Pick(20, 100, 400))
	}
	maxp := r.Pick(2, 4, 10, 160)
	var made []int64
	ids := 0
	for i := 0; i < n; i++ {
		// a node is (prefix length, discriminator, port)
		pl, disc, port := int64(r.Intn(maxp+1)), int64(r.Intn(200)), int64(1+r.Intn(2))
		if r.P(0.5) {
			pl = int64(r.Intn(3))
		}
		if len(made) > 0 && r.P(0.25) {
			k := r.Intn(len(made) / 3)
			pl, disc, port = made[3*k], made[3*k+1], made[3*k+2]
			if r.P(0.3) {
				port = 3 - port
			}
		}
		ids++
		kind := "add"
		switch r.Intn(10) {
		case 0:
			kind = "find"
		case 1, 3:
			kind = "closest"
		case 2:
			kind = "size"
		}
		made = append(made, pl, disc, port)
		p.Ops = append(p.Ops, Op{K: kind, A: []int64{int64(r.Intn(8)), pl, disc, port, int64(r.Pick(0, 1, 3, 8, 50))}})
	}
	genLull(r, p)
}

const rtHost = "H\x00\xff23456789abcdef\xfe\x80Q"

// rtID makes an id that shares exactly pl bits with the host's.
func rtID(pl, disc int64) string {
	b := []byte(rtHost)
	if pl >= 160 {
		return rtHost
	}
	if pl < 0 {
		pl = 0
	}
	b[pl/8] ^= 0x80 >> uint(pl%8)
	// vary the bits after the first difference
	v := uint64(disc+1) * 0x9e3779b97f4a7c15
	for bit := pl + 1; bit < 160 && bit < pl+9; bit++ {
		if disc>>(uint(bit-pl-1))&1 == 1 {
			b[bit/8] ^= 0x80 >> uint(bit%8)
		}
	}
	if pl+9 < 160 {
		for i := (pl+9)/8 + 1; i < 20; i++ {
			b[i] ^= byte(v >> uint(8*(i%8)))
		}
	}
	return string(b)
}

func rtPrefix(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if v := a[i] ^ b[i]; v != 0 {
			return i*8 + bits.LeadingZeros8(v)
		}
	}
	return 160
}

type rtOp struct {
	kind string
	node int // index of the candidate
	id   string
	ok   bool
	size int
	got  []int // candidates returned, -1 unknown, 0 host
}

func runRTable(x *X) {
	a := x.newAPI("dht", NodeCfg{Port: 21000, Pool: 1, QueueSize: 1, FetchWP: 1})
	k, capa := int(atLeast(x.n("k"), 1)), int(atLeast(x.n("cap"), 1))
	hostAddr := "1.2.3.4:5"
	host := dht.NewNodeInfo(rtHost, &net.UDPAddr{IP: net.IP{1, 2, 3, 4}, Port: 5})
	type cand struct {
		id, addr string
		pl       int
		n        *dht.NodeInfo
	}
	cands := []cand{{rtHost, hostAddr, 160, host}}
	index := map[string]int{rtHost + hostAddr: 0}
	get := func(o Op) int {
		id := rtID(o.a(1), o.a(2))
		ad := &net.UDPAddr{IP: net.IP{10, 9, byte(o.a(2)), byte(o.a(1))}, Port: int(o.a(3))}
		key := id + ad.String()
		if i, ok := index[key]; ok {
			return i
		}
		cands = append(cands, cand{id, ad.String(), rtPrefix(id, rtHost), dht.NewNodeInfo(id, ad)})
		index[key] = len(cands) - 1
		return len(cands) - 1
	}
	for _, o := range x.P.Ops {
		get(o)
	}
	var t *dht.RouteTable
	mk := x.W.GoClient(a.P, "mk", func() { t = dht.NewRouteTable(host, k, capa) })
	x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() })
	ident := func(n *dht.NodeInfo) int {
		if n == nil || n.Addr == nil {
			return -1
		}
		if i, ok := index[n.Id+n.Addr.String()]; ok {
			return i
		}
		return -1
	}
	var hist []lop
	type kept struct{ was, is []*dht.NodeInfo }
	var held []kept
	nc := int(atLeast(x.n("clients"), 1))
	for _, ops := range splitOps(x.P.Ops, nc) {
		ops := ops
		a.Go("client", func() {
			for _, o := range ops {
				a.lull()
				i := get(o)
				in := &rtOp{kind: o.K, node: i, id: cands[i].id}
				l := lop{Call: a.tick(), In: in}
				switch o.K {
				case "add":
					// every caller has a node of its own
					c := cands[i]
					ad := *c.n.Addr
					in.ok = t.AddNode(dht.NewNodeInfo(c.id, &ad)) == nil
					l.Desc = fmt.Sprintf("add(#%d p=%d)=%v", i, c.pl, in.ok)
				case "find":
					n := t.Find(in.id)
					if n != nil {
						in.ok = true
						in.got = []int{ident(n)}
					}
					l.Desc = fmt.Sprintf("find(#%d p=%d)=%v", i, cands[i].pl, in.got)
				case "closest":
					ns := t.FindClosest(in.id, int(o.a(4)))
					for _, n := range ns {
						in.got = append(in.got, ident(n))
					}
					held = append(held, kept{append([]*dht.NodeInfo(nil), ns...), ns})
					l.Desc = fmt.Sprintf("closest(#%d p=%d,%d)=%v", i, cands[i].pl, o.a(4), in.got)
				case "size":
					in.size = t.Size()
					l.Desc = fmt.Sprintf("size=%d", in.size)
				}
				l.Ret = a.tick()
				hist = append(hist, l)
			}
		})
	}
	done := a.wait(60 * sec)
	if a.died("P05") {
		return
	}
	if !done {
		x.Fail("P05", "stuck", "operations on the table do not return:%s", a.stuck())
		return
	}
	// what everybody agrees on in the end
	fin := a.Go("final", func() {
		for i := range cands {
			in := &rtOp{kind: "find", node: i, id: cands[i].id}
			l := lop{Call: a.tick(), In: in}
			if n := t.Find(in.id); n != nil {
				in.ok, in.got = true, []int{ident(n)}
			}
			l.Ret = a.tick()
			l.Desc = fmt.Sprintf("find(#%d p=%d)=%v", i, cands[i].pl, in.got)
			hist = append(hist, l)
			in2 := &rtOp{kind: "closest", node: i, id: cands[i].id}
			l2 := lop{Call: a.tick(), In: in2}
			for _, n := range t.FindClosest(in.id, 1000) {
				in2.got = append(in2.got, ident(n))
			}
			l2.Ret = a.tick()
			l2.Desc = fmt.Sprintf("closest(#%d p=%d,1000)=%v", i, cands[i].pl, in2.got)
			hist = append(hist, l2)
		}
		in := &rtOp{kind: "size"}
		l := lop{Call: a.tick(), In: in}
		in.size = t.Size()
		l.Ret = a.tick()
		l.Desc = fmt.Sprintf("size=%d", in.size)
		hist = append(hist, l)
	})
	x.W.WaitUntil(60*sec, ms, func() bool { return fin.Dead() || !a.P.Alive() })
	if a.died("P05") {
		return
	}
	for _, h := range held {
		for i, n := range h.was {
			if h.is[i] != n {
				x.Fail("P05", "changed-later", "the result of a closest-nodes lookup changed after it was returned: node %d of %d was %s and is %s", i, len(h.was), n.Addr, h.is[i].Addr)
				break
			}
		}
	}
	has := func(s string, i int) bool { return s[i/8]&(1<<(i%8)) != 0 }
	zero := make([]byte, (len(cands)+7)/8)
	zero[0] |= 1 // the host
	count := func(s string, f func(c *cand) bool) (n int) {
		for i := range cands {
			if has(s, i) && f(&cands[i]) {
				n++
			}
		}
		return
	}
	why := ""
	step := func(st interface{}, o *lop) (interface{}, bool) {
		s := st.(string)
		in := o.In.(*rtOp)
		switch in.kind {
		case "add":
			if has(s, in.node) {
				return s, true // a known node: whatever it says, nothing changes
			}
			p := cands[in.node].pl
			room := true
			if p < capa {
				room = count(s, func(c *cand) bool { return c.pl == p }) < k
			} else {
				room = count(s, func(c *cand) bool { return c.pl >= capa }) < k
			}
			if room != in.ok {
				why = "an addition was decided wrongly"
				return s, false
			}
			if !room {
				return s, true
			}
			b := []byte(s)
			b[in.node/8] |= 1 << (in.node % 8)
			return string(b), true
		case "find":
			any := count(s, func(c *cand) bool { return c.id == in.id }) > 0
			if any != in.ok {
				why = "an exact lookup missed an accepted node or found another"
				return s, false
			}
			if in.ok && (in.got[0] < 0 || !has(s, in.got[0]) || cands[in.got[0]].id != in.id) {
				why = "an exact lookup returned a node that was not accepted or has another id"
				return s, false
			}
			return s, true
		case "closest":
			self := false
			for i, g := range in.got {
				if g < 0 || !has(s, g) {
					why = "a closest-nodes lookup returned a node that was never accepted"
					return s, false
				}
				for _, h := range in.got[:i] {
					if g == h {
						why = "a closest-nodes lookup returned a node twice"
						return s, false
					}
				}
				if cands[g].id == in.id {
					self = true
				}
			}
			if !self && count(s, func(c *cand) bool { return c.id == in.id }) > 0 {
				why = "a closest-nodes lookup left out the id itself"
				return s, false
			}
			return s, true
		case "size":
			n := 0
			for i := 0; i < len(s); i++ {
				n += bits.OnesCount8(s[i])
			}
			if n != in.size {
				why = "the size is not the host plus the accepted nodes"
			}
			return s, n == in.size
		}
		return s, true
	}
	ok, gave := linearizable(hist, string(zero), step)
	if gave {
		x.Count("search_gave_up", 1)
	}
	if !ok {
		x.Fail("P05", "not-linearizable", "k=%d capacity=%d: no sequential order explains the history (last obstacle: %s): %s", k, capa, why, histString(hist))
	}
	adds := 0
	for _, l := range hist {
		if in := l.In.(*rtOp); in.kind == "add" && in.ok {
			adds++
		}
	}
	x.Nontrivial = adds > 1
	x.Count("nodes_accepted", int64(adds))
	x.Count("table_operations", int64(len(hist)))
}

func init() {
	register(&Scenario{Name: "rtable", Props: []string{"P05", "P21"}, Gen: genRTable, Run: runRTable, Race: true,
		Rule: "at least two nodes were accepted", Keep: map[string]bool{"k": true, "cap": true, "clients": true}})
}
