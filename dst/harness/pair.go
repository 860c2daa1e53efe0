package harness

import (
	"encoding/binary"
	"fmt"
	"math"
	"net"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"

	"verif/dst/sim"
)

// The scenario pair: two RPC servers ask each other; what one application says
// the other hears unchanged (P24).

func genPair(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	genNet(r, p, 1)
	if r.P(0.2) {
		p.N["senderr"] = int64(r.Pick(20, 200))
	}
	p.N["wp"] = int64(r.Pick(1, 2, 8))
	p.N["clients"] = int64(1 + r.Intn(r.Pick(1, 4, 10)))
	span := r.Pick(1, 5000, 200000)
	for i := 1 + r.Intn(r.Pick(3, 12, 60)); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "q", At: int64(r.Intn(span)), A: []int64{int64(r.Intn(10)), int64(r.Intn(2)), int64(r.Intn(6)), int64(r.Intn(1 << 30)), int64(r.Pick(0, 0, 0, 100, 5000, 300000))}})
	}
	lullAt(r, p, 0.05)
}

// pairVal makes a value that takes about room bytes.
func pairVal(r *sim.Rand, depth, room int) interface{} {
	k := r.Intn(4)
	if room < 8 || depth > 200 {
		k = r.Intn(2)
	}
	switch k {
	case 0:
		switch r.Intn(5) {
		case 0:
			return int64(r.Intn(3) - 1)
		case 1:
			return int64(math.MaxInt64)
		case 2:
			return int64(math.MinInt64)
		case 3:
			return int64(r.U64())
		}
		return int64(r.Intn(200000)) - 100000
	case 1:
		n := r.Pick(0, 1, 9, 10, 20, 99, 100, 101, 300)
		if n > room {
			n = room
		}
		s := string(r.Bytes(n))
		if r.P(0.3) { // looks like bencode
			s = ("e:i1e2:lld0:e" + s)[:n]
		}
		return s
	case 2:
		l := L{}
		for i := r.Pick(0, 1, 1, 2, 5, 20); i > 0 && room > 4; i-- {
			v := pairVal(r, depth+1, room/2)
			room -= len(benc(v))
			l = append(l, v)
		}
		return l
	}
	return pairDict(r, depth, room)
}

func pairDict(r *sim.Rand, depth, room int) D {
	d := D{}
	for i := r.Pick(0, 1, 2, 4, 10); i > 0 && room > 8; i-- {
		k := string(r.Bytes(r.Pick(0, 1, 2, 4, 12)))
		switch r.Intn(6) {
		case 0:
			k = []string{"id", "t", "y", "q", "a", "r", "e", "v", "ip", "nodes", "values", "token", "port", "code", "msg"}[r.Intn(15)]
		case 1:
			k = []string{"ID", "Id", "id ", "1", "01", "10", ":", "1:", "e", "le"}[r.Intn(10)]
		}
		v := pairVal(r, depth+1, room*2/3)
		if _, has := d[k]; !has {
			room -= len(benc(k)) + len(benc(v))
			d[k] = v
		}
	}
	return d
}

// nest makes lists in lists.
func nest(r *sim.Rand, depth int) interface{} {
	var v interface{} = int64(7)
	for ; depth > 0; depth-- {
		if r.P(0.5) {
			v = L{v}
		} else {
			v = D{"k": v}
		}
	}
	return v
}

func toMisc(v interface{}) interface{} {
	switch v := v.(type) {
	case int64:
		return int(v)
	case L:
		l := make(misc.List, 0, len(v))
		for _, e := range v {
			l = append(l, toMisc(e))
		}
		return l
	case D:
		d := misc.Dict{}
		for _, k := range keys(v) {
			d[k] = toMisc(v[k])
		}
		return d
	}
	return v
}

// said encodes what the program handed over.
func said(v interface{}) string {
	if s, ok := fromMisc(v); ok {
		return benc(s)
	}
	return fmt.Sprintf("a value of type %T within %v", v, v)
}

func fromMisc(v interface{}) (interface{}, bool) {
	switch v := v.(type) {
	case int:
		return int64(v), true
	case string:
		return v, true
	case misc.List:
		l := make(L, len(v))
		for i := range v {
			e, ok := fromMisc(v[i])
			if !ok {
				return nil, false
			}
			l[i] = e
		}
		return l, true
	case misc.Dict:
		d := D{}
		for _, k := range keys(v) {
			e, ok := fromMisc(v[k])
			if !ok {
				return nil, false
			}
			d[k] = e
		}
		return d, true
	}
	return nil, false
}

func compactAddr(ip []byte, port int) string {
	return string(append(append([]byte(nil), ip...), byte(port>>8), byte(port)))
}

func runPair(x *X) {
	a := x.newAPI("dht", NodeCfg{Port: 21000, Pool: int(atLeast(x.n("wp"), 1)), QueueSize: 1, FetchWP: 1})
	x.Net.Keep = true
	types := []string{"ping", "find_node", "get_peers", "announce_peer"}
	type talk struct {
		t, typ       string
		dir          int
		q            func(h krpc.RpcHandlerFunc) krpc.Request
		r            func() krpc.Response
		wantQ, wantR string // what is said
		wireQ, wireR string // the datagrams, keys in order
		isErr        bool
		delay        int64
		// what happened
		err    error
		asked  bool
		sent   int
		heard  int // queries the other server read
		back   int // answers the asking server read
		ran    int // of the handler at the other server
		said   int // answers sent, or that the network refused
		got    int // of the response handler
		bodies []misc.Dict
		wants  []string
	}
	var ts []*talk
	var known []*dht.NodeInfo
	var knownAs []string
	byT := [2]*smap[string, *talk]{{}, {}} // of the asking server
	addrs := []sim.Addr{{IP: a.H.IP, Port: 6881}, {IP: a.H.IP, Port: 6882}}
	for i, o := range filter(x.P.Ops, "q") {
		r := sim.NewRand(uint64(o.a(3)))
		// ids alike but for a byte or two, and the same in both directions
		t := []string{"", "t", "tt", "\x00", "00000000", "aaaaaaaaaaaaaaaaaaaa"}[r.Intn(6)]
		if r.P(0.8) {
			t += string([]byte{byte(i), byte(i >> 8)}) + string(r.Bytes(r.Pick(0, 0, 1, 18)))
		}
		dir := int(o.a(1)) & 1
		for *byT[dir].at(t) != nil {
			t += string(byte('a' + i%26))
		}
		k := &talk{t: t, dir: dir, delay: o.a(4)}
		own, room := string(r.Bytes(20)), r.Pick(30, 200, 700, 1100)
		other := func() string { return string(r.Bytes(20)) }
		var body D
		switch o.a(2) {
		case 0:
			k.typ, body = "ping", D{"id": own}
			k.q = func(h krpc.RpcHandlerFunc) krpc.Request { return dht.WithPingMsg(t, own, h) }
		case 1:
			target := other()
			k.typ, body = "find_node", D{"id": own, "target": target}
			k.q = func(h krpc.RpcHandlerFunc) krpc.Request { return dht.WithFindNodeMsg(t, own, target, h) }
		case 2:
			ih := other()
			k.typ, body = "get_peers", D{"id": own, "info_hash": ih}
			k.q = func(h krpc.RpcHandlerFunc) krpc.Request { return dht.WithGetPeersMsg(t, own, ih, h) }
		case 3:
			ih, tok, port := other(), string(r.Bytes(r.Pick(0, 1, 4, 20, 100))), r.Pick(0, 1, 6881, 65535)
			k.typ, body = "announce_peer", D{"id": own, "info_hash": ih, "token": tok, "port": int64(port), "implied_port": int64(0)}
			k.q = func(h krpc.RpcHandlerFunc) krpc.Request {
				return dht.WithAnnouncePeerMsg(t, own, ih, tok, port, h)
			}
		default:
			k.typ, body = types[r.Intn(4)], pairDict(r, 0, room)
			if r.P(0.1) {
				body["deep"] = nest(r, r.Pick(10, 100, 300))
			}
			body["id"] = own
			b := body
			k.q = func(h krpc.RpcHandlerFunc) krpc.Request {
				return krpc.NewBaseRequest(t, k.typ, toMisc(b).(misc.Dict), h)
			}
		}
		k.wantQ = benc(body)
		k.wireQ = benc(D{"t": t, "y": "q", "q": k.typ, "a": body})
		mine := string(r.Bytes(20)) // own stays what the query says
		room = r.Pick(30, 200, 700, 1100)
		tok := string(r.Bytes(r.Pick(0, 1, 4, 20)))
		var ans D
		// addresses in both of the forms the net package has
		ip := func() (net.IP, []byte) {
			b := r.Bytes(4)
			if r.P(0.5) {
				return net.IP(append([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255}, b...)), b
			}
			return net.IP(append([]byte(nil), b...)), b
		}
		var nodes []*dht.NodeInfo
		compact := ""
		mkNodes := func() {
			for n := r.Pick(0, 1, 2, 8, 20, 35); n > 0; n-- {
				if len(known) > 0 && r.P(0.6) { // of the nodes that other answers name too
					j := r.Intn(len(known)) % (1 + r.Intn(len(known)))
					nodes = append(nodes, known[j])
					compact += knownAs[j]
					continue
				}
				i, b := ip()
				id, port := other(), r.Intn(65536)
				known = append(known, dht.NewNodeInfo(id, &net.UDPAddr{IP: i, Port: port}))
				knownAs = append(knownAs, id+compactAddr(b, port))
				nodes = append(nodes, known[len(known)-1])
				compact += knownAs[len(known)-1]
			}
		}
		switch r.Intn(8) {
		case 0:
			ans = D{"id": mine}
			k.r = func() krpc.Response { return dht.WithPingResponse(t, mine) }
		case 1:
			mkNodes()
			ans = D{"id": mine, "nodes": compact}
			k.r = func() krpc.Response { return dht.WithFindNodeResponse(t, mine, nodes) }
		case 2:
			vals, as := L{}, []*net.UDPAddr{}
			for n := r.Pick(0, 1, 2, 8, 50, 90); n > 0; n-- {
				if len(as) > 0 && r.P(0.1) {
					j, port := r.Intn(len(as)), r.Intn(65536)
					if r.P(0.5) {
						port = as[j].Port
					}
					as = append(as, &net.UDPAddr{IP: as[j].IP, Port: port})
					vals = append(vals, compactAddr(as[j].IP.To4(), port))
					continue
				}
				i, b := ip()
				port := r.Intn(65536)
				as = append(as, &net.UDPAddr{IP: i, Port: port})
				vals = append(vals, compactAddr(b, port))
			}
			ans = D{"id": mine, "token": tok, "values": vals}
			k.r = func() krpc.Response { return dht.WithGetPeersValsResponse(t, mine, tok, as) }
		case 3:
			mkNodes()
			ans = D{"id": mine, "token": tok, "nodes": compact}
			k.r = func() krpc.Response { return dht.WithGetPeersNodesResponse(t, mine, tok, nodes) }
		case 4:
			ans = D{"id": mine}
			k.r = func() krpc.Response { return dht.WithAnnouncePeerResponse(t, mine) }
		case 5:
			code, msg := int(binary.BigEndian.Uint16(r.Bytes(2))), "m"+string(r.Bytes(r.Pick(0, 1, 30, 300)))
			k.isErr = true
			k.wireR = benc(D{"t": t, "y": "e", "e": L{int64(code), msg}})
			k.r = func() krpc.Response { return krpc.WithErr(t, code, msg) }
		default:
			ans = pairDict(r, 0, room)
			if r.P(0.1) {
				ans["deep"] = nest(r, r.Pick(10, 100, 300))
			}
			ans["id"] = mine
			b := ans
			k.r = func() krpc.Response { return krpc.WithResponse(t, toMisc(b).(misc.Dict)) }
		}
		if !k.isErr {
			k.wantR = benc(ans)
			k.wireR = benc(D{"t": t, "y": "r", "r": ans})
		}
		ts = append(ts, k)
		*byT[dir].at(t) = k
	}
	var srv [2]*krpc.RpcServer
	keep := func(k *talk, d misc.Dict, want string) {
		k.bodies = append(k.bodies, d)
		k.wants = append(k.wants, want)
	}
	from := func(c *krpc.RpcContext) sim.Addr {
		if ad := c.RemoteAddr(); ad != nil {
			return sim.Addr{IP: sim.NormIP(ad.IP), Port: ad.Port}
		}
		return sim.Addr{}
	}
	mk := x.W.GoClient(a.P, "mk", func() {
		config.DhtConfig() // the settings are read once before anything runs at once, as a node does
		for i := range srv {
			i := i
			srv[i] = krpc.NewRpcServer(fmt.Sprintf(":%d", addrs[i].Port))
			for _, typ := range types {
				typ := typ
				srv[i].RegisteHandler(typ, func(c *krpc.RpcContext) {
					rq := c.Request()
					k := *byT[1-i].at(rq.TxId())
					switch {
					case k == nil:
						x.Fail("P24", "query-invented", "a handler ran for the transaction id %q, which nobody used", clip([]byte(rq.TxId())))
						return
					case k.dir == i || typ != k.typ || rq.Type() != k.typ || from(c) != addrs[k.dir]:
						x.Fail("P24", "wrong-handler", "the query %s from %s to %s ran the handler for %s of %s, as %s from %s", k.typ, addrs[k.dir], addrs[1-k.dir], typ, addrs[i], rq.Type(), from(c))
					case said(rq.Body()) != k.wantQ:
						x.Fail("P24", "query-changed", "asked was %s %s, heard %s", k.typ, clip([]byte(k.wantQ)), clip([]byte(said(rq.Body()))))
					}
					k.ran++
					keep(k, rq.Body(), k.wantQ)
					if k.delay > 0 {
						sim.Sleep(k.delay * us)
					}
					c.WriteAs(k.r())
				})
			}
		}
	})
	x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() || !a.P.Alive() })
	if a.died("P24") || srv[1] == nil {
		return
	}
	for i := range srv {
		s := srv[i]
		x.W.GoClient(a.P, "listen", func() { s.Listen() })
	}
	look := func(p *sim.Pkt) (k *talk, y, all string) {
		v, rest, err := bdec(string(p.Data))
		d, ok := v.(D)
		if err != nil || !ok || rest != "" {
			return nil, "", ""
		}
		t, _ := d.str("t")
		y, _ = d.str("y")
		asker := p.From
		if y != "q" {
			asker = p.To
		}
		dir := 0
		if asker == addrs[1] {
			dir = 1
		}
		return *byT[dir].at(t), y, benc(d)
	}
	x.Net.OnSent = func(p *sim.Pkt) {
		k, y, all := look(p)
		switch {
		case k == nil:
			x.Fail("P24", "not-a-message", "the program sent something that is no complete message of its: %s", clip(p.Data))
		case y == "q":
			if all != k.wireQ || p.From != addrs[k.dir] || p.To != addrs[1-k.dir] {
				x.Fail("P24", "query-on-wire", "the query %s from %s to %s went from %s to %s as %s", clip([]byte(k.wireQ)), addrs[k.dir], addrs[1-k.dir], p.From, p.To, clip(p.Data))
			}
			k.sent++
		default:
			k.said++
			if all != k.wireR || p.From != addrs[1-k.dir] || p.To != addrs[k.dir] {
				x.Fail("P24", "answer-on-wire", "the answer %s from %s to %s went from %s to %s as %s", clip([]byte(k.wireR)), addrs[1-k.dir], addrs[k.dir], p.From, p.To, clip(p.Data))
			}
		}
	}
	x.Net.OnRcvd = func(p *sim.Pkt) {
		if len(p.Data) > 1024 {
			return
		}
		if k, y, _ := look(p); k != nil && y == "q" {
			k.heard++
		} else if k != nil {
			k.back++
		}
	}
	t0 := x.W.Now()
	ops := filter(x.P.Ops, "q")
	for i := range ops {
		ops[i] = Op{K: "q", At: ops[i].At, A: []int64{ops[i].a(0), int64(i)}}
	}
	for _, ops := range splitOps(ops, int(atLeast(x.n("clients"), 1))) {
		ops := ops
		sortOps(ops)
		a.Go("caller", func() {
			for _, o := range ops {
				a.at(t0, o.At)
				k := ts[o.a(1)]
				to := addrs[1-k.dir]
				k.asked = true
				k.err = srv[k.dir].Query(&net.UDPAddr{IP: net.IP(to.IP), Port: to.Port}, k.q(func(c *krpc.RpcContext) {
					k.got++
					rq, rs := c.Request(), c.Response()
					switch {
					case rq == nil || rs == nil:
						x.Fail("P24", "no-answer-in-context", "a response handler got no request or no response")
						return
					case k.isErr || rq.TxId() != k.t || rs.TxId() != k.t || rq.Type() != k.typ || from(c) != to:
						x.Fail("P24", "wrong-answer", "the handler of the query %q %s to %s (answered by an error: %v) ran for %q %s, response %q, from %s", k.t, k.typ, to, k.isErr, rq.TxId(), rq.Type(), rs.TxId(), from(c))
						return
					case said(rs.Body()) != k.wantR:
						x.Fail("P24", "answer-changed", "answered was %s, heard %s", clip([]byte(k.wantR)), clip([]byte(said(rs.Body()))))
					case said(rq.Body()) != k.wantQ:
						x.Fail("P24", "query-changed", "asked was %s %s, the handler of the response sees %s", k.typ, clip([]byte(k.wantQ)), clip([]byte(said(rq.Body()))))
					}
					keep(k, rs.Body(), k.wantR)
					keep(k, rq.Body(), k.wantQ)
				}))
			}
		})
	}
	if !a.wait(600 * sec) {
		x.Fail("P24", "stuck", "Query does not return:%s", a.stuck())
		return
	}
	x.calm()
	done := func() bool {
		for _, k := range ts {
			if k.ran < k.heard || k.said < k.ran || k.back > 0 && !k.isErr && k.got == 0 {
				return false
			}
		}
		return true
	}
	sim.Sleep(sec)
	x.W.WaitUntil(60*sec, 10*ms, func() bool { return !a.P.Alive() || done() })
	sim.Sleep(3 * sec)
	if a.died("P24") {
		return
	}
	n := int64(0)
	for _, k := range ts {
		if !k.asked {
			continue
		}
		if k.err == nil && k.sent != 1 {
			x.Fail("P24", "sent", "Query returned no error and sent %d datagrams", k.sent)
		}
		if k.ran != k.heard {
			x.Fail("P24", "query-lost", "%d copies of the query %s %s reached the other server, its handler ran %d times", k.heard, k.typ, clip([]byte(k.wantQ)), k.ran)
		}
		if k.said != k.ran {
			x.Fail("P24", "answer-not-sent", "the handler of the query %s %s ran %d times, %d answers were sent", k.typ, clip([]byte(k.wantQ)), k.ran, k.said)
		}
		want := 0
		if k.back > 0 && !k.isErr {
			want = 1
		}
		if k.got != want {
			x.Fail("P24", "answer-lost", "%d copies of the answer %s (error: %v) reached the asking server, the handler ran %d times", k.back, clip([]byte(k.wireR)), k.isErr, k.got)
		}
		for i, b := range k.bodies {
			if said(b) != k.wants[i] {
				x.Fail("P24", "changed-later", "what a handler was given as %s later reads %s", clip([]byte(k.wants[i])), clip([]byte(said(b))))
			}
		}
		n += int64(want)
	}
	x.Nontrivial = n > 0
	x.Count("queries", int64(len(ts)))
	x.Count("answers_heard", n)
}

func init() {
	register(&Scenario{Name: "pair", Props: []string{"P24", "P21"}, Gen: genPair, Run: runPair, Race: true,
		Rule: "at least one answer reached the handler of its query"})
}
