package harness

import (
	"bytes"
	"fmt"
	"net"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"

	"verif/dst/sim"
)

// ---- P19: the UDP endpoint ----

func genUDP(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	genNet(r, p, 1)
	if r.P(0.3) {
		p.N["senderr"] = int64(r.Pick(20, 200))
	}
	if r.P(0.2) {
		p.N["rcvbuf"] = int64(r.Pick(1, 3, 20))
	}
	p.N["peers"] = int64(1 + r.Intn(3))
	p.N["place"] = int64(r.Intn(3))
	p.N["two"] = int64(b2i(r.P(0.2)))
	span := r.Pick(1000, 50000, 1000000)
	n := 1 + r.Intn(r.Pick(5, 30, 150, 400))
	for i := 0; i < n; i++ {
		l := r.Pick(0, 1, 2, 20, 100, 500, 1022, 1023, 1024, 1025, 1400, 9000)
		p.Ops = append(p.Ops, Op{K: "in", At: int64(r.Intn(span)), A: []int64{int64(r.Intn(3)), int64(l), int64(r.Intn(1 << 30))}})
	}
	for i := r.Intn(r.Pick(1, 10, 40)); i > 0; i-- {
		k := "send"
		if r.P(0.3) {
			k = "sendhost"
		}
		p.Ops = append(p.Ops, Op{K: k, At: int64(r.Intn(span)), A: []int64{int64(r.Intn(4)), int64(r.Intn(3)), int64(r.Pick(0, 1, 90, 1500, 60000)), int64(r.Intn(1 << 30))}})
	}
	for i := r.Pick(0, 0, 1, 3); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "rfail", At: int64(r.Intn(span)), A: []int64{int64(r.Pick(1, 5, 40, 200, 1500))}})
	}
	for i := r.Pick(0, 1, 2, 3, 4); i > 0; i-- {
		at := span + r.Intn(1000000)
		if r.P(0.4) {
			at = span / 2
		} else if r.P(0.3) {
			at = r.Intn(span)
		}
		p.Ops = append(p.Ops, Op{K: "close", At: int64(at), A: []int64{10 + int64(i)}})
	}
	// the consumer
	p.N["cdelay"] = int64(r.Pick(0, 0, 10, 1000, 30000))
	p.N["cstart"] = int64(r.Pick(0, 0, 1000, 500000))
	if r.P(0.1) {
		// nobody takes the datagrams for long
		p.N["cstart"] = int64(r.Pick(10, 40, 200)) * 1000000
		if len(filter(p.Ops, "close")) == 0 {
			p.Ops = append(p.Ops, Op{K: "close", At: int64(span + r.Intn(1000000)), A: []int64{11}})
		}
	}
	lullAt(r, p, 0.06)
}

func fill(l int64, seed int64) []byte { return sim.NewRand(uint64(seed)*2654435761 + 17).Bytes(int(l)) }

func runUDP(x *X) {
	a := x.newAPI("krpc", NodeCfg{})
	x.Net.Keep = true
	var srv *krpc.UdpServer
	mk := x.W.GoClient(a.P, "mk", func() { srv = krpc.StartUdpServer(":6881") })
	x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() || !a.P.Alive() })
	if a.died("P19") {
		return
	}
	sock := a.H.UDP(6881)
	if srv == nil || sock == nil {
		x.Fail("P19", "no-endpoint", "StartUdpServer(\":6881\") returned without a socket")
		return
	}
	here := sim.Addr{IP: a.H.IP, Port: 6881}
	// a second endpoint of the process, which has nothing to do with the first
	there := sim.Addr{IP: a.H.IP, Port: 6882}
	var srv2 *krpc.UdpServer
	var cg2 *sim.G
	var delivered2 [][]byte
	if x.n("two") == 1 {
		mk := x.W.GoClient(a.P, "mk2", func() { srv2 = krpc.StartUdpServer(":6882") })
		x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() || !a.P.Alive() })
		if a.died("P19") {
			return
		}
		if srv2 == nil || a.H.UDP(6882) == nil {
			x.Fail("P19", "no-endpoint", "StartUdpServer(\":6882\") returned without a socket")
			return
		}
		cg2 = x.W.GoClient(a.P, "consumer2", func() {
			ch := srv2.RecvChan()
			for {
				p, ok := sim.Recv2(ch)
				if !ok || p == nil {
					return
				}
				delivered2 = append(delivered2, append([]byte(nil), p.Bytes...))
			}
		})
	}
	rcvd := func(to sim.Addr) (out []sim.Pkt) {
		for _, p := range x.Net.Rcvd {
			if p.To.Port == to.Port {
				out = append(out, p)
			}
		}
		return
	}
	var peers []sim.Addr
	var h *sim.Host
	for i := int64(0); i < atLeast(x.n("peers"), 1); i++ {
		port := 5000 + int(i)
		if x.n("place") == 2 { // one port on several hosts
			port = 5000
		}
		if h == nil || x.n("place") != 1 { // 1: several ports on one host
			h = x.Net.AddHost(fmt.Sprintf("peer%d", i), fmt.Sprintf("10.0.3.%d", i+1))
		}
		s, err := h.BindUDP(h.IP, port)
		if err != nil {
			panic(err)
		}
		s.Handler = func(sim.Addr, []byte) {}
		peers = append(peers, sim.Addr{IP: h.IP, Port: port})
	}
	peer := func(i int64) sim.Addr { return peers[int(i)%len(peers)] }

	type got struct {
		addr sim.Addr
		raw  []byte // the slice handed over
		copy []byte // its content then
	}
	var delivered []got
	closeCalled, closeRet := int64(0), int64(0)
	rcvdAtClose := -1
	t0 := x.W.Now()
	cg := x.W.GoClient(a.P, "consumer", func() {
		ch := srv.RecvChan()
		a.at(t0, x.n("cstart"))
		for {
			p, ok := sim.Recv2(ch)
			if !ok || p == nil {
				return
			}
			g := got{raw: p.Bytes, copy: append([]byte(nil), p.Bytes...)}
			if p.Addr != nil {
				g.addr = sim.Addr{IP: sim.NormIP(p.Addr.IP), Port: p.Addr.Port}
			}
			delivered = append(delivered, g)
			if d := x.n("cdelay"); d > 0 {
				sim.Sleep(d * us)
			}
		}
	})
	_ = cg
	for _, o := range x.P.Ops {
		o := o
		if o.K == "in" {
			to := here
			if srv2 != nil && o.a(2)%3 == 0 {
				to = there
			}
			x.W.At(t0+o.At*us, func() { x.Net.Inject(peer(o.a(0)), to, fill(o.a(1), o.a(2))) })
		}
		if o.K == "rfail" {
			x.W.At(t0+o.At*us, func() { sock.FailReads(int(o.a(0))) })
		}
	}
	for _, o := range filter(x.P.Ops, "close") {
		o := o
		a.Go("closer", func() {
			a.at(t0, o.At)
			if closeCalled == 0 {
				closeCalled = a.tick()
				rcvdAtClose = len(rcvd(here))
			}
			c, s0 := x.W.Now(), x.W.StallNs
			if err := srv.Close(); err != nil {
				x.Fail("P19", "close-error", "Close returned an error: %v", err)
			}
			if d := x.W.Now() - c; d > 5*sec+x.W.StallNs-s0 {
				x.Fail("P19", "close-slow", "Close took %d ms", d/ms)
			}
			if closeRet == 0 {
				closeRet = a.tick()
			}
			if !sock.IsClosed() {
				x.Fail("P19", "socket-kept", "Close returned while the socket was still open")
			}
		})
	}
	type out struct {
		to        sim.Addr
		b         []byte
		ok        bool
		call, ret int64
	}
	var outs []*out
	sends := append(filter(x.P.Ops, "send"), filter(x.P.Ops, "sendhost")...)
	for _, ops := range splitOps(sends, 4) {
		ops := ops
		sortOps(ops)
		a.Go("sender", func() {
			for _, o := range ops {
				a.at(t0, o.At)
				to := peer(o.a(1))
				b := fill(o.a(2), o.a(3))
				u := &out{to: to, b: append([]byte(nil), b...), call: a.tick()}
				outs = append(outs, u)
				var err error
				if o.K == "send" {
					err = srv.SendPacket(b, &net.UDPAddr{IP: net.IP(to.IP), Port: to.Port})
				} else {
					err = srv.SendPacketToHost(b, to.String())
				}
				u.ret = a.tick()
				u.ok = err == nil
				for i := range b { // the buffer is the caller's again
					b[i] ^= 0x55
				}
				if u.ok && closeRet != 0 && u.call > closeRet {
					x.Fail("P19", "sent-after-close", "a send after Close had returned succeeded")
				}
			}
		})
	}
	left := x.n("cstart") + int64(len(x.P.Ops)+5)*x.n("cdelay")
	done := a.wait(60 * sec)
	if a.died("P19") {
		return
	}
	if !done {
		x.Fail("P19", "stuck", "calls on the endpoint do not return:%s", a.stuck())
		return
	}
	if closeCalled == 0 {
		// everything that arrives is delivered once faults have stopped
		x.calm()
		x.W.WaitUntil(left*us+20*sec, 5*ms, func() bool {
			return sock.Queued() == 0 && len(delivered) >= len(rcvd(here)) && x.W.Now() > t0+3*sec+30*x.Net.Cfg.MinDelay+6*x.Net.Cfg.Jitter
		})
		if a.died("P19") {
			return
		}
		if sock.Queued() > 0 {
			x.Fail("P19", "deaf", "%d datagrams wait in the socket and the endpoint does not read them, long after the last fault; read so far: %d", sock.Queued(), len(rcvd(here)))
		}
		fin := a.Go("final-close", func() {
			if err := srv.Close(); err != nil {
				x.Fail("P19", "close-error", "Close returned an error: %v", err)
			}
		})
		closeCalled = a.tick()
		rcvdAtClose = len(rcvd(here))
		if !x.W.WaitUntil(20*sec, ms, func() bool { return fin.Dead() }) {
			x.Fail("P19", "stuck", "Close does not return:%s", a.stuck())
			return
		}
		x.Count("closed_at_end", 1)
	} else {
		x.Count("closed_under_way", 1)
	}
	x.calm()
	// After the close: sending fails, the socket is free, the receiver ends.
	post := a.Go("after", func() {
		to := peer(0)
		if err := srv.SendPacket([]byte("late"), &net.UDPAddr{IP: net.IP(to.IP), Port: to.Port}); err == nil {
			x.Fail("P19", "sent-after-close", "a send after Close had returned succeeded")
		}
		if err := srv.Close(); err != nil {
			x.Fail("P19", "close-error", "a repeated Close returned an error: %v", err)
		}
	})
	if !x.W.WaitUntil(20*sec, ms, func() bool { return post.Dead() }) {
		x.Fail("P19", "stuck", "calls on the closed endpoint do not return:%s", a.stuck())
		return
	}
	if !sock.IsClosed() {
		x.Fail("P19", "socket-kept", "the socket is open after Close")
	} else if s, err := a.H.BindUDP("", 6881); err != nil {
		x.Fail("P19", "socket-kept", "the port cannot be bound after Close: %v", err)
	} else {
		s.Close()
	}
	if srv2 != nil && !x.checkSecond(a, srv2, there, peers[0], func() int { return len(delivered2) }, func() int { return len(rcvd(there)) }) {
		return
	}
	ended := x.W.WaitUntil(left*us+20*sec, 5*ms, func() bool {
		return a.P.NGs() <= b2i(!cg.Dead())+b2i(cg2 != nil && !cg2.Dead()) || !a.P.Alive()
	})
	if a.died("P19") {
		return
	}
	x.W.WaitUntil(left*us+5*sec, 5*ms, func() bool { return len(delivered) >= rcvdAtClose })
	if !ended {
		x.Fail("P19", "receiver-stays", "the receiver is still running long after Close:%s", a.stuck())
	}
	// What came in.
	i := 0
	for j, p := range rcvd(here) {
		over := len(p.Data) > 1024
		if i < len(delivered) {
			g := delivered[i]
			same := bytes.Equal(g.copy, p.Data)
			if over {
				same = len(g.copy) >= 1024 && len(g.copy) <= len(p.Data) && bytes.Equal(g.copy, p.Data[:len(g.copy)])
			}
			if same {
				if g.addr != p.From {
					x.Fail("P19", "address", "datagram %d came from %s and was delivered as from %s", j, p.From, g.addr)
				}
				i++
				continue
			}
		}
		if over || j >= rcvdAtClose && rcvdAtClose >= 0 {
			continue
		}
		if i < len(delivered) {
			x.Fail("P19", "not-in-order", "datagram %d read from the socket (%s) is not the next one delivered (%s, number %d)", j, clip(p.Data), clip(delivered[i].copy), i)
		} else {
			x.Fail("P19", "lost", "datagram %d of %d read from the socket (%s) was never delivered", j, len(rcvd(here)), clip(p.Data))
		}
		return
	}
	if i < len(delivered) {
		x.Fail("P19", "invented", "the endpoint delivered a datagram nobody sent, or one twice: %s", clip(delivered[i].copy))
	}
	for i, g := range delivered {
		if !bytes.Equal(g.raw, g.copy) {
			x.Fail("P19", "changed-later", "the content of delivered datagram %d changed after delivery", i)
		}
	}
	if srv2 != nil {
		in := rcvd(there)
		for j, b := range delivered2 {
			if j >= len(in) || !bytes.Equal(b, in[j].Data[:min(len(b), len(in[j].Data))]) || len(b) < min(len(in[j].Data), 1024) {
				x.Fail("P19", "not-in-order", "the second endpoint's delivery %d (%s) is not what it read from its socket", j, clip(b))
				break
			}
		}
		x.Count("second_endpoint", 1)
	}
	// What went out.
	used := make([]bool, len(outs))
	for _, p := range x.Net.Sent {
		if p.Err != "" || p.From.Port == there.Port {
			continue
		}
		found := false
		for k, u := range outs {
			if !used[k] && u.ok && u.to == p.To && bytes.Equal(u.b, p.Data) {
				used[k], found = true, true
				break
			}
		}
		if !found {
			x.Fail("P19", "sent-modified", "the endpoint sent %s to %s, which nobody handed to it so (or whose send reported an error)", clip(p.Data), p.To)
		}
	}
	for k, u := range outs {
		if u.ok && !used[k] {
			x.Fail("P19", "not-sent", "a send of %d bytes to %s reported success but did not leave", len(u.b), u.to)
		}
	}
	x.Nontrivial = len(delivered) > 0
	x.Count("delivered", int64(len(delivered)))
	x.Count("sent", int64(len(outs)))
}

// checkSecond looks at another endpoint of the process once the first is
// closed: it still delivers and sends, until it is closed itself.
func (x *X) checkSecond(a *API, srv *krpc.UdpServer, here, peer sim.Addr, delivered, rcvd func() int) bool {
	x.calm()
	x.W.WaitUntil(20*sec, 5*ms, func() bool { return a.H.UDP(here.Port) == nil || a.H.UDP(here.Port).Queued() == 0 })
	n := rcvd()
	x.Net.InjectClean(peer, here, []byte("to the second endpoint"))
	if !x.W.WaitUntil(20*sec, 5*ms, func() bool { return rcvd() > n && delivered() >= rcvd() || !a.P.Alive() }) {
		x.Fail("P19", "deaf", "with the first endpoint closed the second does not deliver what it is sent: %d datagrams read, %d delivered", rcvd(), delivered())
		return false
	}
	if a.died("P19") {
		return false
	}
	g := a.Go("second", func() {
		to := &net.UDPAddr{IP: net.IP(peer.IP), Port: peer.Port}
		if err := srv.SendPacket([]byte("second"), to); err != nil {
			x.Fail("P19", "cannot-send", "with the first endpoint closed the second cannot send: %v", err)
		}
		if err := srv.Close(); err != nil {
			x.Fail("P19", "close-error", "Close returned an error: %v", err)
		}
		if err := srv.SendPacket([]byte("late"), to); err == nil {
			x.Fail("P19", "sent-after-close", "a send after Close had returned succeeded")
		}
	})
	if !x.W.WaitUntil(20*sec, ms, func() bool { return g.Dead() || !a.P.Alive() }) {
		x.Fail("P19", "stuck", "calls on the second endpoint do not return:%s", a.stuck())
		return false
	}
	return !a.died("P19")
}

// ---- P03: responses and their handlers ----

const (
	rValid = iota
	rWrongT
	rErr
	rNoR
	rNoID
	rTrunc
	rShortID
	rNoT
	rOtherSrc
	rGarbage
	rQuery
	rKinds
)

func genRPCClient(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	genNet(r, p, r.Pick(0, 1, 1))
	if r.P(0.3) {
		p.N["senderr"] = int64(r.Pick(50, 300))
	}
	p.N["wp"] = int64(r.Pick(1, 2, 4, 16, 100))
	p.N["clients"] = int64(1 + r.Intn(4))
	p.N["peers"] = int64(1 + r.Intn(3))
	p.N["mw"] = int64(r.Pick(0, 0, 1, 2))
	p.N["tkind"] = int64(r.Pick(0, 0, 1, 2))
	p.N["panics"] = int64(r.Pick(0, 0, 0, 200))
	n := 1 + r.Intn(r.Pick(3, 10, 40))
	span := r.Pick(100, 5000, 300000)
	late := []int{0, 0, 10, 1000, 40000}
	if r.P(0.04) {
		// many other queries which nobody answers
		p.N["stall"], p.N["wp"] = 0, 16
		late = []int{0, 1000, 40000, 300000, 1000000}
		for i := 1 + r.Intn(3); i > 0; i-- {
			p.Ops = append(p.Ops, Op{K: "flood", At: int64(r.Intn(span)), A: []int64{int64(r.Pick(60, 120, 300, 1100, 2500)), int64(r.Pick(0, 1, 50))}})
		}
	}
	for q := 0; q < n; q++ {
		p.Ops = append(p.Ops, Op{K: "query", At: int64(r.Intn(span)), A: []int64{int64(r.Intn(4)), int64(q), int64(r.Intn(3)), int64(r.Pick(0, 0, 100, 20000))}})
		m := r.Pick(0, 1, 1, 2, 2, 3, 5)
		for i := 0; i < m; i++ {
			k := rValid
			if r.P(0.35) {
				k = r.Intn(rKinds)
			}
			p.Ops = append(p.Ops, Op{K: "resp", A: []int64{int64(q), int64(k), int64(r.Pick(late...)), int64(r.Pick(1, 1, 1, 2, 3)), int64(r.Intn(3))}})
		}
		if r.P(0.15) {
			k := rValid
			if r.P(0.3) {
				k = r.Intn(rKinds)
			}
			p.Ops = append(p.Ops, Op{K: "early", At: int64(r.Intn(span)), A: []int64{int64(q), int64(k), int64(r.Intn(3))}})
		}
	}
	if n > 1 && r.P(0.2) {
		// some are sent by the handler of another one
		var top []int64
		for i := range p.Ops {
			o := &p.Ops[i]
			if o.K != "query" {
				continue
			}
			if len(top) > 0 && r.P(0.5) {
				o.A = append(o.A, 1+top[r.Intn(len(top))])
			} else {
				top = append(top, o.A[1])
			}
		}
	}
	d := lullAt(r, p, 0.06)
	if d == 0 && r.P(0.04) {
		d = quietTime(r)
	}
	for i := range p.Ops {
		if o := &p.Ops[i]; d > 0 && o.K == "resp" && r.P(0.4) {
			o.A[2] += d
		}
	}
}

func isFlood(t string) bool { return len(t) == 7 && t[0] == 'F' }

func runRPCClient(x *X) {
	a := x.newAPI("krpc", NodeCfg{Pool: int(atLeast(x.n("wp"), 1))})
	x.Net.Keep = true
	var srv *krpc.RpcServer
	mwRuns := 0
	mk := x.W.GoClient(a.P, "mk", func() {
		srv = krpc.NewRpcServer(":6881")
		for i := int64(0); i < x.n("mw"); i++ {
			i := i
			srv.UseRespHandlerMiddleware(func(c *krpc.RpcContext) {
				mwRuns++
				if i == 1 {
					c.Next()
				}
			})
		}
	})
	x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() || !a.P.Alive() })
	if a.died("P03") || srv == nil {
		return
	}
	x.W.GoClient(a.P, "listen", func() { srv.Listen() })
	here := sim.Addr{IP: a.H.IP, Port: 6881}
	// one run of the handler
	type run struct {
		marker, t, typ, rt string
		from               sim.Addr
		reqMark            string
		order              int64
	}
	type qry struct {
		n, peer   int64
		t         string
		call, ret int64
		failed    bool
		sent      int64 // order of the datagram
		runs      []run
		issued    bool
		answered  bool
	}
	type rd struct {
		q      *qry
		kind   int64
		marker string
		from   sim.Addr
		order  int64
	}
	qs := map[int64]*qry{}
	byT := &smap[string, *qry]{}
	var ql []*qry
	for _, o := range filter(x.P.Ops, "query") {
		n := o.a(1)
		if qs[n] != nil {
			continue
		}
		q := &qry{n: n, peer: o.a(2), t: fmt.Sprintf("%c%c", 'A'+n%26, 'a'+n/26)}
		switch x.n("tkind") {
		case 1:
			q.t = fmt.Sprintf("\x00\xff%c", n)
		case 2:
			q.t = fmt.Sprintf("transaction-%d", n)
		}
		qs[n] = q
		ql = append(ql, q)
		*byT.at(q.t) = q
	}
	var hosts []*sim.UDPSock
	np := atLeast(x.n("peers"), 1)
	paddr := func(i int64) sim.Addr {
		return sim.Addr{IP: sim.IP4(fmt.Sprintf("10.0.3.%d", i%np+1)), Port: 5000 + int(i%np)}
	}
	marks := 0
	markOf := &smap[string, *rd]{}
	mkResp := func(q *qry, kind int64) []byte {
		marks++
		m := fmt.Sprintf("m%d.", marks)
		*markOf.at(m) = &rd{q: q, kind: kind, marker: m}
		body := D{"id": "R123456789R123456789", "mark": m}
		switch kind {
		case rWrongT:
			return []byte(benc(D{"t": q.t + "x", "y": "r", "r": body}))
		case rErr:
			return []byte(benc(D{"t": q.t, "y": "e", "e": L{int64(201), m}, "r": body}))
		case rNoR:
			return []byte(benc(D{"t": q.t, "y": "r", "mark": m}))
		case rNoID:
			return []byte(benc(D{"t": q.t, "y": "r", "r": D{"mark": m}}))
		case rTrunc:
			b := benc(D{"t": q.t, "y": "r", "r": body, "zz": "0123456789"})
			return []byte(b[:len(b)-8])
		case rShortID:
			body["id"] = "short"
		case rNoT:
			return []byte(benc(D{"y": "r", "r": body}))
		case rGarbage:
			return []byte("x" + benc(D{"t": q.t, "y": "r", "r": body}))
		case rQuery:
			return []byte(benc(D{"t": q.t, "y": "q", "q": "ping", "a": body}))
		}
		return []byte(benc(D{"t": q.t, "y": "r", "r": body}))
	}
	resps := filter(x.P.Ops, "resp")
	for i := int64(0); i < np; i++ {
		pa := paddr(i)
		h := x.Net.AddHost(fmt.Sprintf("peer%d", i), fmt.Sprintf("10.0.3.%d", i+1))
		s, err := h.BindUDP(h.IP, pa.Port)
		if err != nil {
			panic(err)
		}
		hosts = append(hosts, s)
		s.Handler = func(from sim.Addr, b []byte) {
			t, qn, ar, ok := isQuery(b)
			if !ok || isFlood(t) {
				return
			}
			q := *byT.at(t)
			if q == nil || q.answered {
				return
			}
			if mk, _ := ar.str("mark"); mk != fmt.Sprintf("q%d", q.n) || qn == "" {
				x.Fail("P03", "query-modified", "the query on the wire is not the one passed to Query: %s", clip(b))
			}
			q.answered = true
			for _, o := range resps {
				if o.a(0) != q.n {
					continue
				}
				b := mkResp(q, o.a(1))
				src := pa
				if o.a(1) == rOtherSrc {
					src = paddr(q.peer + 1)
				}
				for c := int64(0); c < atLeast(o.a(3), 1); c++ {
					x.W.After(o.a(2)*us, func() { x.Net.Inject(src, from, b) })
				}
			}
		}
	}
	var reads []*rd
	x.Net.OnSent = func(p *sim.Pkt) {
		if t, _, _, ok := isQuery(p.Data); ok && !isFlood(t) {
			if q := *byT.at(t); q != nil && p.Err == "" {
				q.sent = a.tick()
			}
		}
	}
	x.Net.OnRcvd = func(p *sim.Pkt) {
		for i := range markOf.k {
			m := markOf.v[i]
			if m != nil && bytes.Contains(p.Data, []byte(m.marker)) {
				reads = append(reads, &rd{q: m.q, kind: m.kind, marker: m.marker, from: p.From, order: a.tick()})
				return
			}
		}
	}
	t0 := x.W.Now()
	for _, o := range filter(x.P.Ops, "early") {
		o := o
		q := qs[o.a(0)]
		if q == nil {
			continue
		}
		b := mkResp(q, o.a(1))
		x.W.At(t0+o.At*us, func() { x.Net.Inject(paddr(q.peer), here, b) })
	}
	types := []string{"ping", "find_node", "get_peers", "announce_peer"}
	panicky := sim.NewRand(uint64(len(x.P.Ops)) + 99)
	// queries a handler sends while it runs
	type kid struct {
		q *qry
		o Op
	}
	kids := &smap[int64, []kid]{}
	began, ended := 0, 0
	own := func(o Op) bool { return o.a(4) == 0 || qs[o.a(4)-1] == nil || o.a(4)-1 == o.a(1) }
	nkids := 0
	for _, o := range filter(x.P.Ops, "query") {
		if !own(o) {
			nkids++
			k := kids.at(o.a(4) - 1)
			*k = append(*k, kid{qs[o.a(1)], o})
		}
	}
	var issue func(q *qry, o Op)
	issue = func(q *qry, o Op) {
		if q == nil || q.issued {
			return
		}
		q.issued = true
		boom := x.n("panics") > 0 && panicky.P(float64(x.n("panics"))/1000)
		req := krpc.NewBaseRequest(q.t, types[q.n%4], misc.Dict{"id": "L123456789L123456789", "mark": fmt.Sprintf("q%d", q.n)}, func(c *krpc.RpcContext) {
			r := run{order: a.tick()}
			if rq := c.Request(); rq != nil {
				r.t, r.typ = rq.TxId(), rq.Type()
				r.reqMark, _ = rq.Body()["mark"].(string)
			}
			if rs := c.Response(); rs != nil {
				r.rt = rs.TxId()
				r.marker, _ = rs.Body()["mark"].(string)
			}
			if ad := c.RemoteAddr(); ad != nil {
				r.from = sim.Addr{IP: sim.NormIP(ad.IP), Port: ad.Port}
			}
			q.runs = append(q.runs, r)
			began++
			defer func() { ended++ }()
			for _, k := range *kids.at(q.n) {
				issue(k.q, k.o)
			}
			if d := o.a(3); d > 0 {
				sim.Sleep(d * us)
			}
			if boom {
				panic("handler")
			}
		})
		pa := paddr(q.peer)
		q.call = a.tick()
		err := srv.Query(&net.UDPAddr{IP: net.IP(pa.IP), Port: pa.Port}, req)
		q.ret = a.tick()
		q.failed = err != nil
		if err == nil && q.sent == 0 {
			x.Fail("P03", "not-sent", "Query returned no error but no datagram left")
		}
		if err != nil && q.sent != 0 {
			x.Fail("P03", "error-though-sent", "Query returned the error %v although its datagram left", err)
		}
	}
	for _, ops := range splitOps(filter(x.P.Ops, "query"), int(atLeast(x.n("clients"), 1))) {
		ops := ops
		sortOps(ops)
		a.Go("caller", func() {
			for _, o := range ops {
				if own(o) {
					a.at(t0, o.At)
					issue(qs[o.a(1)], o)
				}
			}
		})
	}
	floods := 0
	for _, o := range filter(x.P.Ops, "flood") {
		o := o
		floods++
		pre := fmt.Sprintf("F%d", floods%10)
		a.Go("flood", func() {
			a.at(t0, o.At)
			for i := int64(0); i < o.a(0); i++ {
				pa := paddr(i)
				srv.Query(&net.UDPAddr{IP: net.IP(pa.IP), Port: pa.Port},
					krpc.NewBaseRequest(fmt.Sprintf("%s%05d", pre, i), types[i%4], misc.Dict{"id": "L123456789L123456789"}, func(c *krpc.RpcContext) {
						x.Fail("P03", "invented", "the handler of a query ran that nobody answered")
					}))
				if d := o.a(1); d > 0 {
					sim.Sleep(d * us)
				}
			}
		})
	}
	if !a.wait(60 * sec) {
		x.Fail("P03", "stuck", "Query does not return:%s", a.stuck())
		return
	}
	if a.died("P03") {
		return
	}
	x.calm()
	sock := a.H.UDP(6881)
	delays := int64(0)
	for _, o := range x.P.Ops {
		if o.K == "query" {
			delays += o.a(3) * us
		}
	}
	must := func(q *qry) *rd {
		if q.sent == 0 || q.failed {
			return nil
		}
		for _, r := range reads {
			if r.q == q && r.kind == rValid && r.order > q.sent {
				return r
			}
		}
		return nil
	}
	late := int64(0)
	for _, o := range resps {
		if o.a(2)*us > late {
			late = o.a(2) * us
		}
	}
	if nkids > 0 {
		late += late + delays + 30*x.Net.Cfg.MinDelay + 6*x.Net.Cfg.Jitter
	}
	sim.Sleep(late + 2*sec + 30*x.Net.Cfg.MinDelay + 6*x.Net.Cfg.Jitter)
	x.W.WaitUntil(20*sec+delays, 5*ms, func() bool {
		if sock != nil && sock.Queued() > 0 {
			return false
		}
		for _, q := range ql {
			if must(q) != nil && len(q.runs) == 0 {
				return false
			}
		}
		return true
	})
	sim.Sleep(200*ms + delays)
	if a.died("P03") {
		return
	}
	if ended < began {
		x.Fail("P03", "stuck", "%d of %d handlers do not return:%s", began-ended, began, a.stuck())
	}
	handled := 0
	for _, q := range ql {
		if len(q.runs) > 1 {
			x.Fail("P03", "ran-twice", "the handler of query %q ran %d times", q.t, len(q.runs))
		}
		if m := must(q); m != nil && len(q.runs) == 0 {
			x.Fail("P03", "never-ran", "the handler of query %q did not run although a valid response to it was read after it was sent", q.t)
		}
		for _, r := range q.runs {
			handled++
			md := *markOf.at(r.marker)
			if md == nil || md.q != q || r.t != q.t || r.rt != q.t || r.typ != types[q.n%4] || r.reqMark != fmt.Sprintf("q%d", q.n) {
				x.Fail("P03", "wrong-content", "the handler of query %q (%s) ran with request %q (%s, %s) and response %q (%s)", q.t, types[q.n%4], r.t, r.typ, r.reqMark, r.rt, r.marker)
				continue
			}
			if md.kind != rValid && md.kind != rShortID && md.kind != rOtherSrc {
				x.Fail("P03", "invalid-response", "the handler of query %q ran on a message that is no valid response to it (kind %d)", q.t, md.kind)
			}
			seen, src, before := false, false, false
			for _, rr := range reads {
				if rr.marker == r.marker && rr.order < r.order {
					seen = true
					src = src || rr.from == r.from
					before = before || !q.failed || rr.order < q.ret
				}
			}
			if !seen || !src {
				x.Fail("P03", "wrong-address", "the handler of query %q saw %s as its sender, which did not send that response", q.t, r.from)
			}
			if q.failed && !before {
				x.Fail("P03", "ran-after-failed-send", "the handler of query %q ran on a response that arrived after Query had reported that the send failed", q.t)
			}
		}
	}
	_ = hosts
	x.Nontrivial = handled > 0
	x.Count("queries", int64(len(ql)))
	x.Count("handlers_run", int64(handled))
	x.Count("responses_read", int64(len(reads)))
}

// ---- P16: middleware ----

func genMiddleware(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	genNet(r, p, 0)
	p.N["wp"] = int64(r.Pick(1, 2, 4, 16, 100))
	for i := r.Pick(0, 1, 2, 3, 5, 0, 1, 2, 3, 5, 9, 18); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "req", A: []int64{int64(r.Pick(0, 1, 1, 2)), int64(r.Pick(0, 0, 10, 3000)), int64(r.Intn(4)), int64(r.Pick(0, 0, 50, 2000)), int64(r.Pick(0, 0, 1, 2, 3))}})
	}
	for i := r.Pick(0, 1, 2, 3, 5, 0, 1, 2, 3, 5, 9, 18); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "rsp", A: []int64{int64(r.Pick(0, 1, 1, 2)), int64(r.Pick(0, 0, 10, 3000)), 0, int64(r.Pick(0, 0, 50, 2000))}})
	}
	p.N["hdelay"] = int64(r.Pick(0, 0, 100, 5000))
	p.N["herr"] = int64(r.Pick(0, 0, 1))
	span := r.Pick(10, 2000, 100000)
	n := 1 + r.Intn(r.Pick(3, 12, 40))
	for i := 0; i < n; i++ {
		k := "in"
		if r.P(0.4) {
			k = "out"
		}
		p.Ops = append(p.Ops, Op{K: k, At: int64(r.Intn(span)), A: []int64{int64(r.Intn(3)), int64(r.Intn(4)), int64(r.Intn(3))}})
	}
	if r.P(0.4) { // some chains panic, with a protocol error or otherwise
		q := r.Pick(2, 4, 10)
		for i, o := range p.Ops {
			if (o.K == "in" || o.K == "out") && r.Intn(q) == 0 {
				p.Ops[i].A = append(o.A, int64(r.Pick(1, 1, 2, 3)), int64(r.Pick(0, 0, 1, 2, r.Intn(20))))
			}
		}
	}
	lullAt(r, p, 0.06)
	if r.P(0.25) { // some are registered when messages have been handled already
		p.N["late"] = int64(1 + r.Intn(span))
		p.N["early"] = int64(r.Intn(4))
	}
}

func runMiddleware(x *X) {
	a := x.newAPI("krpc", NodeCfg{Pool: int(atLeast(x.n("wp"), 1))})
	x.Net.Keep = true
	var srv *krpc.RpcServer
	types := []string{"ping", "find_node", "get_peers", "announce_peer"}
	// the record of one message, found by its transaction id
	type msg struct {
		t      string
		typ    string
		peer   sim.Addr
		mark   string
		resp   bool // a response to a query of ours
		trace  string
		want   string // the trace of the chain registered at the time
		last   string // marker of the last response written
		badCtx string
		read   bool
		fail   int64 // how its chain panics: 0 not, 1 a protocol error, 2 and 3 otherwise
		failAt int   // where: the middleware, or the handler
		end    int   // the handler's place in the chain
	}
	boom := func(m *msg, i int) {
		if m.fail == 0 || m.failAt != i {
			return
		}
		m.trace += "!"
		switch m.fail {
		case 1:
			misc.PanicBizErr("refused " + m.t)
		case 2:
			panic("failed " + m.t)
		default:
			var none *msg
			none.t = m.t
		}
	}
	byT := &smap[string, *msg]{}
	var msgs []*msg
	look := func(c *krpc.RpcContext, where string) *msg {
		rq := c.Request()
		if rq == nil {
			x.Fail("P16", "context", "%s saw no request", where)
			return nil
		}
		m := *byT.at(rq.TxId())
		if m == nil {
			x.Fail("P16", "context", "%s saw a request with the unknown transaction id %q", where, rq.TxId())
			return nil
		}
		mark, _ := rq.Body()["mark"].(string)
		ad := sim.Addr{}
		if c.RemoteAddr() != nil {
			ad = sim.Addr{IP: sim.NormIP(c.RemoteAddr().IP), Port: c.RemoteAddr().Port}
		}
		want := m.mark
		if m.resp {
			want = "q" + m.t
		}
		if mark != want || ad != m.peer || rq.Type() != m.typ {
			m.badCtx = fmt.Sprintf("%s of message %q (%s from %s) saw type %s, mark %q, address %s", where, m.t, m.typ, m.peer, rq.Type(), mark, ad)
		}
		rs := c.Response()
		rm := ""
		if rs != nil {
			rm, _ = rs.Body()["mark"].(string)
			if rs.Error() {
				rm, _ = rs.Body()["msg"].(string)
			}
			if rs.TxId() != m.t {
				m.badCtx = fmt.Sprintf("%s of message %q saw a response with id %q", where, m.t, rs.TxId())
			}
		}
		if rm != m.last {
			m.badCtx = fmt.Sprintf("%s of message %q saw the response %q, the last one written is %q", where, m.t, rm, m.last)
		}
		return m
	}
	write := func(c *krpc.RpcContext, m *msg, by string, bad bool) {
		m.last = "w" + m.t + by
		if bad {
			m.last = "e" + m.t + by
			c.WriteAs(krpc.WithErr(m.t, 201+len(by), m.last))
			return
		}
		c.WriteAs(krpc.WithResponse(m.t, misc.Dict{"id": "L123456789L123456789", "mark": m.last}))
	}
	type mw struct {
		i               int
		nexts, d, d2, w int64
	}
	mkMW := func(kind string, i int, o Op) krpc.RpcHandlerFunc {
		return func(c *krpc.RpcContext) {
			where := fmt.Sprintf("%s middleware %d", kind, i)
			m := look(c, where)
			if m == nil {
				return
			}
			m.trace += fmt.Sprintf("+%d", i)
			if o.a(1) > 0 {
				sim.Sleep(o.a(1) * us)
			}
			boom(m, i)
			if kind == "request" && o.a(2)&1 != 0 {
				write(c, m, fmt.Sprintf("b%d", i), o.a(4)&1 != 0)
			}
			for k := int64(0); k < o.a(0); k++ {
				c.Next()
				m.trace += "."
				look(c, where+" after Next")
			}
			if o.a(3) > 0 {
				sim.Sleep(o.a(3) * us)
			}
			if kind == "request" && o.a(2)&2 != 0 {
				write(c, m, fmt.Sprintf("a%d", i), o.a(4)&2 != 0)
			}
			m.trace += fmt.Sprintf("-%d", i)
		}
	}
	// expect is the trace of a chain, up to the place where it panics, if it does
	expect := func(ops []Op, fail int) string {
		done := false
		var rec func(i int) string
		rec = func(i int) (s string) {
			add := func(t string) {
				if !done {
					s += t
				}
			}
			if s = "H"; i < len(ops) {
				s = fmt.Sprintf("+%d", i)
			}
			if i == fail {
				done = true
				return s + "!"
			}
			if i == len(ops) {
				return s
			}
			n := ops[i].a(0)
			if n > 0 {
				s += rec(i + 1)
				for k := int64(0); k < n; k++ {
					add(".")
				}
			}
			add(fmt.Sprintf("-%d", i))
			if n == 0 {
				s += rec(i + 1)
			}
			return s
		}
		return rec(0)
	}
	reqMW, rspMW := filter(x.P.Ops, "req"), filter(x.P.Ops, "rsp")
	cost := x.n("hdelay") * us
	for _, o := range append(append([]Op{}, reqMW...), rspMW...) {
		cost += (o.a(1) + o.a(3)) * us
	}
	// the first ones of both chains, and the messages before late, come first
	late := x.n("late")
	if raceBuild { // the registration has no order with the handlers' reads
		late = 0
	}
	nReq, nRsp := len(reqMW), len(rspMW)
	if late > 0 {
		nReq, nRsp = min(nReq, int(x.n("early"))), min(nRsp, int(x.n("early")))
	}
	// every query type and every query of ours has a handler of its own, which
	// knows what it was registered for
	handler := func(c *krpc.RpcContext, own string, mine *msg) {
		m := look(c, "the handler")
		if m == nil {
			return
		}
		if mine != nil && mine != m || mine == nil && (m.resp || own != m.typ) {
			m.badCtx = fmt.Sprintf("message %q (%s) ended at the handler registered for %s", m.t, m.typ, own)
		}
		m.trace += "H"
		if d := x.n("hdelay"); d > 0 {
			sim.Sleep(d * us)
			look(c, "the handler after a while")
		}
		boom(m, m.end)
		if !m.resp {
			write(c, m, "h", x.n("herr") != 0)
		}
	}
	use := func(r0, r1, s0, s1 int) {
		var some []krpc.RpcHandlerFunc
		for i := r0; i < r1; i++ {
			some = append(some, mkMW("request", i, reqMW[i]))
			if i%2 == 1 {
				srv.UseReqHandlerMiddleware(some...)
				some = nil
			}
		}
		srv.UseReqHandlerMiddleware(some...)
		for i := s0; i < s1; i++ {
			srv.UseRespHandlerMiddleware(mkMW("response", i, rspMW[i]))
		}
	}
	mk := x.W.GoClient(a.P, "mk", func() {
		srv = krpc.NewRpcServer(":6881")
		use(0, nReq, 0, nRsp)
		for _, t := range types {
			t := t
			srv.RegisteHandler(t, func(c *krpc.RpcContext) { handler(c, t, nil) })
		}
	})
	x.W.WaitUntil(10*sec, ms, func() bool { return mk.Dead() || !a.P.Alive() })
	if a.died("P16") || srv == nil {
		return
	}
	x.W.GoClient(a.P, "listen", func() { srv.Listen() })
	here := sim.Addr{IP: a.H.IP, Port: 6881}
	paddr := func(i int64) sim.Addr {
		return sim.Addr{IP: sim.IP4(fmt.Sprintf("10.0.3.%d", i%3+1)), Port: 5000 + int(i%3)}
	}
	for i := int64(0); i < 3; i++ {
		pa := paddr(i)
		h := x.Net.AddHost(fmt.Sprintf("peer%d", i), fmt.Sprintf("10.0.3.%d", i+1))
		s, err := h.BindUDP(h.IP, pa.Port)
		if err != nil {
			panic(err)
		}
		s.Handler = func(from sim.Addr, b []byte) {
			t, _, _, ok := isQuery(b)
			if !ok {
				return
			}
			if m := *byT.at(t); m != nil {
				x.Net.Inject(pa, from, reply(t, D{"id": "R123456789R123456789", "mark": m.last}))
			}
		}
	}
	x.Net.OnRcvd = func(p *sim.Pkt) {
		d, _ := bdict(p.Data)
		t, _ := d.str("t")
		if m := *byT.at(t); m != nil {
			m.read = true
		}
	}
	over := func() bool {
		n := 0
		for _, m := range msgs {
			if !m.read || len(m.trace) < len(m.want) {
				return false
			}
			if !m.resp && m.fail < 2 {
				n++
			}
		}
		for _, p := range x.Net.Sent {
			if _, _, _, q := isQuery(p.Data); !q {
				n--
			}
		}
		return n <= 0
	}
	// play plays the messages of a time and sees them all handled
	play := func(from, to int64) bool {
		t0 := x.W.Now() - from*us
		var outs []Op
		for i, o := range x.P.Ops {
			o := o
			if o.K != "in" && o.K != "out" || o.At < from || o.At >= to {
				continue
			}
			m := &msg{t: fmt.Sprintf("%c%c", 'A'+i%26, 'a'+i/26), typ: types[o.a(1)&3], peer: paddr(o.a(2)), end: nReq, fail: o.a(3)}
			chain := reqMW[:nReq]
			if o.K == "out" {
				m.end, chain = nRsp, rspMW[:nRsp]
			}
			m.failAt = -1
			if m.fail != 0 {
				m.failAt = int(o.a(4)) % (m.end + 1)
			}
			m.want = expect(chain, m.failAt)
			*byT.at(m.t) = m
			msgs = append(msgs, m)
			if o.K == "in" {
				m.mark = "i" + m.t
				ar := D{"id": "Q123456789Q123456789", "mark": m.mark, "target": "T123456789T123456789", "info_hash": "I123456789I123456789", "port": int64(7), "token": "tk"}
				x.W.At(t0+o.At*us, func() { x.Net.Inject(m.peer, here, query(m.t, m.typ, ar)) })
			} else {
				m.resp = true
				m.last = "r" + m.t
				outs = append(outs, Op{K: "out", At: o.At, A: []int64{o.a(0), int64(len(msgs) - 1)}})
			}
		}
		for _, ops := range splitOps(outs, 3) {
			ops := ops
			sortOps(ops)
			a.Go("caller", func() {
				for _, o := range ops {
					a.at(t0, o.At)
					m := msgs[o.a(1)]
					srv.Query(&net.UDPAddr{IP: net.IP(m.peer.IP), Port: m.peer.Port},
						krpc.NewBaseRequest(m.t, m.typ, misc.Dict{"id": "L123456789L123456789", "mark": "q" + m.t}, func(c *krpc.RpcContext) { handler(c, "query "+m.t, m) }))
				}
			})
		}
		if !a.wait(60 * sec) {
			x.Fail("P16", "stuck", "Query does not return:%s", a.stuck())
			return false
		}
		x.calm()
		x.W.WaitUntil(20*sec+cost*int64(len(msgs)+1), 5*ms, func() bool { return !a.P.Alive() || over() })
		sim.Sleep(100*ms + 2*cost)
		return !a.died("P16")
	}
	end := int64(1) << 62
	if late > 0 {
		if !play(0, late) {
			return
		}
		if over() {
			more := x.W.GoClient(a.P, "more", func() { use(nReq, len(reqMW), nRsp, len(rspMW)) })
			x.W.WaitUntil(10*sec, ms, func() bool { return more.Dead() || !a.P.Alive() })
			nReq, nRsp = len(reqMW), len(rspMW)
		}
	}
	if !play(late, end) {
		return
	}
	sent, sentErr := map[string][]string{}, map[string]int{}
	for _, p := range x.Net.Sent {
		if d, ok := bdict(p.Data); ok {
			if y, _ := d.str("y"); y != "q" {
				t, _ := d.str("t")
				r, _ := d.dict("r")
				mk, _ := r.str("mark")
				if l, ok := d.list("e"); y == "e" && ok && len(l) == 2 {
					mk, _ = l[1].(string)
					sentErr[t]++
				}
				sent[t] = append(sent[t], mk)
			}
		}
	}
	n := 0
	for _, m := range msgs {
		if !m.read {
			continue
		}
		if m.trace != m.want {
			x.Fail("P16", "order", "message %q ran its chain as %q, the registered chain is %q", m.t, m.trace, m.want)
			continue
		}
		if m.badCtx != "" {
			x.Fail("P16", "context", "%s", m.badCtx)
		}
		n++
		if m.resp {
			continue
		}
		if m.fail > 1 { // it may be answered with an error, or not
			if s := sent[m.t]; len(s) > 1 || len(s) != sentErr[m.t] {
				x.Fail("P16", "reply-failed", "message %q, whose chain panicked, was answered with %q", m.t, s)
			}
			continue
		}
		if m.fail == 1 {
			if s := sent[m.t]; len(s) != 1 || sentErr[m.t] != 1 || s[0] == m.last {
				x.Fail("P16", "reply-failed", "message %q, whose chain panicked with a protocol error, was answered with %q", m.t, s)
			}
			continue
		}
		if s := sent[m.t]; len(s) != 1 || s[0] != m.last {
			x.Fail("P16", "reply", "message %q was answered with %q, the last response written is %q", m.t, s, m.last)
		}
	}
	x.Nontrivial = n > 0 && len(reqMW)+len(rspMW) > 0
	x.Count("messages", int64(n))
	_ = mw{}
}

func init() {
	register(&Scenario{Name: "udp", Props: []string{"P19", "P21"}, Gen: genUDP, Run: runUDP, Race: true,
		Rule: "at least one datagram was delivered"})
	register(&Scenario{Name: "rpcclient", Props: []string{"P03", "P21"}, Gen: genRPCClient, Run: runRPCClient, Race: true,
		Rule: "at least one response handler ran"})
	register(&Scenario{Name: "middleware", Props: []string{"P16", "P21"}, Gen: genMiddleware, Run: runMiddleware, Race: true,
		Rule: "at least one message ran through a chain with a middleware"})
}
