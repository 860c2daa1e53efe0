package sim

import (
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"unsafe"
)

// Addr is a transport address; IP holds the raw 4 or 16 bytes.
type Addr struct {
	IP   string
	Port int
}

func (a Addr) String() string {
	return net.JoinHostPort(net.IP(a.IP).String(), strconv.Itoa(a.Port))
}

// IP4 makes the raw form of a dotted address.
func IP4(s string) string {
	ip := net.ParseIP(s)
	if v4 := ip.To4(); v4 != nil {
		return string(v4)
	}
	return string(ip)
}

// NormIP folds an IPv4-mapped address to four bytes.
func NormIP(ip net.IP) string {
	if v4 := ip.To4(); v4 != nil {
		return string(v4)
	}
	return string(ip)
}

// Host is a machine: addresses, sockets and a file system.
type Host struct {
	Name string
	IP   string
	FS   *FS
	n    *Net
	udp  []*UDPSock
	tcp  []*TCPListener
	next int
}

// NetCfg holds the fault rates of a run; all zero is a perfect network.
type NetCfg struct {
	MinDelay int64
	Jitter   int64
	Drop     float64
	Dup      float64
	Reorder  float64 // chance of an extra delay of several round trips
	SendErr  float64 // chance that a UDP send fails locally
	RecvErr  float64 // chance that a UDP read fails before data is taken
	RecvBuf  int     // datagrams a socket queues
	SndBuf   int     // bytes a TCP sender may have unread
	SegP     float64 // chance that a TCP write is cut at a random place, repeatedly
}

type Net struct {
	w     *World
	Cfg   NetCfg
	hosts []*Host
	parts []part
	Sent  []Pkt // UDP datagrams handed to the network by real sockets
	Rcvd  []Pkt // UDP datagrams real sockets read
	Keep  bool
	// OnSent and OnRcvd see each record as it is made.
	OnSent, OnRcvd func(p *Pkt)
	Conns          []*TCPEnd // every TCP connection end dialled by the code under test
	Dials          []DialRec
	DNS            []dnsEnt
	sends          int
}

type dnsEnt struct{ name, ip string }

type part struct{ a, b *Host }

// Pkt is a recorded datagram.
type Pkt struct {
	At       int64
	From, To Addr
	Data     []byte
	Err      string
	Dropped  bool
}

// DialRec is a recorded connection attempt.
type DialRec struct {
	At   int64
	To   string
	Res  string
	End  *TCPEnd
	Done int64
}

func newNet(w *World) *Net {
	return &Net{w: w, Cfg: NetCfg{MinDelay: 1_000_000, RecvBuf: 4096, SndBuf: 256 << 10}}
}

func (n *Net) AddHost(name, ip string) *Host {
	h := &Host{Name: name, IP: IP4(ip), n: n, next: 40000}
	n.hosts = sPush(n.hosts, h)
	return h
}

func (n *Net) AddName(name, ip string) { n.DNS = sPush(n.DNS, dnsEnt{name, IP4(ip)}) }

func (n *Net) Lookup(name string) (string, bool) {
	for _, e := range n.DNS {
		if e.name == name {
			return e.ip, true
		}
	}
	return "", false
}

func (n *Net) host(ip string) *Host {
	for _, h := range n.hosts {
		if h.IP == ip {
			return h
		}
	}
	return nil
}

// Partition cuts a from b (both ways); Heal restores everything.
func (n *Net) Partition(a, b *Host) {
	n.parts = sPush(n.parts, part{a, b})
	n.w.Faults.Add("partition", 1)
}
func (n *Net) Heal() { n.parts = nil }
func (n *Net) cut(a, b *Host) bool {
	for _, p := range n.parts {
		if p.a == a && p.b == b || p.a == b && p.b == a {
			return true
		}
		if p.b == nil && (p.a == a || p.a == b) {
			return true
		}
	}
	return false
}

func isLoop(ip string) bool { return len(ip) == 4 && ip[0] == 127 }
func isAny(ip string) bool {
	for i := 0; i < len(ip); i++ {
		if ip[i] != 0 {
			return false
		}
	}
	return true
}

// ---- UDP ----

type dgram struct {
	from Addr
	b    []byte
}

type UDPSock struct {
	failNext, failSend int
	h                  *Host
	Local              Addr
	q                  []dgram
	closed             bool
	rq                 WaitQ
	rdl                int64
	rdlEv              *Event
	Handler            func(from Addr, b []byte)
	p                  *Proc
	Dropped            int
	Reads              int
	Writes             int
	NClose             int
	Remote             *Addr
}

var ErrClosed = net.ErrClosed

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Is(t error) bool { return t == os.ErrDeadlineExceeded }

var ErrTimeout error = timeoutErr{}

func sysErr(name string, e syscall.Errno) error { return &os.SyscallError{Syscall: name, Err: e} }

func (h *Host) port() int {
	h.next++
	return h.next
}

// BindUDP opens a socket on h. port 0 picks one.
func (h *Host) BindUDP(ip string, port int) (*UDPSock, error) {
	if port == 0 {
		port = h.port()
	}
	for _, s := range h.udp {
		if s.Local.Port == port && !s.closed && (s.Local.IP == ip || isAny(ip) || isAny(s.Local.IP)) {
			return nil, sysErr("bind", syscall.EADDRINUSE)
		}
	}
	if ip != "" && !isAny(ip) && ip != h.IP && !isLoop(ip) {
		return nil, sysErr("bind", syscall.EADDRNOTAVAIL)
	}
	s := &UDPSock{h: h, Local: Addr{ip, port}}
	h.udp = sPush(h.udp, s)
	if cur != nil && cur.P != nil {
		s.p = cur.P
		cur.P.conns = sPush[closer](cur.P.conns, s)
	}
	return s, nil
}

func (s *UDPSock) procGone() {
	s.drop()
}

func (s *UDPSock) drop() {
	if s.closed {
		return
	}
	s.closed = true
	s.q = nil
	out := s.h.udp[:0]
	for _, x := range s.h.udp {
		if x != s {
			out = sPush(out, x)
		}
	}
	s.h.udp = out
	s.rq.WakeAll(1)
}

// NSocks counts the open sockets and listeners of h.
func (h *Host) NSocks() int {
	n := len(h.udp)
	for _, l := range h.tcp {
		if !l.closed {
			n++
		}
	}
	return n
}

// UDP is the open socket on a port, if any.
func (h *Host) UDP(port int) *UDPSock {
	for _, s := range h.udp {
		if s.Local.Port == port && !s.closed {
			return s
		}
	}
	return nil
}

// TCP finds the listener on a port.
func (h *Host) TCP(port int) *TCPListener {
	for _, l := range h.tcp {
		if l.Local.Port == port && !l.closed {
			return l
		}
	}
	return nil
}

func (s *UDPSock) IsClosed() bool { return s.closed }
func (s *UDPSock) Queued() int    { return len(s.q) }
func (s *UDPSock) Host() *Host    { return s.h }
func (s *UDPSock) Addr() Addr     { return s.src() }

// Close closes the socket from the code under test.
func (s *UDPSock) Close() error {
	enter()
	if s.closed {
		return ErrClosed
	}
	s.NClose++
	w.Log("udpclose", uint64(s.Local.Port))
	s.drop()
	return nil
}

func (s *UDPSock) src() Addr {
	ip := s.Local.IP
	if isAny(ip) {
		ip = s.h.IP
	}
	return Addr{ip, s.Local.Port}
}

// Send transmits from the code under test.
func (s *UDPSock) Send(b []byte, to Addr) (int, error) {
	enter()
	if len(b) > 0 {
		raceRead(unsafe.Pointer(&b[0]), len(b))
	}
	if s.closed {
		return 0, ErrClosed
	}
	n := s.h.n
	rec := Pkt{At: n.w.Now(), From: s.src(), To: to}
	if n.Keep {
		rec.Data = append([]byte(nil), b...)
	}
	var err error
	switch {
	case to.Port == 0:
		err = sysErr("sendto", syscall.EINVAL)
	case to.IP == "\xff\xff\xff\xff":
		err = sysErr("sendto", syscall.EACCES)
	case len(b) > 65507:
		err = sysErr("sendto", syscall.EMSGSIZE)
	case s.failSend > 0:
		s.failSend--
		n.w.Faults.Add("udp_send_error", 1)
		err = sysErr("sendto", syscall.ENETUNREACH)
	case n.w.Ch.Prob(n.Cfg.SendErr):
		n.w.Faults.Add("udp_send_error", 1)
		err = sysErr("sendto", syscall.ENOBUFS)
	}
	s.Writes++
	if err != nil {
		rec.Err = err.Error()
		n.keep(rec)
		n.w.Log("udpsenderr", uint64(to.Port))
		return 0, err
	}
	rec.Dropped = !n.transmit(s.h, s.src(), to, append([]byte(nil), b...))
	n.keep(rec)
	return len(b), nil
}

func (n *Net) keep(p Pkt) {
	if n.Keep {
		n.Sent = sPush(n.Sent, p)
		if n.OnSent != nil {
			n.OnSent(&n.Sent[len(n.Sent)-1])
		}
	}
}

// Inject sends a datagram from anywhere (a scripted peer).
func (n *Net) Inject(from, to Addr, b []byte) {
	n.transmit(n.host(from.IP), from, to, append([]byte(nil), b...))
}

// InjectClean sends without loss, duplication or extra delay.
func (n *Net) InjectClean(from, to Addr, b []byte) {
	n.deliverAfter(n.Cfg.MinDelay, n.host(from.IP), from, to, append([]byte(nil), b...))
}

func (n *Net) transmit(fh *Host, from, to Addr, b []byte) bool {
	c := &n.Cfg
	n.w.Log("udpsend", uint64(from.Port), uint64(to.Port), uint64(len(b)), hashBytes(b))
	if n.w.Ch.Prob(c.Drop) {
		n.w.Faults.Add("msg_drop", 1)
		return false
	}
	k := 1
	if n.w.Ch.Prob(c.Dup) {
		n.w.Faults.Add("msg_dup", 1)
		k = 2
	}
	for i := 0; i < k; i++ {
		d := c.MinDelay
		if c.Jitter > 0 {
			d += int64(n.w.Ch.N(1000)) * c.Jitter / 1000
		}
		if n.w.Ch.Prob(c.Reorder) {
			n.w.Faults.Add("msg_delay", 1)
			d += int64(1+n.w.Ch.N(1000)) * (20*c.MinDelay + 4*c.Jitter) / 1000
		}
		n.deliverAfter(d, fh, from, to, b)
	}
	return true
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func (n *Net) deliverAfter(d int64, fh *Host, from, to Addr, b []byte) {
	n.w.After(d, func() {
		ip := to.IP
		if isLoop(ip) || isAny(ip) {
			if fh != nil {
				ip = fh.IP
			}
		}
		h := n.host(ip)
		if h == nil {
			return
		}
		if fh != nil && n.cut(fh, h) {
			n.w.Faults.Add("partition_drop", 1)
			return
		}
		for _, s := range h.udp {
			if s.Local.Port == to.Port && !s.closed {
				s.deliver(from, b)
				return
			}
		}
	})
}

func (s *UDPSock) deliver(from Addr, b []byte) {
	n := s.h.n
	if s.Handler != nil {
		n.w.Log("udppeer", uint64(from.Port), uint64(len(b)))
		s.Handler(from, append([]byte(nil), b...))
		return
	}
	if len(s.q) >= n.Cfg.RecvBuf {
		s.Dropped++
		n.w.Faults.Add("udp_buffer_overflow", 1)
		return
	}
	n.w.Log("udpq", uint64(from.Port), uint64(s.Local.Port), uint64(len(b)))
	s.q = sPush(s.q, dgram{from, append([]byte(nil), b...)})
	s.rq.Wake(1)
}

// FailSends makes the next n sends fail; 0 ends that.
func (s *UDPSock) FailSends(n int) { s.failSend = n }

// FailReads makes the next n reads fail, whether or not data is there.
func (s *UDPSock) FailReads(n int) {
	if !s.closed {
		s.failNext += n
		s.rq.Wake(1)
	}
}

// Recv blocks for a datagram.
func (s *UDPSock) Recv(buf []byte) (int, Addr, error) {
	enter()
	for {
		if s.closed {
			return 0, Addr{}, ErrClosed
		}
		if s.rdl != 0 && w.Now() >= s.rdl {
			return 0, Addr{}, ErrTimeout
		}
		if len(s.q) > 0 || s.failNext > 0 {
			break
		}
		s.rq.Wait("udp read")
	}
	if s.failNext > 0 {
		s.failNext--
		w.Faults.Add("udp_recv_error", 1)
		return 0, Addr{}, sysErr("recvfrom", syscall.ECONNREFUSED)
	}
	if w.Ch.Prob(s.h.n.Cfg.RecvErr) {
		w.Faults.Add("udp_recv_error", 1)
		return 0, Addr{}, sysErr("recvfrom", syscall.ECONNREFUSED)
	}
	d := s.q[0]
	s.q = s.q[1:]
	if len(buf) > 0 {
		raceWrite(unsafe.Pointer(&buf[0]), len(buf))
	}
	m := copy(buf, d.b)
	s.Reads++
	w.Log("udpread", uint64(d.from.Port), uint64(m))
	if n := s.h.n; n.Keep {
		n.Rcvd = sPush(n.Rcvd, Pkt{At: w.Now(), From: d.from, To: s.src(), Data: d.b})
		if n.OnRcvd != nil {
			n.OnRcvd(&n.Rcvd[len(n.Rcvd)-1])
		}
	}
	return m, d.from, nil
}

func (s *UDPSock) SetReadDeadline(t int64) {
	s.rdl = t
	w.Cancel(s.rdlEv)
	if t != 0 {
		d := t - w.Now()
		s.rdlEv = w.After(d, func() { s.rq.WakeAll(1) })
	}
}

// ---- TCP ----

type TCPListener struct {
	h      *Host
	Local  Addr
	closed bool
	q      []*TCPEnd
	aq     WaitQ
	OnConn func(c *TCPEnd) // event driven (scripted peer)
	Behave int             // 0 accept, 1 refuse, 2 blackhole
	Delay  int64
	p      *Proc
}

func (h *Host) ListenTCP(ip string, port int) (*TCPListener, error) {
	if port == 0 {
		port = h.port()
	}
	for _, l := range h.tcp {
		if l.Local.Port == port && !l.closed {
			return nil, sysErr("bind", syscall.EADDRINUSE)
		}
	}
	l := &TCPListener{h: h, Local: Addr{ip, port}}
	h.tcp = sPush(h.tcp, l)
	if cur != nil && cur.P != nil {
		l.p = cur.P
		cur.P.conns = sPush[closer](cur.P.conns, l)
	}
	return l, nil
}

func (l *TCPListener) procGone() { l.drop() }
func (l *TCPListener) drop() {
	if l.closed {
		return
	}
	l.closed = true
	out := l.h.tcp[:0]
	for _, x := range l.h.tcp {
		if x != l {
			out = sPush(out, x)
		}
	}
	l.h.tcp = out
	l.aq.WakeAll(1)
}
func (l *TCPListener) Close() error {
	enter()
	if l.closed {
		return ErrClosed
	}
	l.drop()
	return nil
}
func (l *TCPListener) Accept() (*TCPEnd, error) {
	enter()
	for len(l.q) == 0 {
		if l.closed {
			return nil, ErrClosed
		}
		l.aq.Wait("accept")
	}
	c := l.q[0]
	l.q = l.q[1:]
	if cur.P != nil {
		c.p = cur.P
		cur.P.conns = sPush[closer](cur.P.conns, c)
	}
	return c, nil
}

// TCPEnd is one end of a connection.
type TCPEnd struct {
	n             *Net
	h             *Host
	Local, Remote Addr
	peer          *TCPEnd
	rx            []byte
	eof, rst      bool
	Closed        bool
	ClosedAt      int64
	OpenedAt      int64
	inflight      int // bytes sent and not yet read by the peer
	lastAt        int64
	held          []seg
	rq, wq        WaitQ
	rdl, wdl      int64
	rev, wev      *Event
	finSent       bool
	p             *Proc
	// scripted end
	OnData  func(b []byte)
	OnEnd   func(reset bool)
	Paused  bool // scripted end does not read: the sender's window fills
	NRead   int
	NWrite  int
	RdlSet  bool
	edge    int64
	NCloses int
}

func (e *TCPEnd) isCb() bool { return e.OnData != nil || e.OnEnd != nil }

// DialTCP connects from the current process; deadline 0 = none.
func (h *Host) DialTCP(to Addr, deadline int64) (*TCPEnd, error) {
	g := enter()
	n := h.n
	rec := len(n.Dials)
	n.Dials = sPush(n.Dials, DialRec{At: w.Now(), To: to.String()})
	w.Log("dial", uint64(to.Port), hashBytes([]byte(to.IP)))
	fin := func(res string, e *TCPEnd) {
		n.Dials[rec].Res = res
		n.Dials[rec].End = e
		n.Dials[rec].Done = w.Now()
	}
	if to.Port <= 0 || to.Port > 65535 || isAny(to.IP) && h == nil {
		fin("invalid", nil)
		return nil, sysErr("connect", syscall.ECONNREFUSED)
	}
	d := n.Cfg.MinDelay
	if n.Cfg.Jitter > 0 {
		d += int64(w.Ch.N(1000)) * n.Cfg.Jitter / 1000
	}
	var res struct {
		done bool
		end  *TCPEnd
		err  error
	}
	ip := to.IP
	if isLoop(ip) || isAny(ip) {
		ip = h.IP
	}
	wakeup := func() {
		if g.state == gBlocked && g.why == "connect" {
			w.makeReady(g)
		}
	}
	w.After(2*d, func() {
		if res.done {
			return
		}
		rh := n.host(ip)
		if rh == nil || n.cut(h, rh) {
			return // SYN lost: times out
		}
		var l *TCPListener
		for _, x := range rh.tcp {
			if x.Local.Port == to.Port && !x.closed {
				l = x
			}
		}
		if l != nil && l.Behave == 2 {
			return
		}
		if l == nil || l.Behave == 1 {
			w.Faults.Add("tcp_refused", 1)
			res.done, res.err = true, sysErr("connect", syscall.ECONNREFUSED)
			wakeup()
			return
		}
		a := &TCPEnd{n: n, h: h, Local: Addr{h.IP, h.port()}, Remote: to, OpenedAt: w.Now()}
		b := &TCPEnd{n: n, h: rh, Local: to, Remote: a.Local, OpenedAt: w.Now()}
		a.peer, b.peer = b, a
		res.done, res.end = true, a
		n.Conns = sPush(n.Conns, a)
		if l.OnConn != nil {
			l.OnConn(b)
		} else {
			l.q = sPush(l.q, b)
			l.aq.Wake(1)
		}
		wakeup()
	})
	var dl *Event
	if deadline != 0 {
		dl = w.After(deadline-w.Now(), func() {
			if !res.done {
				w.Faults.Add("tcp_connect_timeout", 1)
				res.done, res.err = true, ErrTimeout
				wakeup()
			}
		})
	} else {
		// the kernel gives up after about two minutes
		dl = w.After(127e9, func() {
			if !res.done {
				res.done, res.err = true, sysErr("connect", syscall.ETIMEDOUT)
				wakeup()
			}
		})
	}
	for !res.done {
		w.block(g, "connect")
	}
	w.Cancel(dl)
	if res.err != nil {
		fin(res.err.Error(), nil)
		return nil, res.err
	}
	if cur.P != nil {
		res.end.p = cur.P
		cur.P.conns = sPush[closer](cur.P.conns, res.end)
	}
	fin("ok", res.end)
	return res.end, nil
}

func (e *TCPEnd) procGone() {
	if !e.Closed {
		e.closeNow()
	}
}

// push schedules delivery of b (nil = FIN) to the other end, in order.
func (e *TCPEnd) push(b []byte, extra int64, kind int) {
	n := e.n
	d := n.Cfg.MinDelay + extra
	if n.Cfg.Jitter > 0 {
		d += int64(n.w.Ch.N(1000)) * n.Cfg.Jitter / 1000
	}
	at := n.w.Now() + d
	if at < e.lastAt {
		at = e.lastAt
	}
	e.lastAt = at
	n.w.At(at, func() { e.flush(b, kind) })
}

type seg struct {
	b    []byte
	kind int
}

// flush delivers one segment, or keeps it (in order) while the path is cut.
func (e *TCPEnd) flush(b []byte, kind int) {
	n := e.n
	if len(e.held) == 0 && !n.cut(e.h, e.peer.h) {
		e.peer.arrive(b, kind)
		return
	}
	e.held = sPush(e.held, seg{b, kind})
	if len(e.held) == 1 {
		n.w.Faults.Add("tcp_retransmit", 1)
		var retry func()
		retry = func() {
			if n.cut(e.h, e.peer.h) {
				n.w.After(200e6, retry)
				return
			}
			h := e.held
			e.held = nil
			for _, s := range h {
				e.peer.arrive(s.b, s.kind)
			}
		}
		n.w.After(200e6, retry)
	}
}

// At schedules fn at an absolute virtual time.
func (w *World) At(t int64, fn func()) *Event { return w.at(t, fn) }

const (
	segData = iota
	segFin
	segRst
)

func (e *TCPEnd) arrive(b []byte, kind int) {
	n := e.n
	n.w.Log("tcp", uint64(kind), uint64(e.Local.Port), uint64(len(b)))
	switch kind {
	case segFin:
		e.eof = true
		if e.OnEnd != nil {
			e.OnEnd(false)
		}
	case segRst:
		e.rst = true
		e.rx = nil
		if e.OnEnd != nil {
			e.OnEnd(true)
		}
		e.wq.WakeAll(1)
	default:
		if e.Closed {
			if !e.isCb() {
				// data after close: the kernel answers RST
				e.push(nil, 0, segRst)
			}
			return
		}
		if e.OnData != nil && !e.Paused {
			e.peer.inflight -= len(b)
			e.peer.wq.WakeAll(1)
			e.OnData(append([]byte(nil), b...))
			return
		}
		e.rx = append(e.rx, b...)
	}
	e.rq.WakeAll(1)
}

// Read is for the code under test.
func (e *TCPEnd) Read(buf []byte) (int, error) {
	enter()
	e.NRead++
	for {
		if e.Closed {
			return 0, ErrClosed
		}
		if e.rdl != 0 && w.Now() >= e.rdl {
			return 0, ErrTimeout
		}
		if len(buf) == 0 {
			return 0, nil
		}
		if e.rst {
			return 0, sysErr("read", syscall.ECONNRESET)
		}
		if len(e.rx) > 0 {
			break
		}
		if e.eof {
			return 0, errEOF
		}
		e.rq.Wait("tcp read")
	}
	raceWrite(unsafe.Pointer(&buf[0]), len(buf))
	m := copy(buf, e.rx)
	e.rx = e.rx[m:]
	if len(e.rx) == 0 {
		e.rx = nil
	}
	e.peer.inflight -= m
	e.peer.wq.WakeAll(1)
	RaceAcquire(unsafe.Pointer(&e.edge))
	w.Log("tcpread", uint64(e.Local.Port), uint64(m))
	return m, nil
}

var errEOF = io.EOF

// Write is for the code under test.
func (e *TCPEnd) Write(b []byte) (int, error) {
	enter()
	e.NWrite++
	RaceReleaseMerge(unsafe.Pointer(&e.peer.edge))
	if len(b) > 0 {
		raceRead(unsafe.Pointer(&b[0]), len(b))
	}
	total := 0
	for len(b) > 0 {
		if e.Closed {
			return total, ErrClosed
		}
		if e.rst {
			return total, sysErr("write", syscall.EPIPE)
		}
		if e.wdl != 0 && w.Now() >= e.wdl {
			return total, ErrTimeout
		}
		room := e.n.Cfg.SndBuf - e.inflight
		if room <= 0 {
			e.wq.Wait("tcp write")
			continue
		}
		k := len(b)
		if k > room {
			k = room
		}
		e.send(append([]byte(nil), b[:k]...))
		b = b[k:]
		total += k
	}
	return total, nil
}

func (e *TCPEnd) send(b []byte) {
	e.inflight += len(b)
	for len(b) > 0 {
		k := len(b)
		if k > 1 && e.n.w.Ch.Prob(e.n.Cfg.SegP) {
			k = 1 + e.n.w.Ch.N(k-1)
			e.n.w.Faults.Add("tcp_segment", 1)
		}
		e.push(b[:k], 0, segData)
		b = b[k:]
	}
}

// Close is for the code under test.
func (e *TCPEnd) Close() error {
	enter()
	e.NCloses++
	if e.Closed {
		return ErrClosed
	}
	e.closeNow()
	return nil
}

func (e *TCPEnd) closeNow() {
	e.Closed = true
	e.ClosedAt = e.n.w.Now()
	e.n.w.Log("tcpclose", uint64(e.Local.Port))
	if len(e.rx) > 0 {
		e.push(nil, 0, segRst) // unread data: RST
	} else if !e.finSent {
		e.finSent = true
		e.push(nil, 0, segFin)
	}
	e.rq.WakeAll(1)
	e.wq.WakeAll(1)
}

func (e *TCPEnd) CloseWrite() error {
	enter()
	if e.Closed {
		return ErrClosed
	}
	if !e.finSent {
		e.finSent = true
		e.push(nil, 0, segFin)
	}
	return nil
}

func (e *TCPEnd) SetReadDeadline(t int64) {
	e.rdl = t
	w.Cancel(e.rev)
	if t != 0 {
		e.rev = w.After(t-w.Now(), func() { e.rq.WakeAll(1) })
	} else {
		e.rq.WakeAll(1)
	}
}
func (e *TCPEnd) SetWriteDeadline(t int64) {
	e.wdl = t
	w.Cancel(e.wev)
	if t != 0 {
		e.wev = w.After(t-w.Now(), func() { e.wq.WakeAll(1) })
	} else {
		e.wq.WakeAll(1)
	}
}

// ---- scripted end ----

// PeerSend transmits from a scripted end; segs cuts b at the given offsets,
// with gap ns between pieces.
func (e *TCPEnd) PeerSend(b []byte, segs []int, gap int64) {
	if e.Closed || e.rst {
		return
	}
	prev := 0
	cuts := append(append([]int(nil), segs...), len(b))
	extra := int64(0)
	for _, c := range cuts {
		if c <= prev || c > len(b) {
			continue
		}
		e.inflight += c - prev
		e.push(append([]byte(nil), b[prev:c]...), extra, segData)
		prev = c
		extra += gap
	}
	if len(segs) > 0 {
		e.n.w.Faults.Add("tcp_segment", int64(len(segs)))
	}
}

func (e *TCPEnd) PeerClose() {
	if e.Closed {
		return
	}
	e.Closed = true
	e.push(nil, 0, segFin)
}

func (e *TCPEnd) PeerReset() {
	if e.Closed {
		return
	}
	e.Closed = true
	e.n.w.Faults.Add("tcp_reset", 1)
	e.push(nil, 0, segRst)
}

// Peer returns the other end.
func (e *TCPEnd) Peer() *TCPEnd { return e.peer }
