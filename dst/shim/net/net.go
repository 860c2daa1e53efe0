// Package net is the simulated network under the names of package net.
package net

import (
	"context"
	"io"
	real "net"
	"net/netip"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/dst/sim"
)

func host() *sim.Host {
	p := sim.CurProc()
	if p == nil || p.Host == nil {
		panic("sim: network use outside a host")
	}
	return p.Host
}

func deadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(until(t))
	n := sim.W().Now() + d
	if n <= 0 {
		n = 1
	}
	return n
}

func until(t time.Time) time.Duration { return t.Sub(now()) }

func oerr(op, network string, src, dst real.Addr, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	return &real.OpError{Op: op, Net: network, Source: src, Addr: dst, Err: err}
}

func udpAddr(a sim.Addr) *real.UDPAddr {
	ip := real.IP(a.IP)
	if len(a.IP) == 4 {
		ip = real.IPv4(a.IP[0], a.IP[1], a.IP[2], a.IP[3])
	}
	return &real.UDPAddr{IP: ip, Port: a.Port}
}
func tcpAddr(a sim.Addr) *real.TCPAddr {
	u := udpAddr(a)
	return &real.TCPAddr{IP: u.IP, Port: u.Port}
}

func resolve(network, s string) (string, int, error) {
	h, p, err := real.SplitHostPort(s)
	if err != nil {
		return "", 0, err
	}
	port := 0
	if p != "" {
		n, err := strconv.Atoi(p)
		if err != nil {
			return "", 0, &real.DNSError{Err: "unknown port", Name: network + "/" + p, IsNotFound: true}
		}
		if n < 0 || n > 65535 {
			return "", 0, &real.AddrError{Err: "invalid port", Addr: p}
		}
		port = n
	}
	if h == "" {
		return "", port, nil
	}
	if i := strings.IndexByte(h, '%'); i >= 0 {
		h = h[:i]
	}
	if ip := real.ParseIP(h); ip != nil {
		if strings.HasSuffix(network, "4") && ip.To4() == nil {
			return "", 0, &real.AddrError{Err: "no suitable address found", Addr: h}
		}
		return sim.NormIP(ip), port, nil
	}
	if h == "localhost" {
		return "\x7f\x00\x00\x01", port, nil
	}
	sim.Sleep(2e6) // a resolver takes time
	if ip, ok := sim.W().Net.Lookup(h); ok {
		return ip, port, nil
	}
	return "", 0, &real.DNSError{Err: "no such host", Name: h, IsNotFound: true}
}

func ResolveUDPAddr(network, address string) (*real.UDPAddr, error) {
	switch network {
	case "udp", "udp4", "udp6":
	default:
		return nil, real.UnknownNetworkError(network)
	}
	ip, port, err := resolve(network, address)
	if err != nil {
		return nil, err
	}
	if ip == "" {
		return &real.UDPAddr{Port: port}, nil
	}
	return udpAddr(sim.Addr{IP: ip, Port: port}), nil
}

func ResolveTCPAddr(network, address string) (*real.TCPAddr, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, real.UnknownNetworkError(network)
	}
	ip, port, err := resolve(network, address)
	if err != nil {
		return nil, err
	}
	if ip == "" {
		return &real.TCPAddr{Port: port}, nil
	}
	return tcpAddr(sim.Addr{IP: ip, Port: port}), nil
}

func LookupHost(h string) ([]string, error) {
	ip, _, err := resolve("ip", real.JoinHostPort(h, "0"))
	if err != nil {
		return nil, err
	}
	return []string{real.IP(ip).String()}, nil
}

func LookupIP(h string) ([]real.IP, error) {
	ip, _, err := resolve("ip", real.JoinHostPort(h, "0"))
	if err != nil {
		return nil, err
	}
	return []real.IP{real.IP(ip)}, nil
}

func InterfaceAddrs() ([]real.Addr, error) {
	return []real.Addr{&real.IPNet{IP: real.IP(host().IP), Mask: real.CIDRMask(24, 32)}}, nil
}

// ---- UDP ----

type UDPConn struct{ s *sim.UDPSock }

func ListenUDP(network string, laddr *real.UDPAddr) (*UDPConn, error) {
	ip, port := "", 0
	if laddr != nil {
		ip, port = sim.NormIP(laddr.IP), laddr.Port
	}
	sim.Y()
	s, err := host().BindUDP(ip, port)
	if err != nil {
		return nil, oerr("listen", network, nil, laddr, err)
	}
	return &UDPConn{s}, nil
}

func DialUDP(network string, laddr, raddr *real.UDPAddr) (*UDPConn, error) {
	c, err := ListenUDP(network, laddr)
	if err != nil {
		return nil, err
	}
	a := sim.Addr{IP: sim.NormIP(raddr.IP), Port: raddr.Port}
	c.s.Remote = &a
	return c, nil
}

func ListenPacket(network, address string) (real.PacketConn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	return ListenUDP(network, a)
}

func (c *UDPConn) ok() bool { return c != nil && c.s != nil }

func (c *UDPConn) Close() error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return oerr("close", "udp", c.LocalAddr(), nil, c.s.Close())
}
func (c *UDPConn) LocalAddr() real.Addr { return udpAddr(c.s.Local) }
func (c *UDPConn) RemoteAddr() real.Addr {
	if c.s.Remote == nil {
		return nil
	}
	return udpAddr(*c.s.Remote)
}
func (c *UDPConn) ReadFromUDP(b []byte) (int, *real.UDPAddr, error) {
	if !c.ok() {
		return 0, nil, syscall.EINVAL
	}
	n, a, err := c.s.Recv(b)
	if err != nil {
		return 0, nil, oerr("read", "udp", c.LocalAddr(), nil, err)
	}
	return n, udpAddr(a), nil
}
func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.ReadFromUDP(b)
	if err != nil {
		return 0, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), nil
}
func (c *UDPConn) ReadFrom(b []byte) (int, real.Addr, error) {
	n, a, err := c.ReadFromUDP(b)
	if err != nil {
		return 0, nil, err
	}
	return n, a, nil
}
func (c *UDPConn) Read(b []byte) (int, error) {
	n, _, err := c.ReadFromUDP(b)
	return n, err
}
func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *real.UDPAddr, err error) {
	n, addr, err = c.ReadFromUDP(b)
	return
}
func (c *UDPConn) WriteToUDP(b []byte, a *real.UDPAddr) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	if a == nil {
		return 0, oerr("write", "udp", c.LocalAddr(), nil, errMissing)
	}
	n, err := c.s.Send(b, sim.Addr{IP: ip4(a.IP), Port: a.Port})
	return n, oerr("write", "udp", c.LocalAddr(), a, err)
}

func ip4(ip real.IP) string {
	if len(ip) == 0 {
		return "\x7f\x00\x00\x01"
	}
	return sim.NormIP(ip)
}
func (c *UDPConn) WriteToUDPAddrPort(b []byte, a netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, real.UDPAddrFromAddrPort(a))
}
func (c *UDPConn) WriteTo(b []byte, a real.Addr) (int, error) {
	u, ok := a.(*real.UDPAddr)
	if !ok {
		return 0, oerr("write", "udp", c.LocalAddr(), a, syscall.EINVAL)
	}
	return c.WriteToUDP(b, u)
}
func (c *UDPConn) Write(b []byte) (int, error) {
	if c.s.Remote == nil {
		return 0, oerr("write", "udp", c.LocalAddr(), nil, errMissing)
	}
	return c.WriteToUDP(b, udpAddr(*c.s.Remote))
}
func (c *UDPConn) WriteMsgUDP(b, oob []byte, a *real.UDPAddr) (int, int, error) {
	n, err := c.WriteToUDP(b, a)
	return n, 0, err
}
func (c *UDPConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *UDPConn) SetReadDeadline(t time.Time) error  { c.s.SetReadDeadline(deadline(t)); return nil }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(n int) error          { return nil }
func (c *UDPConn) SetWriteBuffer(n int) error         { return nil }

type missing struct{}

func (missing) Error() string { return "missing address" }

var errMissing = missing{}

// ---- TCP ----

type TCPConn struct{ e *sim.TCPEnd }

func (c *TCPConn) Read(b []byte) (int, error) {
	n, err := c.e.Read(b)
	return n, oerr("read", "tcp", c.LocalAddr(), c.RemoteAddr(), err)
}
func (c *TCPConn) Write(b []byte) (int, error) {
	n, err := c.e.Write(b)
	return n, oerr("write", "tcp", c.LocalAddr(), c.RemoteAddr(), err)
}
func (c *TCPConn) Close() error {
	return oerr("close", "tcp", c.LocalAddr(), c.RemoteAddr(), c.e.Close())
}
func (c *TCPConn) CloseWrite() error    { return c.e.CloseWrite() }
func (c *TCPConn) CloseRead() error     { return nil }
func (c *TCPConn) LocalAddr() real.Addr { return tcpAddr(c.e.Local) }
func (c *TCPConn) RemoteAddr() real.Addr {
	return tcpAddr(c.e.Remote)
}
func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	sim.Y()
	c.e.RdlSet = true
	c.e.SetReadDeadline(deadline(t))
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	sim.Y()
	c.e.SetWriteDeadline(deadline(t))
	return nil
}
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     real.Addr
	DualStack     bool
	KeepAlive     time.Duration
	FallbackDelay time.Duration
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (real.Conn, error) {
	return d.dial(nil, network, address)
}

// DialContext honours a deadline of ctx; cancellation is seen when it returns.
func (d *Dialer) DialContext(ctx context.Context, network, address string) (real.Conn, error) {
	return d.dial(ctx, network, address)
}

func (d *Dialer) dial(ctx context.Context, network, address string) (real.Conn, error) {
	dl := int64(0)
	set := func(x int64) {
		if x != 0 && (dl == 0 || x < dl) {
			dl = x
		}
	}
	if d.Timeout > 0 {
		set(sim.W().Now() + int64(d.Timeout))
	}
	if !d.Deadline.IsZero() {
		set(deadline(d.Deadline))
	}
	if ctx != nil {
		if t, ok := ctx.Deadline(); ok {
			set(deadline(t))
		}
		if err := ctx.Err(); err != nil {
			return nil, oerr("dial", network, nil, nil, err)
		}
	}
	if strings.HasPrefix(network, "udp") {
		a, err := ResolveUDPAddr(network, address)
		if err != nil {
			return nil, oerr("dial", network, nil, nil, err)
		}
		return DialUDP(network, nil, a)
	}
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, oerr("dial", network, nil, nil, err)
	}
	e, err := host().DialTCP(sim.Addr{IP: ip4(a.IP), Port: a.Port}, dl)
	if err != nil {
		return nil, oerr("dial", network, nil, a, err)
	}
	return &TCPConn{e}, nil
}

func Dial(network, address string) (real.Conn, error) {
	return (&Dialer{}).dial(nil, network, address)
}
func DialTimeout(network, address string, t time.Duration) (real.Conn, error) {
	return (&Dialer{Timeout: t}).dial(nil, network, address)
}
func DialTCP(network string, laddr, raddr *real.TCPAddr) (*TCPConn, error) {
	c, err := (&Dialer{}).dial(nil, network, raddr.String())
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

type TCPListener struct{ l *sim.TCPListener }

func ListenTCP(network string, a *real.TCPAddr) (*TCPListener, error) {
	ip, port := "", 0
	if a != nil {
		ip, port = sim.NormIP(a.IP), a.Port
	}
	l, err := host().ListenTCP(ip, port)
	if err != nil {
		return nil, oerr("listen", network, nil, a, err)
	}
	return &TCPListener{l}, nil
}
func Listen(network, address string) (real.Listener, error) {
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, oerr("listen", network, nil, nil, err)
	}
	return ListenTCP(network, a)
}
func (l *TCPListener) Accept() (real.Conn, error) { return l.AcceptTCP() }
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	e, err := l.l.Accept()
	if err != nil {
		return nil, oerr("accept", "tcp", l.Addr(), nil, err)
	}
	return &TCPConn{e}, nil
}
func (l *TCPListener) Close() error                { return oerr("close", "tcp", l.Addr(), nil, l.l.Close()) }
func (l *TCPListener) Addr() real.Addr             { return tcpAddr(l.l.Local) }
func (l *TCPListener) SetDeadline(time.Time) error { return nil }

// ListenConfig mirrors net.ListenConfig.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (real.Listener, error) {
	return Listen(network, address)
}
func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (real.PacketConn, error) {
	return ListenPacket(network, address)
}
