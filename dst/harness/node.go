package harness

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/GalaIO/P2Pcrawler/zzmain"

	"verif/dst/sim"
)

// Node is the whole real program running as a simulated process.
type Node struct {
	x    *X
	H    *sim.Host
	P    *sim.Proc
	Addr sim.Addr
	Cfg  NodeCfg
	Args []string
}

// NewNodeHost prepares a machine with a configuration file.
func (x *X) NewNodeHost(cfg NodeCfg) *Node {
	h := x.Net.AddHost("node", "10.0.0.1")
	if cfg.Level == "" {
		cfg.Level = levels[int(x.n("level"))%len(levels)]
	}
	fs := h.NewFS()
	fs.PreloadDir("/")
	fs.Preload("/conf/config.json", cfg.JSON())
	if x.prepFS != nil {
		x.prepFS(fs)
	}
	fs.SyncAll()
	return &Node{x: x, H: h, Cfg: cfg, Addr: sim.Addr{IP: h.IP, Port: cfg.Port}}
}

// Start runs the program's main.
func (n *Node) Start() *sim.Proc {
	n.P = n.x.W.Spawn("p2pcrawler", n.H, func() {
		enterProcess(nil, n.Args...)
		zzmain.Main()
	})
	return n.P
}

// crashed explains an abnormal end of the node process.
func (n *Node) crashed() (string, bool) {
	if n.P == nil || n.P.Alive() {
		return "", false
	}
	if n.P.How == "panic" || n.P.How == "fatal" {
		return fmt.Sprintf("the process died (%s): %s\n%s", n.P.How, n.P.PanicV, n.P.PanicSt), true
	}
	return fmt.Sprintf("the process ended (%s, code %d)", n.P.How, n.P.Code), true
}

// DPeer is a scripted DHT peer.
type DPeer struct {
	x    *X
	Host *sim.Host
	Sock *sim.UDPSock
	Addr sim.Addr
	ID   string
	// On is called for every datagram received.
	On   func(from sim.Addr, b []byte)
	Got  []sim.Pkt
	auto bool
}

// NewDPeer makes a peer on a new machine.
func (x *X) NewDPeer(name, ip string, port int, id string) *DPeer {
	h := x.Net.AddHost(name, ip)
	return x.NewDPeerOn(h, port, id)
}

func (x *X) NewDPeerOn(h *sim.Host, port int, id string) *DPeer {
	s, err := h.BindUDP(h.IP, port)
	if err != nil {
		panic(err)
	}
	p := &DPeer{x: x, Host: h, Sock: s, Addr: sim.Addr{IP: h.IP, Port: port}, ID: id}
	s.Handler = func(from sim.Addr, b []byte) {
		p.Got = append(p.Got, sim.Pkt{At: x.W.Now(), From: from, To: p.Addr, Data: b})
		if p.On != nil {
			p.On(from, b)
		}
	}
	return p
}

func (p *DPeer) Send(to sim.Addr, b []byte)      { p.x.Net.Inject(p.Addr, to, b) }
func (p *DPeer) SendClean(to sim.Addr, b []byte) { p.x.Net.InjectClean(p.Addr, to, b) }

func id20(r *sim.Rand) string { return string(r.Bytes(20)) }

func compactNode(id string, a sim.Addr) string {
	var b [2]byte
	binary.BigEndian.PutUint16(b[:], uint16(a.Port))
	return id + a.IP + string(b[:])
}

func query(t, q string, a D) []byte { return []byte(benc(D{"t": t, "y": "q", "q": q, "a": a})) }
func reply(t string, r D) []byte    { return []byte(benc(D{"t": t, "y": "r", "r": r})) }

// isQuery decodes a find_node or other query the node sent.
func isQuery(b []byte) (t, q string, a D, ok bool) {
	d, good := bdict(b)
	if !good {
		return
	}
	if y, _ := d.str("y"); y != "q" {
		return
	}
	t, ok1 := d.str("t")
	q, ok2 := d.str("q")
	a, ok3 := d.dict("a")
	return t, q, a, ok1 && ok2 && ok3
}

// waitUp waits until the node answers pings on a quiet network.
func (n *Node) waitUp(probe *DPeer, limit int64) bool {
	x := n.x
	k := 0
	got := false
	// answers of earlier processes may still be on their way
	x.ups++
	mark := fmt.Sprintf("UP%d.", x.ups)
	probe.On = func(from sim.Addr, b []byte) {
		if d, ok := bdict(b); ok {
			if t, _ := d.str("t"); strings.HasPrefix(t, mark) {
				got = true
			}
		}
	}
	next := int64(0)
	ok := x.W.WaitUntil(limit, 2*ms, func() bool {
		if got || !n.P.Alive() {
			return true
		}
		if x.W.Now() >= next {
			k++
			probe.SendClean(n.Addr, query(fmt.Sprintf("%s%d", mark, k), "ping", D{"id": "01234567890123456789"}))
			next = x.W.Now() + 50*ms + 2*x.Net.Cfg.MinDelay
		}
		return false
	})
	probe.On = nil
	return ok && got
}
