package harness

import (
	"bytes"
	"encoding/json"
	"fmt"

	"verif/dst/sim"
)

// NW is a world with one real node, the node it bootstraps from and a prober.
type NW struct {
	x     *X
	N     *Node
	Boot  *DPeer
	Probe *DPeer
	// LocalID is the id the node announced in its first query.
	LocalID string
	// bootT is the transaction of the bootstrap query.
	BootT string
	Asks  []ask // queries the node sent, in order
}

// ask is a query the node sent.
type ask struct {
	At     int64
	To     sim.Addr
	T, Q   string
	ID     string
	Target string
	Err    string
}

// quiet runs f on a perfect network.
func (x *X) quiet(f func()) {
	c := x.Net.Cfg
	st := x.W.Pol.StallP
	x.calm()
	f()
	x.Net.Cfg, x.W.Pol.StallP = c, st
}

// bootNode starts a node and waits until it serves. It reports nil (after
// recording a violation of prop) if the node does not come up.
func (x *X) bootNode(cfg NodeCfg, prop string) *NW {
	nw := &NW{x: x}
	nw.Boot = x.NewDPeer("boot", "10.0.1.1", 6881, "B123456789B123456789")
	nw.Probe = x.NewDPeer("probe", "10.0.2.1", 7000, "P123456789P123456789")
	if cfg.Bootstrap == nil {
		cfg.Bootstrap = []string{nw.Boot.Addr.String()}
	}
	nw.N = x.NewNodeHost(cfg)
	if !nw.up(prop) {
		return nil
	}
	return nw
}

func (nw *NW) up(prop string) bool {
	x := nw.x
	x.Net.Keep = true
	nw.watch()
	ok := false
	x.quiet(func() {
		nw.N.Start()
		ok = nw.N.waitUp(nw.Probe, 60*sec)
	})
	if c, bad := nw.N.crashed(); bad {
		x.Fail(prop, "start-crash", "%s", c)
		return false
	}
	if !ok {
		x.Fail(prop, "start-hang", "the node did not serve within 60 simulated seconds of its start; output:\n%s", nw.N.P.Out)
		return false
	}
	return true
}

// watch collects what the node sends.
func (nw *NW) watch() {
	x := nw.x
	x.Net.OnSent = func(p *sim.Pkt) {
		if t, q, a, ok := isQuery(p.Data); ok {
			k := ask{At: p.At, To: p.To, T: t, Q: q, Err: p.Err}
			k.ID, _ = a.str("id")
			k.Target, _ = a.str("target")
			if nw.LocalID == "" {
				nw.LocalID, nw.BootT = k.ID, t
			}
			nw.Asks = append(nw.Asks, k)
		}
	}
}

// replies are the responses and errors the node sent.
type rep struct {
	At  int64
	To  sim.Addr
	T   string
	D   D
	Raw []byte
	Err string
}

func (nw *NW) replies(from int) (out []rep, bad []sim.Pkt) {
	for _, p := range nw.x.Net.Sent[from:] {
		d, ok := bdict(p.Data)
		if !ok {
			bad = append(bad, p)
			continue
		}
		y, _ := d.str("y")
		if y == "q" {
			continue
		}
		t, ok := d.str("t")
		if !ok || y != "r" && y != "e" {
			bad = append(bad, p)
			continue
		}
		out = append(out, rep{At: p.At, To: p.To, T: t, D: d, Raw: p.Data, Err: p.Err})
	}
	return
}

// ping checks that the node answers within limit on a quiet network.
func (nw *NW) ping(limit int64) bool {
	ok := false
	nw.x.quiet(func() { ok = nw.N.waitUp(nw.Probe, limit) })
	return ok
}

// ihRec is a record of the info hash log.
type ihRec struct {
	Msg, Addr, Hash string
	Port            int64
	HasPort         bool
}

func (r ihRec) String() string {
	if r.HasPort {
		return fmt.Sprintf("%s addr=%s port=%d hash=%s", r.Msg, r.Addr, r.Port, r.Hash)
	}
	return fmt.Sprintf("%s addr=%s hash=%s", r.Msg, r.Addr, r.Hash)
}

// readInfoHashLog parses logs/infohash.log. A last line without its newline is
// reported apart.
func readInfoHashLog(fs *sim.FS) (recs []ihRec, bad []string, tail string) {
	return readInfoHashLogFrom(fs, 0)
}

// readInfoHashLogFrom skips what was there before.
func readInfoHashLogFrom(fs *sim.FS, skip int) (recs []ihRec, bad []string, tail string) {
	b, ok := fs.Peek("/logs/infohash.log")
	if !ok || len(b) < skip {
		return
	}
	b = b[skip:]
	for len(b) > 0 {
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			tail = string(b)
			return
		}
		line := b[:i]
		b = b[i+1:]
		var m struct {
			Msg      string `json:"msg"`
			Addr     string `json:"addr"`
			InfoHash string `json:"infoHash"`
			Port     *int64 `json:"port"`
		}
		if err := json.Unmarshal(line, &m); err != nil || m.Msg == "" {
			bad = append(bad, string(line))
			continue
		}
		r := ihRec{Msg: m.Msg, Addr: m.Addr, Hash: m.InfoHash}
		if m.Port != nil {
			r.Port, r.HasPort = *m.Port, true
		}
		recs = append(recs, r)
	}
	return
}

func clip(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%q...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// settle waits until done holds and stays true over a stretch in which the
// node neither reads nor sends a datagram, or until the limit.
func (nw *NW) settle(limit int64, done func() bool) {
	x := nw.x
	x.W.Pol.StallP = 0
	end := x.W.Now() + limit
	for x.W.Now() < end && nw.N.P.Alive() {
		x.W.WaitUntil(end-x.W.Now(), 20*ms, func() bool { return !nw.N.P.Alive() || done() })
		n, m := len(x.Net.Rcvd), len(x.Net.Sent)
		sim.Sleep(400*ms + 30*x.Net.Cfg.MinDelay + 6*x.Net.Cfg.Jitter)
		if n == len(x.Net.Rcvd) && m == len(x.Net.Sent) && done() {
			return
		}
	}
}
