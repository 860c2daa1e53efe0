package harness

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"

	"verif/dst/sim"
)

// TPeer is a scripted BitTorrent peer that serves (or withholds, corrupts,
// floods) the metadata of one torrent.
type TPeer struct {
	x    *X
	H    *sim.Host
	L    *sim.TCPListener
	Addr sim.Addr
	Meta []byte
	Hash string // 20 bytes
	B    TBeh
	S    []*TSess
	// Prop receives complaints about what the node sends; HProp those about
	// the info hash it asks for.
	Prop, HProp string
}

// kinds of peer
const (
	pHonest = iota
	pRefuse
	pBlackhole
	pSilent
	pCutClose // behaves, then closes after a number of bytes
	pCutReset
	pCutStall
	pTrickle
	pFloodKeep
	pFloodJunk
	pHugeLen
	pSize // odd metadata_size
	pNoRead
	pCorrupt
	pWrongPiece
	pBadShake
	pShort
	pBadBenc
	pBadM
	pResize
	pReject
	pSwap   // serves another torrent
	pOmit   // never serves one piece
	pNear   // wanted by a hash that is close to the one of its metadata
	pSizes  // many messages of different sizes
	pChange // sends pieces again with other bytes
	pKinds
)

// flags of honest behaviour
const (
	fJunk = 1 << iota
	fKeep
	fPermute
	fDup
	fGlue
	fEarly
	fClose
	fTwice
	fSegs
	fBitfield
	fAskUs
	fExtra // more keys in the extended handshake
	fSlow  // pauses, within what is timely
	fChat  // long series of keep-alives and other messages
	fAll   = 1<<iota - 1
)

type TBeh struct {
	Kind int
	UT   int
	Flag int
	Seed int64
	// Gap is the longest pause of a timely peer
	Gap int64
}

// TSess is one connection to a peer.
type TSess struct {
	p     *TPeer
	e     *sim.TCPEnd
	r     *sim.Rand
	in    []byte
	shook bool // their handshake arrived
	sent  bool // our handshake left
	ext   bool
	hand  bool // our extended handshake left
	mid   int  // the id they chose for ut_metadata
	reqs  []int
	out   int // bytes sent
	chat  int // messages of long series sent
	cut   int // act after this many bytes
	dead  bool
	lag   int64
	tlag  int64
	Done  bool // served everything
	asked map[int]bool
	given map[int]bool
	At    int64
}

// metaOf makes metadata of length n; even seeds look like an info dictionary.
func metaOf(n int64, seed int64) []byte {
	if n <= 0 {
		n = 1
	}
	r := sim.NewRand(uint64(seed)*7919 + uint64(n))
	if seed%2 == 0 && n >= 100 {
		// what the info dictionary of a torrent looks like
		head := benc(D{"length": int64(r.Intn(1 << 30)), "name": fmt.Sprintf("file %d", seed), "piece length": int64(16384)})
		head = head[:len(head)-1] + "6:pieces"
		for m := int(n) - len(head) - 1; m >= 0; m-- {
			if k := len(head) + len(fmt.Sprint(m)) + 1 + m + 1; k == int(n) {
				return []byte(fmt.Sprintf("%s%d:%se", head, m, r.Bytes(m)))
			} else if k < int(n) {
				break // no such length
			}
		}
	}
	return r.Bytes(int(n))
}

func sha(b []byte) string { h := sha1.Sum(b); return string(h[:]) }

// NewTPeer makes a peer on a machine of its own.
func (x *X) NewTPeer(name, ip string, port int, meta []byte, b TBeh) *TPeer {
	return x.NewTPeerOn(x.Net.AddHost(name, ip), port, meta, b)
}

func (x *X) NewTPeerOn(h *sim.Host, port int, meta []byte, b TBeh) *TPeer {
	p := &TPeer{x: x, H: h, Meta: meta, Hash: sha(meta), B: b, Addr: sim.Addr{IP: h.IP, Port: port}, Prop: "P09", HProp: "P09"}
	if b.Kind == pNear {
		p.Hash = nearHash(p.Hash, b.Seed)
	}
	l, err := h.ListenTCP(h.IP, port)
	if err != nil {
		panic(err)
	}
	p.L = l
	switch b.Kind {
	case pRefuse:
		l.Behave = 1
	case pBlackhole:
		l.Behave = 2
	}
	l.OnConn = func(e *sim.TCPEnd) {
		s := &TSess{p: p, e: e, r: sim.NewRand(uint64(b.Seed)*31 + uint64(len(p.S))), asked: map[int]bool{}, given: map[int]bool{}, At: x.W.Now()}
		p.S = append(p.S, s)
		s.cut = -1
		switch b.Kind {
		case pCutClose, pCutReset, pCutStall:
			total := 68 + 80 + len(meta) + len(meta)/16384*60
			s.cut = s.r.Intn(total + 1)
			if s.r.P(0.4) {
				s.cut = s.r.Intn(160)
			}
		}
		e.OnEnd = func(bool) { s.dead = true }
		e.OnData = s.data
		if b.Kind == pSilent {
			return
		}
		if b.Kind == pNoRead {
			e.Paused = true
			s.shake()
			s.exHandshake()
			return
		}
		if b.Flag&fEarly != 0 || b.Kind == pFloodJunk || b.Kind == pFloodKeep {
			s.shake()
		}
		if s.cut == 0 {
			s.send(nil)
		}
	}
	return p
}

// nearHash is a hash that a sloppy comparison takes for h.
func nearHash(h string, seed int64) string {
	b := []byte(h)
	r := sim.NewRand(uint64(seed)*17 + 5)
	var let, high []int
	for i, c := range b {
		if c|32 >= 'a' && c|32 <= 'z' {
			let = append(let, i)
		}
		if c >= 0x80 {
			high = append(high, i)
		}
	}
	switch k := r.Intn(7); {
	case k == 0 && len(let) > 0:
		b[let[r.Intn(len(let))]] ^= 32
	case k == 1 && len(high) > 0:
		b[high[r.Intn(len(high))]] ^= byte(1 + r.Intn(127))
	case k == 2:
		b[0] ^= byte(1 + r.Intn(255))
	case k == 3:
		b[19] ^= byte(1 + r.Intn(255))
	case k == 4: // the same sum
		i := r.Intn(19)
		if b[i] == b[i+1] {
			b[i]++
			b[i+1]--
		} else {
			b[i], b[i+1] = b[i+1], b[i]
		}
	case k == 5: // the same head
		n := 1 + r.Intn(16)
		copy(b[n:], r.Bytes(20-n))
		b[19] = h[19] ^ 1
	default:
		b[r.Intn(20)] ^= 1 << r.Intn(8)
	}
	return string(b)
}

// pause is the time before the next message.
func (s *TSess) pause() int64 {
	if s.p.B.Flag&fSlow == 0 || s.p.B.Gap == 0 {
		return 0
	}
	return int64(s.r.Intn(int(s.p.B.Gap)))
}

// send transmits now (in stream order), observing the cut.
func (s *TSess) send(b []byte) {
	if s.dead {
		return
	}
	if s.cut >= 0 && s.out+len(b) >= s.cut {
		b = b[:s.cut-s.out]
		if len(b) > 0 {
			s.e.PeerSend(b, nil, 0)
		}
		s.out += len(b)
		s.dead = true
		switch s.p.B.Kind {
		case pCutClose:
			s.e.PeerClose()
		case pCutReset:
			s.e.PeerReset()
		}
		return
	}
	s.out += len(b)
	if s.p.B.Kind == pTrickle {
		gap := []int64{ms, 20 * ms, 300 * ms}[s.r.Intn(3)]
		for i := range b {
			i := i
			if now := s.p.x.W.Now(); s.tlag < now {
				s.tlag = now
			}
			s.tlag += gap
			s.p.x.W.At(s.tlag, func() {
				if !s.dead {
					s.e.PeerSend(b[i:i+1], nil, 0)
				}
			})
		}
		return
	}
	var cuts []int
	if s.p.B.Flag&fSegs != 0 && len(b) > 1 {
		k := s.r.Pick(1, 1, 2, 4)
		at := 0
		for i := 0; i < k && at < len(b)-1; i++ {
			room := len(b) - 1 - at
			if s.r.P(0.5) && room > 6 {
				room = 6
			}
			at += 1 + s.r.Intn(room)
			cuts = append(cuts, at)
		}
	}
	gap := int64(0)
	if len(cuts) > 0 && s.p.B.Flag&fSlow != 0 {
		gap = int64(s.r.Intn(int(2*ms)) + 1)
	}
	s.e.PeerSend(b, cuts, gap)
}

// later queues a message after a pause, keeping order.
func (s *TSess) later(f func()) {
	d := s.pause()
	now := s.p.x.W.Now()
	if s.lag < now {
		s.lag = now
	}
	s.lag += d
	if d == 0 && s.lag == now {
		f()
		return
	}
	s.p.x.W.At(s.lag, f)
}

func (s *TSess) shake() {
	if s.sent {
		return
	}
	s.sent = true
	res := s.r.Bytes(8)
	res[5] |= 0x10
	name := "BitTorrent protocol"
	hash := s.p.Hash
	if s.p.B.Kind == pSwap && s.p.B.Seed%2 == 0 {
		// it is at one with itself
		hash = sha(metaOf(int64(len(s.p.Meta)), s.p.B.Seed+1000003))
	}
	if s.p.B.Kind == pBadShake {
		switch s.r.Intn(6) {
		case 0:
			res[5] &^= 0x10
		case 1:
			name = "BitTorrent protocoL\x00"[:19]
			name = "NotTorrent protocol"
		case 2:
			hash = string(s.r.Bytes(20))
		case 3:
			s.send(s.r.Bytes(68))
			return
		case 4:
			b := s.r.Bytes(68)
			b[0] = byte(s.r.Pick(0, 18, 20, 60, 255))
			s.send(b)
			return
		case 5:
			s.send([]byte{19})
			s.dead = true
			return
		}
	}
	id := s.r.Bytes(20)
	s.send([]byte(string([]byte{byte(len(name))}) + name + string(res) + hash + string(id)))
	if s.p.B.Flag&fGlue != 0 {
		s.exHandshake()
	}
}

func msg(b []byte) []byte {
	out := make([]byte, 4, 4+len(b))
	binary.BigEndian.PutUint32(out, uint32(len(b)))
	return append(out, b...)
}

func extMsg(id int, payload string) []byte {
	return msg([]byte(string([]byte{20, byte(id)}) + payload))
}

// noise sends messages that do not matter.
func (s *TSess) noise() {
	f := s.p.B.Flag
	if f&fChat != 0 && s.r.P(0.4) {
		var b []byte
		mix := s.r.Intn(3)
		n := s.r.Pick(10, 70, 300, 1500)
		// reading them takes the node time, which a timely peer leaves it
		if n > 4000-s.chat {
			n = 4000 - s.chat
		}
		s.chat += n
		for i := n; i > 0; i-- {
			if mix == 0 || mix == 1 && s.r.P(0.5) {
				b = append(b, 0, 0, 0, 0)
			} else {
				b = append(b, msg(append([]byte{4}, s.r.Bytes(4)...))...)
			}
		}
		s.later(func() { s.send(b) })
	}
	if f&fKeep != 0 && s.r.P(0.6) {
		for i := s.r.Pick(1, 1, 3); i > 0; i-- {
			s.later(func() { s.send([]byte{0, 0, 0, 0}) })
		}
	}
	if f&fJunk != 0 && s.r.P(0.6) {
		var m []byte
		switch s.r.Intn(6) {
		case 0:
			m = msg([]byte{byte(s.r.Intn(4))})
		case 1:
			m = msg(append([]byte{4}, s.r.Bytes(4)...))
		case 2:
			m = extMsg(2, benc(D{"added": string(s.r.Bytes(6))}))
		case 3:
			m = msg(append([]byte{byte(30 + s.r.Intn(200))}, s.r.Bytes(s.r.Intn(200))...))
		case 4:
			m = extMsg(3+s.r.Intn(200), string(s.r.Bytes(s.r.Intn(100))))
		case 5:
			m = msg(append([]byte{7}, s.r.Bytes(s.r.Pick(8, 1000, 16392, 32767))...))
		}
		s.later(func() { s.send(m) })
	}
	if f&fAskUs != 0 && s.mid > 0 && s.r.P(0.5) {
		b := extMsg(s.mid, benc(D{"msg_type": int64(0), "piece": int64(s.r.Intn(3))}))
		s.later(func() { s.send(b) })
	}
}

func (s *TSess) exHandshake() {
	if s.hand {
		return
	}
	s.hand = true
	B := &s.p.B
	if B.Flag&fBitfield != 0 {
		b := msg(append([]byte{5}, s.r.Bytes(s.r.Pick(1, 10, 500, 4000))...))
		s.later(func() { s.send(b) })
	}
	s.noise()
	size := int64(len(s.p.Meta))
	m := D{"ut_metadata": int64(B.UT)}
	d := D{"m": m, "metadata_size": size}
	if B.Flag&fExtra != 0 {
		m["ut_pex"] = int64(1 + s.r.Intn(20))
		m["lt_donthave"] = int64(7)
		d["v"] = "libtorrent 1.2"
		d["p"] = int64(s.r.Intn(65536))
		d["reqq"] = int64(250)
		d["yourip"] = string(s.r.Bytes(4))
		d["complete_ago"] = int64(-1)
		if s.r.P(0.3) {
			for i := s.r.Pick(1, 5, 40, 300); i > 0; i-- {
				m[fmt.Sprintf("xx_%d", i)] = int64(s.r.Intn(256))
			}
		}
		if s.r.P(0.3) {
			d["v"] = string(s.r.Bytes(s.r.Pick(0, 1, 200, 600, 3000)))
		}
		if s.r.P(0.2) {
			d["a"] = L{int64(1), "x", L{}, D{"metadata_size": int64(7), "m": D{}}}
			d["upload_only"] = int64(s.r.Intn(2))
			d["ipv6"] = string(s.r.Bytes(16))
			d["zz"] = D{"ut_metadata": int64(99)}
		}
	}
	switch B.Kind {
	case pSize:
		v := []int64{0, -1, -16384, 1 << 20, 32 << 20, 32<<20 + 1, 1 << 31, 1<<31 - 1, 1<<32 + 100, 1<<32 + 40000, 1 << 36, 1 << 38, 1<<40 + 5000, 1<<44 + 16384, 1 << 62, -1 << 63, 1<<63 - 1}
		d["metadata_size"] = v[s.r.Intn(len(v))]
	case pNoRead:
		d["metadata_size"] = int64(s.r.Pick(16384, 1<<20, 32<<20))
	case pBadM:
		switch s.r.Intn(7) {
		case 0:
			delete(d, "m")
		case 1:
			d["m"] = "x"
		case 2:
			m["ut_metadata"] = "one"
		case 3:
			delete(d, "metadata_size")
		case 4:
			d["metadata_size"] = "12"
		case 5:
			m["ut_metadata"] = int64(-5)
		case 6:
			m["ut_metadata"] = int64(0)
		}
	case pHugeLen:
		b := make([]byte, 4, 12)
		binary.BigEndian.PutUint32(b, uint32([]int64{1<<32 - 1, 1 << 31, 32769, 1 << 24}[s.r.Intn(4)]))
		s.send(append(b, 20, 0, 'd', 'e'))
		return
	case pShort:
		s.send(msg([]byte{20}))
		s.send(msg([]byte{20, byte(s.r.Intn(3))}))
		return
	case pBadBenc:
		bad := []string{"", "d", "i1e", "d1:m", "le", "d4:piecei9999999999999999999ee", "d1:md11:ut_metadatai1ee13:metadata_sizei5e"}
		k := s.r.Intn(len(bad) + 1)
		if k == len(bad) {
			n := 30000
			b := make([]byte, n)
			for i := range b {
				b[i] = "ld"[s.r.Intn(2)]
			}
			for i := range b {
				b[i] = 'l'
			}
			s.send(extMsg(s.r.Intn(2), string(b)))
			return
		}
		s.send(extMsg(s.r.Intn(2), bad[k]))
		return
	}
	b := extMsg(0, benc(d))
	if B.Kind == pSizes {
		n := s.r.Pick(200, 1200, 3000)
		lo := 8 + s.r.Intn(500)
		for i := 0; i < n; i++ {
			m := msg(append([]byte{4}, make([]byte, lo+i)...))
			s.later(func() { s.send(m) })
		}
	}
	if !s.floodOnly() || B.Seed/16%2 == 0 {
		s.later(func() { s.send(b) })
	}
	if B.Flag&fTwice != 0 {
		for i := s.r.Pick(1, 1, 3); i > 0; i-- {
			s.again()
		}
	}
	if B.Kind == pResize {
		d["metadata_size"] = size + int64(s.r.Pick(-1, 1, 16384, 1<<20))
		b2 := extMsg(0, benc(d))
		s.later(func() { s.send(b2) })
	}
	if B.Kind == pFloodKeep || B.Kind == pFloodJunk {
		var f func()
		gap := s.floodGap()
		end := s.p.x.W.Now() + 40*sec
		f = func() {
			if s.dead || s.p.x.W.Now() > end {
				return
			}
			b := []byte{0, 0, 0, 0}
			if B.Kind == pFloodJunk {
				b = msg(append([]byte{byte(s.r.Pick(4, 7, 21, 20))}, s.r.Bytes(2+s.r.Intn(200))...))
			}
			s.out += len(b)
			s.e.PeerSend(b, nil, 0)
			s.p.x.W.After(gap, f)
		}
		f()
	}
}

// again sends one more extended handshake; BEP 10 allows those, and that they
// tell only what changed.
func (s *TSess) again() {
	size := int64(len(s.p.Meta))
	d := D{"m": D{"ut_metadata": int64(s.p.B.UT)}, "metadata_size": size}
	v := s.p.B.Seed / 64 % 5
	if s.p.B.Kind == pBadM || s.floodOnly() {
		v = 0 // the first one did not tell everything
	}
	switch v {
	case 1:
		d = D{"m": D{"ut_pex": int64(s.r.Intn(2) * 3)}}
	case 2:
		d = D{"m": D{}, "upload_only": int64(1)}
	case 3:
		d = D{"m": D{"ut_pex": int64(3)}, "metadata_size": size}
	case 4:
		d = D{"reqq": int64(100)}
	}
	b := extMsg(0, benc(d))
	s.later(func() { s.send(b) })
}

// data takes the node's bytes.
func (s *TSess) data(b []byte) {
	if s.p.B.Kind == pSilent {
		return
	}
	s.in = append(s.in, b...)
	x, P := s.p.x, s.p.Prop
	if !s.shook {
		if len(s.in) < 68 {
			return
		}
		h := s.in[:68]
		if h[0] != 19 || string(h[1:20]) != "BitTorrent protocol" {
			x.Fail(P, "handshake", "the node's handshake does not name the protocol: %q", h)
		} else if h[25]&0x10 == 0 {
			x.Fail(P, "handshake", "the node's handshake does not offer the extension protocol: %q", h)
		} else if string(h[28:48]) != s.p.Hash {
			x.Fail(s.p.HProp, "handshake", "the node's handshake carries info hash %x, wanted %x", h[28:48], s.p.Hash)
		}
		s.in = s.in[68:]
		s.shook = true
		s.later(s.shake)
	}
	for len(s.in) >= 4 {
		n := int(binary.BigEndian.Uint32(s.in))
		if n > 1<<20 {
			x.Fail(P, "message", "the node sent a message of %d bytes", n)
			s.dead = true
			return
		}
		if len(s.in) < 4+n {
			return
		}
		m := s.in[4 : 4+n]
		s.in = s.in[4+n:]
		if n == 0 || m[0] != 20 {
			continue
		}
		if n < 2 {
			x.Fail(P, "message", "the node sent a malformed extension message %q", m)
			continue
		}
		v, rest, err := bdec(string(m[2:]))
		d, ok := v.(D)
		if err != nil || !ok || rest != "" {
			x.Fail(P, "message", "the node sent an extension message that is not bencoded: %s", clip(m))
			continue
		}
		if s.p.B.Kind == pBadM && s.ext {
			continue
		}
		if m[1] == 0 {
			mm, _ := d.dict("m")
			id, ok := mm.num("ut_metadata")
			if !ok || id < 1 || id > 255 {
				x.Fail(P, "message", "the node's extended handshake does not offer ut_metadata: %s", clip(m))
				continue
			}
			s.mid = int(id)
			s.ext = true
			s.later(s.exHandshake)
			continue
		}
		if !s.hand {
			x.Fail(P, "early-request", "the node sent an extension message before it knew the peer's ids: %s", clip(m))
			continue
		}
		ut := s.p.B.UT
		if int(m[1]) != ut {
			x.Fail(P, "request-id", "the node sent an extension message with id %d, the peer's id for ut_metadata is %d", m[1], ut)
			continue
		}
		ty, ok1 := d.num("msg_type")
		pc, ok2 := d.num("piece")
		if !ok1 || !ok2 {
			x.Fail(P, "message", "the node's metadata message lacks msg_type or piece: %s", clip(m))
			continue
		}
		if ty != 0 {
			continue // a reply to what we asked
		}
		if s.p.B.Kind == pHonest && (pc < 0 || pc >= int64(s.pieces())) {
			x.Fail(P, "request-piece", "the node asked for piece %d of %d", pc, s.pieces())
			continue
		}
		s.reqs = append(s.reqs, int(pc))
		s.asked[int(pc)] = true
		if s.p.B.Flag&fPermute != 0 && len(s.asked) < s.pieces() {
			continue
		}
		r := s.reqs
		s.reqs = nil
		if s.p.B.Flag&fPermute != 0 {
			for i := len(r) - 1; i > 0; i-- {
				j := s.r.Intn(i + 1)
				r[i], r[j] = r[j], r[i]
			}
		}
		for _, k := range r {
			s.piece(k)
		}
	}
}

// floodGap is the time between two messages of a flooding peer.
func (s *TSess) floodGap() int64 {
	return []int64{5 * ms, 100 * ms, 400 * ms, 850 * ms}[s.p.B.Seed%4]
}

// floodOnly says whether a flooding peer sends nothing else.
func (s *TSess) floodOnly() bool {
	return (s.p.B.Kind == pFloodKeep || s.p.B.Kind == pFloodJunk) && s.p.B.Seed/4%4 != 0
}

func (s *TSess) pieces() int { return (len(s.p.Meta) + 16383) / 16384 }

func (s *TSess) piece(k int) {
	if s.floodOnly() {
		return
	}
	meta := s.p.Meta
	lo, hi := k*16384, (k+1)*16384
	if hi > len(meta) {
		hi = len(meta)
	}
	var data []byte
	if lo >= 0 && lo < hi {
		data = append([]byte(nil), meta[lo:hi]...)
	} else if s.p.B.Kind != pSize && s.p.B.Kind != pResize {
		return
	} else {
		data = s.r.Bytes(100)
	}
	ty, idx := int64(1), int64(k)
	switch s.p.B.Kind {
	case pCorrupt:
		if len(data) > 0 && s.r.P(0.7) {
			data[s.r.Intn(len(data))] ^= byte(1 + s.r.Intn(255))
		}
		if s.r.P(0.2) {
			data = data[:len(data)/2]
		}
	case pWrongPiece:
		v := []int64{-1, -1 << 62, idx + 1, 1 << 20, 1 << 62, idx}
		idx = v[s.r.Intn(len(v))]
		if s.r.P(0.3) {
			data = append(data, s.r.Bytes(s.r.Intn(300))...)
		}
	case pReject:
		ty = int64(s.r.Pick(2, 2, 3, -1))
	case pSwap:
		data = metaOf(int64(len(meta)), s.p.B.Seed+1000003)[lo:hi]
	case pOmit:
		if k == int(s.p.B.Seed%int64(s.pieces())) {
			return
		}
	}
	s.noise()
	if s.p.B.Flag&fTwice != 0 && s.r.P(0.2) {
		s.again()
	}
	hdr := benc(D{"msg_type": ty, "piece": idx, "total_size": int64(len(meta))})
	b := extMsg(atLeastI(s.mid, 1), hdr+string(data))
	var other []byte
	if s.p.B.Kind == pChange && len(data) > 0 && s.r.P(0.6) {
		o := append([]byte(nil), data...)
		o[s.r.Intn(len(o))] ^= byte(1 + s.r.Intn(255))
		if s.r.P(0.2) {
			o = o[:s.r.Intn(len(o)+1)]
		}
		other = extMsg(atLeastI(s.mid, 1), hdr+string(o))
		if s.r.P(0.4) {
			b, other = other, b
		}
	}
	n := 1
	if s.p.B.Flag&fDup != 0 && s.r.P(0.3) {
		n = 2
	}
	for ; n > 0; n-- {
		s.later(func() { s.send(b) })
	}
	if other != nil {
		s.later(func() { s.send(other) })
	}
	s.given[k] = true
	if len(s.given) == s.pieces() && !s.Done {
		s.Done = true
		if s.p.B.Flag&fClose != 0 && s.p.B.Flag&fTwice == 0 {
			s.later(func() {
				if !s.dead {
					s.dead = true
					s.e.PeerClose()
				}
			})
		}
	}
}

func atLeastI(v, min int) int {
	if v < min {
		return min
	}
	return v
}

func (b TBeh) String() string {
	return fmt.Sprintf("peer kind %d ut %d flags %x", b.Kind, b.UT, b.Flag)
}
