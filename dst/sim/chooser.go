package sim

// Rand is a splitmix64 generator: the only source of randomness of a run.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Float() float64     { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) P(p float64) bool   { return r.Float() < p }
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }
func (r *Rand) Pick(v ...int) int  { return v[r.Intn(len(v))] }
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// Mix derives an independent seed.
func Mix(a ...uint64) uint64 {
	r := Rand{s: 0x51ed270b}
	h := uint64(0xcbf29ce484222325)
	for _, x := range a {
		r.s ^= x
		h = (h ^ r.U64()) * 0x100000001b3
	}
	return h
}

// Chooser is the one stream of decisions of a run: which goroutine runs, when
// one is preempted, which fault fires, how long a message takes. In search
// mode the decisions come from Rand and are recorded; in replay mode they come
// from a recorded list (zero, the tame default, past its end).
type Chooser struct {
	rng    *Rand
	rec    []uint32
	replay []uint32
	isRep  bool
	pos    int
}

func NewChooser(seed uint64) *Chooser { return &Chooser{rng: NewRand(seed)} }
func NewReplayChooser(list []uint32) *Chooser {
	return &Chooser{rng: NewRand(1), replay: list, isRep: true}
}
func (c *Chooser) Recorded() []uint32 { return c.rec }

func (c *Chooser) next() uint32 {
	var v uint32
	if c.pos < len(c.replay) {
		v = c.replay[c.pos]
	}
	c.pos++
	return v
}

func (c *Chooser) put(v uint32) uint32 {
	c.rec = sPush(c.rec, v)
	return v
}

// N picks uniformly in [0,n).
func (c *Chooser) N(n int) int {
	if n <= 1 {
		return 0
	}
	if c.isRep {
		v := c.next()
		if int(v) >= n {
			v = uint32(n - 1)
		}
		return int(c.put(v))
	}
	return int(c.put(uint32(c.rng.Intn(n))))
}

// Given records a choice whose search-mode value was computed by the caller.
func (c *Chooser) Given(n int, v int) int {
	if n <= 1 {
		return 0
	}
	if c.isRep {
		x := c.next()
		if int(x) >= n {
			x = uint32(n - 1)
		}
		return int(c.put(x))
	}
	return int(c.put(uint32(v)))
}

// Prob is true with probability p; false is the tame default.
func (c *Chooser) Prob(p float64) bool {
	if p <= 0 {
		return false
	}
	if c.isRep {
		v := c.next()
		if v > 1 {
			v = 1
		}
		return c.put(v) == 1
	}
	if c.rng.Float() < p {
		return c.put(1) == 1
	}
	return c.put(0) == 1
}

// Gap draws the number of yields before the next preemption; 0 = none soon.
func (c *Chooser) Gap(mean int) int {
	if c.isRep {
		return int(c.put(c.next()))
	}
	if mean <= 0 {
		return int(c.put(0))
	}
	// roughly geometric
	g := 1
	switch c.rng.Intn(4) {
	case 0:
		g = 1 + c.rng.Intn(mean/4+1)
	case 1, 2:
		g = 1 + c.rng.Intn(2*mean)
	case 3:
		g = 1 + c.rng.Intn(6*mean)
	}
	return int(c.put(uint32(g)))
}
