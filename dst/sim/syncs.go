package sim

import "unsafe"

// WaitQ is a FIFO of parked goroutines.
type WaitQ struct{ gs []*G }

func (q *WaitQ) clean() {
	for len(q.gs) > 0 && q.gs[0].killed {
		q.gs = q.gs[1:]
	}
}
func (q *WaitQ) Len() int { q.clean(); return len(q.gs) }

// Wait parks the caller until Wake; it returns the wake code.
func (q *WaitQ) Wait(why string) int {
	g := cur
	q.gs = sPush(q.gs, g)
	w.block(g, why)
	return g.sig
}

// WaitTimeout is Wait with a deadline; false on timeout.
func (q *WaitQ) WaitTimeout(why string, d int64) bool {
	g := cur
	g.sig = 0
	q.gs = sPush(q.gs, g)
	e := w.After(d, func() {
		for i, x := range q.gs {
			if x == g {
				q.gs = sDel(q.gs, i)
				g.sig = -1
				w.makeReady(g)
				return
			}
		}
	})
	w.block(g, why)
	w.Cancel(e)
	return g.sig >= 0
}

// Wake readies the first waiter.
func (q *WaitQ) Wake(sig int) bool {
	q.clean()
	if len(q.gs) == 0 {
		return false
	}
	g := q.gs[0]
	q.gs = q.gs[1:]
	g.sig = sig
	w.makeReady(g)
	return true
}

func (q *WaitQ) WakeAll(sig int) {
	for q.Wake(sig) {
	}
}

// Mutex is sync.Mutex under simulation. Like the real one it lets a running
// goroutine barge in front of a woken waiter, and hands over directly to a
// waiter that lost too often.
type Mutex struct {
	locked  bool
	q       WaitQ
	waiters int
	edge    int64
}

func (m *Mutex) Lock() {
	g := enter()
	for n := 0; m.locked; n++ {
		if n >= 4 {
			// starving: ask for direct hand-off
			m.q.gs = sFront(m.q.gs, g)
			g.sig = 0
			g.lost = 1
			w.block(g, "mutex")
			g.lost = 0
			if g.sig == 2 {
				RaceAcquire(unsafe.Pointer(&m.edge))
				return
			}
			continue
		}
		m.q.Wait("mutex")
	}
	m.locked = true
	RaceAcquire(unsafe.Pointer(&m.edge))
}

func (m *Mutex) TryLock() bool {
	enter()
	if m.locked {
		return false
	}
	m.locked = true
	RaceAcquire(unsafe.Pointer(&m.edge))
	return true
}

func (m *Mutex) Unlock() {
	enter()
	if !m.locked {
		Fatal("sync: unlock of unlocked mutex")
	}
	RaceRelease(unsafe.Pointer(&m.edge))
	m.q.clean()
	if len(m.q.gs) > 0 && m.q.gs[0].lost > 0 {
		m.q.Wake(2) // stays locked, ownership moves
		return
	}
	m.locked = false
	m.q.Wake(1)
}

// RWMutex is sync.RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	readers int
	writer  bool
	wwait   int
	rq, wq  WaitQ
	edgeW   int64
	edgeR   int64
}

func (m *RWMutex) RLock() {
	enter()
	m.wq.clean()
	for m.writer || m.wq.Len() > 0 {
		if s := m.rq.Wait("rwmutex.r"); s == 2 {
			// admitted by an unlocking writer, ahead of waiting writers
			RaceAcquire(unsafe.Pointer(&m.edgeW))
			return
		}
	}
	m.readers++
	RaceAcquire(unsafe.Pointer(&m.edgeW))
}

func (m *RWMutex) TryRLock() bool {
	enter()
	if m.writer || m.wq.Len() > 0 {
		return false
	}
	m.readers++
	RaceAcquire(unsafe.Pointer(&m.edgeW))
	return true
}

func (m *RWMutex) RUnlock() {
	enter()
	if m.readers <= 0 {
		Fatal("sync: RUnlock of unlocked RWMutex")
	}
	RaceReleaseMerge(unsafe.Pointer(&m.edgeR))
	m.readers--
	m.kick()
}

func (m *RWMutex) kick() {
	if m.readers == 0 && !m.writer {
		if m.wq.Len() > 0 {
			m.writer = true
			m.wq.Wake(2)
			return
		}
		for m.rq.Len() > 0 {
			m.readers++
			m.rq.Wake(2)
		}
	}
}

func (m *RWMutex) Lock() {
	enter()
	if m.writer || m.readers > 0 || m.wq.Len() > 0 {
		if m.wq.Wait("rwmutex.w") != 2 {
			panic("sim: rwmutex wake")
		}
	} else {
		m.writer = true
	}
	RaceAcquire(unsafe.Pointer(&m.edgeW))
	RaceAcquire(unsafe.Pointer(&m.edgeR))
}

func (m *RWMutex) TryLock() bool {
	enter()
	if m.writer || m.readers > 0 || m.wq.Len() > 0 {
		return false
	}
	m.writer = true
	RaceAcquire(unsafe.Pointer(&m.edgeW))
	RaceAcquire(unsafe.Pointer(&m.edgeR))
	return true
}

func (m *RWMutex) Unlock() {
	enter()
	if !m.writer {
		Fatal("sync: Unlock of unlocked RWMutex")
	}
	RaceRelease(unsafe.Pointer(&m.edgeW))
	m.writer = false
	// readers that queued while the writer held the lock go first
	if m.rq.Len() > 0 {
		for m.rq.Len() > 0 {
			m.readers++
			m.rq.Wake(2)
		}
		return
	}
	m.kick()
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	q    WaitQ
	edge int64
}

func (g *WaitGroup) Add(d int) {
	enter()
	if d < 0 {
		RaceReleaseMerge(unsafe.Pointer(&g.edge))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.q.WakeAll(1)
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	enter()
	if g.n > 0 {
		g.q.Wait("waitgroup")
	}
	RaceAcquire(unsafe.Pointer(&g.edge))
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
	edge int64
}

func (o *Once) Do(f func()) {
	enter()
	if o.done {
		RaceAcquire(unsafe.Pointer(&o.edge))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			RaceRelease(unsafe.Pointer(&o.edge))
		}()
		f()
	} else {
		RaceAcquire(unsafe.Pointer(&o.edge))
	}
}

// Cond is sync.Cond.
type Locker interface {
	Lock()
	Unlock()
}
type Cond struct {
	L Locker
	q WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	g := enter()
	c.q.gs = sPush(c.q.gs, g)
	// register before unlocking; a wake-up that arrives before the park is
	// remembered in sig
	g.sig = 0
	g.why = "cond"
	c.L.Unlock()
	if g.sig == 0 {
		for g.sig == 0 {
			w.block(g, "cond")
		}
	}
	c.L.Lock()
}
func (c *Cond) wake() bool {
	c.q.clean()
	if len(c.q.gs) == 0 {
		return false
	}
	g := c.q.gs[0]
	c.q.gs = c.q.gs[1:]
	g.sig = 1
	if g.state == gBlocked && g.why == "cond" {
		w.makeReady(g)
	}
	return true
}
func (c *Cond) Signal() { enter(); c.wake() }
func (c *Cond) Broadcast() {
	enter()
	for c.wake() {
	}
}

// PMap is the state behind sync.Map: an insertion-ordered association list
// with a hash index of its own (no builtin map, see race.go).
type PMap struct {
	ents []pment
	edge int64
}
type pment struct {
	k, v interface{}
	live bool
}

func (m *PMap) find(k interface{}) int {
	for i := range m.ents {
		if m.ents[i].live && m.ents[i].k == k {
			return i
		}
	}
	return -1
}
func (m *PMap) acq() { RaceAcquire(unsafe.Pointer(&m.edge)) }
func (m *PMap) rel() { RaceReleaseMerge(unsafe.Pointer(&m.edge)) }

func (m *PMap) Load(k interface{}) (interface{}, bool) {
	enter()
	m.acq()
	if i := m.find(k); i >= 0 {
		return m.ents[i].v, true
	}
	return nil, false
}
func (m *PMap) Swap(k, v interface{}) (interface{}, bool) {
	enter()
	m.acq()
	defer m.rel()
	if i := m.find(k); i >= 0 {
		o := m.ents[i].v
		m.ents[i].v = v
		return o, true
	}
	m.ents = sPush(m.ents, pment{k, v, true})
	return nil, false
}
func (m *PMap) LoadOrStore(k, v interface{}) (interface{}, bool) {
	enter()
	m.acq()
	defer m.rel()
	if i := m.find(k); i >= 0 {
		return m.ents[i].v, true
	}
	m.ents = sPush(m.ents, pment{k, v, true})
	return v, false
}
func (m *PMap) LoadAndDelete(k interface{}) (interface{}, bool) {
	enter()
	m.acq()
	defer m.rel()
	if i := m.find(k); i >= 0 {
		o := m.ents[i].v
		m.ents = sDel(m.ents, i)
		return o, true
	}
	return nil, false
}
func (m *PMap) CompareAndSwap(k, o, n interface{}) bool {
	enter()
	m.acq()
	defer m.rel()
	if i := m.find(k); i >= 0 && m.ents[i].v == o {
		m.ents[i].v = n
		return true
	}
	return false
}
func (m *PMap) CompareAndDelete(k, o interface{}) bool {
	enter()
	m.acq()
	if i := m.find(k); i >= 0 && m.ents[i].v == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *PMap) Range(f func(k, v interface{}) bool) {
	enter()
	m.acq()
	es := sClone(m.ents)
	for len(es) > 0 {
		i := w.Ch.N(len(es))
		e := es[i]
		es = sDel(es, i)
		if j := m.find(e.k); j < 0 {
			continue
		} else {
			e.v = m.ents[j].v
		}
		if !f(e.k, e.v) {
			return
		}
	}
}
func (m *PMap) Clear() { enter(); m.ents = nil }

// PoolState is sync.Pool: it may drop anything at any time.
type PoolState struct {
	items []interface{}
	edge  int64
}

func (p *PoolState) Put(x interface{}) {
	enter()
	if x == nil {
		return
	}
	if w.Ch.Prob(0.1) {
		return
	}
	RaceReleaseMerge(unsafe.Pointer(&p.edge))
	p.items = sPush(p.items, x)
}
func (p *PoolState) Get() interface{} {
	enter()
	if n := len(p.items); n > 0 {
		RaceAcquire(unsafe.Pointer(&p.edge))
		i := n - 1
		if n > 1 && w.Ch.Prob(0.3) {
			i = w.Ch.N(n)
		}
		x := p.items[i]
		p.items = sDel(p.items, i)
		return x
	}
	return nil
}
