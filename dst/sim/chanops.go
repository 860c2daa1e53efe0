package sim

import "unsafe"

// Channel operations of the code under test. Real channels hold the buffered
// values and the closed state; who waits on them is kept here, because only
// one goroutine runs at a time.

type selw struct {
	g      *G
	fired  int
	closed bool
	ws     []*cw
}

type cw struct {
	sw   *selw
	idx  int
	slot unsafe.Pointer
	keep interface{}
	next *cw
	prev *cw
	q    *cwq
}

type cwq struct{ head, tail *cw }

func (q *cwq) push(x *cw) {
	x.q = q
	x.prev = q.tail
	x.next = nil
	if q.tail != nil {
		q.tail.next = x
	} else {
		q.head = x
	}
	q.tail = x
}
func (q *cwq) del(x *cw) {
	if x.q == nil {
		return
	}
	if x.prev != nil {
		x.prev.next = x.next
	} else {
		q.head = x.next
	}
	if x.next != nil {
		x.next.prev = x.prev
	} else {
		q.tail = x.prev
	}
	x.q, x.next, x.prev = nil, nil, nil
}

type chanState struct {
	p    unsafe.Pointer
	recv cwq
	send cwq
	next *chanState
}

func chHash(p unsafe.Pointer) int { return int((uintptr(p)>>4 ^ uintptr(p)>>12) & 255) }

func (w *World) chFind(p unsafe.Pointer) *chanState {
	for s := w.chans[chHash(p)]; s != nil; s = s.next {
		if s.p == p {
			return s
		}
	}
	return nil
}

func (w *World) chGet(p unsafe.Pointer) *chanState {
	if s := w.chFind(p); s != nil {
		return s
	}
	h := chHash(p)
	s := &chanState{p: p, next: w.chans[h]}
	w.chans[h] = s
	return s
}

func (w *World) chGC(p unsafe.Pointer) {
	h := chHash(p)
	pp := &w.chans[h]
	for *pp != nil {
		if (*pp).p == p {
			if (*pp).recv.head == nil && (*pp).send.head == nil {
				*pp = (*pp).next
			}
			return
		}
		pp = &(*pp).next
	}
}

func dropDead(q *cwq) {
	for q.head != nil && (q.head.sw.g.killed || q.head.sw.fired >= 0) {
		q.del(q.head)
	}
}

// waitingRecv / waitingSend return the first live waiter without removing it.
func (w *World) waitingRecv(p unsafe.Pointer) *cw {
	s := w.chFind(p)
	if s == nil {
		return nil
	}
	dropDead(&s.recv)
	return s.recv.head
}
func (w *World) waitingSend(p unsafe.Pointer) *cw {
	s := w.chFind(p)
	if s == nil {
		return nil
	}
	dropDead(&s.send)
	return s.send.head
}

// fire completes a waiter.
func (w *World) fire(x *cw, closed bool) {
	sw := x.sw
	sw.fired = x.idx
	sw.closed = closed
	for _, o := range sw.ws {
		if o.q != nil {
			o.q.del(o)
		}
	}
	w.makeReady(sw.g)
}

func (w *World) armOn(p unsafe.Pointer, sw *selw, idx int, slot unsafe.Pointer, keep interface{}, send bool) {
	x := &cw{sw: sw, idx: idx, slot: slot, keep: keep}
	sw.ws = sPush(sw.ws, x)
	s := w.chGet(p)
	if send {
		s.send.push(x)
	} else {
		s.recv.push(x)
	}
}

func (w *World) disarm(sw *selw, ps ...unsafe.Pointer) {
	for _, o := range sw.ws {
		if o.q != nil {
			o.q.del(o)
		}
	}
	for _, p := range ps {
		if p != nil {
			w.chGC(p)
		}
	}
}

func chp[T any](c chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// Case is one communication of a select.
type Case interface {
	try() bool
	ptr() unsafe.Pointer
	arm(sw *selw, idx int)
	finish(closed bool)
}

type RecvCase[T any] struct {
	ch  chan T
	Val T
	Ok  bool
}

type SendCase[T any] struct {
	ch chan T
	v  T
}

func (c *RecvCase[T]) ptr() unsafe.Pointer { return chp(c.ch) }
func (c *SendCase[T]) ptr() unsafe.Pointer { return chp(c.ch) }

func (c *RecvCase[T]) try() bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.Val, c.Ok = <-c.ch:
		if c.Ok {
			// room in the buffer: let the first blocked sender in
			if x := w.waitingSend(chp(c.ch)); x != nil {
				RaceAcquire(unsafe.Pointer(x))
				select {
				case c.ch <- *(*T)(x.slot):
					RaceRelease(unsafe.Pointer(x))
					w.fire(x, false)
				default:
				}
			}
		}
		return true
	default:
	}
	if x := w.waitingSend(chp(c.ch)); x != nil {
		RaceAcquire(unsafe.Pointer(x))
		c.Val, c.Ok = *(*T)(x.slot), true
		RaceRelease(unsafe.Pointer(x))
		w.fire(x, false)
		return true
	}
	return false
}

func (c *RecvCase[T]) arm(sw *selw, idx int) {
	w.armOn(chp(c.ch), sw, idx, unsafe.Pointer(&c.Val), c, false)
}

func (c *RecvCase[T]) finish(closed bool) {
	if closed {
		c.Val, c.Ok = <-c.ch // closed: does not block, carries the edge
		return
	}
	c.Ok = true
}

func (c *SendCase[T]) try() bool {
	if c.ch == nil {
		return false
	}
	if x := w.waitingRecv(chp(c.ch)); x != nil {
		// (a closed channel has no waiting receivers)
		RaceAcquire(unsafe.Pointer(x))
		*(*T)(x.slot) = c.v
		RaceRelease(unsafe.Pointer(x))
		w.fire(x, false)
		return true
	}
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

func (c *SendCase[T]) arm(sw *selw, idx int) {
	w.armOn(chp(c.ch), sw, idx, unsafe.Pointer(&c.v), c, true)
}

func (c *SendCase[T]) finish(closed bool) {
	if closed {
		panic("send on closed channel")
	}
}

func CaseRecv[T any](ch <-chan T) *RecvCase[T] {
	return &RecvCase[T]{ch: *(*chan T)(unsafe.Pointer(&ch))}
}

func CaseSend[T any](ch chan<- T) func(v T) *SendCase[T] {
	c := *(*chan T)(unsafe.Pointer(&ch))
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: c, v: v} }
}

func doSelect(hasDefault bool, why string, cases []Case) int {
	g := enter()
	n := len(cases)
	if n > 0 {
		off := 0
		if n > 1 {
			off = w.Ch.N(n)
		}
		for i := 0; i < n; i++ {
			k := (i + off) % n
			if cases[k].try() {
				return k
			}
		}
	}
	if hasDefault {
		return -1
	}
	sw := &selw{g: g, fired: -1}
	for i, c := range cases {
		if c.ptr() != nil {
			c.arm(sw, i)
		}
	}
	for _, x := range sw.ws {
		RaceReleaseMerge(unsafe.Pointer(x))
	}
	for sw.fired < 0 {
		w.block(g, why)
	}
	for _, x := range sw.ws {
		RaceAcquire(unsafe.Pointer(x))
	}
	for _, c := range cases {
		if p := c.ptr(); p != nil {
			w.chGC(p)
		}
	}
	cases[sw.fired].finish(sw.closed)
	return sw.fired
}

// Select runs a select statement and returns the index of the chosen case;
// the default clause is index len(cases).
func Select(hasDefault bool, cases ...Case) int {
	k := doSelect(hasDefault, "select", cases)
	if k < 0 {
		return len(cases)
	}
	return k
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	c := CaseRecv(ch)
	doSelect(false, "chan receive", []Case{c})
	return c.Val
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := CaseRecv(ch)
	doSelect(false, "chan receive", []Case{c})
	return c.Val, c.Ok
}

// SendTo is ch <- v, written SendTo(ch)(v) so that v converts to the element type.
func SendTo[T any](ch chan<- T) func(v T) {
	c := *(*chan T)(unsafe.Pointer(&ch))
	return func(v T) {
		doSelect(false, "chan send", []Case{&SendCase[T]{ch: c, v: v}})
	}
}

// TrySendEvent sends without blocking from scheduler context (timers, signals).
func TrySendEvent[T any](ch chan T, v T) bool {
	c := &SendCase[T]{ch: ch, v: v}
	return c.try()
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	enter()
	c := *(*chan T)(unsafe.Pointer(&ch))
	close(c)
	p := chp(c)
	if s := w.chFind(p); s != nil {
		for {
			dropDead(&s.recv)
			x := s.recv.head
			if x == nil {
				break
			}
			w.fire(x, true)
		}
		for {
			dropDead(&s.send)
			x := s.send.head
			if x == nil {
				break
			}
			w.fire(x, true)
		}
		w.chGC(p)
	}
}
