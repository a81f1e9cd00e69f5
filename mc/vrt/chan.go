package vrt

import "unsafe"

type selState struct {
	done bool
	idx  int
}

type waiter[T any] struct {
	v    T
	ok   bool
	done bool
	sel  *selState
	idx  int
}

//go:norace
func (w *waiter[T]) live() bool { return w.sel == nil || !w.sel.done }

//go:norace
func (w *waiter[T]) finish() {
	w.done = true
	if w.sel != nil {
		w.sel.done = true
		w.sel.idx = w.idx
	}
}

// Chan models a Go channel.
type Chan[T any] struct {
	o      Obj
	back   int32
	cap    int
	buf    []T
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]
}

// MakeChan models make(chan T, n).
//
//go:norace
func MakeChan[T any](n int) *Chan[T] { return &Chan[T]{cap: n} }

//go:norace
func (c *Chan[T]) relSend() {
	RaceReleaseMerge(unsafe.Pointer(&c.o))
	RaceAcquire(unsafe.Pointer(&c.back))
}

//go:norace
func (c *Chan[T]) acqRecv() {
	RaceAcquire(unsafe.Pointer(&c.o))
	RaceReleaseMerge(unsafe.Pointer(&c.back))
}

//go:norace
func popLive[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

//go:norace
func hasLive[T any](q []*waiter[T]) bool {
	for _, w := range q {
		if w.live() {
			return true
		}
	}
	return false
}

//go:norace
func (c *Chan[T]) canSend() bool {
	return c.closed || len(c.buf) < c.cap || hasLive(c.recvq)
}

//go:norace
func (c *Chan[T]) canRecv() bool {
	return c.closed || len(c.buf) > 0 || hasLive(c.sendq)
}

// doSend performs a send that canSend allows.
//
//go:norace
func (c *Chan[T]) doSend(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	c.relSend()
	if w := popLive(&c.recvq); w != nil {
		w.v, w.ok = v, true
		w.finish()
		return
	}
	c.buf = append(c.buf, v)
}

// doRecv performs a receive that canRecv allows.
//
//go:norace
func (c *Chan[T]) doRecv() (v T, ok bool) {
	c.acqRecv()
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w := popLive(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			w.ok = true
			w.finish()
		}
		return v, true
	}
	if w := popLive(&c.sendq); w != nil {
		v = w.v
		w.ok = true
		w.finish()
		return v, true
	}
	return v, false // closed
}

// trySend is used by timers: a non-blocking send outside any thread.
//
//go:norace
func (c *Chan[T]) TimerSend(v T) {
	if c.closed || !(len(c.buf) < c.cap || hasLive(c.recvq)) {
		return
	}
	c.o.h = mix(c.o.h, 0x7153)
	if w := popLive(&c.recvq); w != nil {
		w.v, w.ok = v, true
		w.finish()
		return
	}
	c.buf = append(c.buf, v)
}

//go:norace
func blockForever() {
	Point("blocked forever", func() bool { return false })
}

// BlockForever models select{}.
//
//go:norace
func BlockForever() {
	if Aborting() {
		return
	}
	blockForever()
}

// SendTo models ch <- v as SendTo(ch)(v).
//
//go:norace
func SendTo[T any](c *Chan[T]) func(T) {
	return func(v T) {
		if Aborting() {
			return
		}
		if c == nil {
			blockForever()
			return
		}
		Point("chan send", nil)
		Event(&c.o, 0xc1)
		if c.canSend() {
			c.doSend(v)
			return
		}
		w := &waiter[T]{v: v}
		RaceReleaseMerge(unsafe.Pointer(&c.o))
		c.sendq = append(c.sendq, w)
		Point("chan send (blocked)", func() bool { return w.done })
		Event(&c.o, 0xc2)
		RaceAcquire(unsafe.Pointer(&c.back))
		if !w.ok && !Aborting() {
			panic("send on closed channel")
		}
	}
}

// Recv2 models v, ok := <-ch.
//
//go:norace
func Recv2[T any](c *Chan[T]) (v T, ok bool) {
	if Aborting() {
		return v, false
	}
	if c == nil {
		blockForever()
		return v, false
	}
	Point("chan recv", nil)
	Event(&c.o, 0xc3)
	if c.canRecv() {
		return c.doRecv()
	}
	w := &waiter[T]{}
	RaceReleaseMerge(unsafe.Pointer(&c.back))
	c.recvq = append(c.recvq, w)
	Point("chan recv (blocked)", func() bool { return w.done })
	Event(&c.o, 0xc4)
	RaceAcquire(unsafe.Pointer(&c.o))
	return w.v, w.ok
}

// Recv models <-ch.
//
//go:norace
func Recv[T any](c *Chan[T]) T {
	v, _ := Recv2(c)
	return v
}

// Close models close(ch).
//
//go:norace
func Close[T any](c *Chan[T]) {
	if Aborting() {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	Point("chan close", nil)
	Event(&c.o, 0xc5)
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	RaceReleaseMerge(unsafe.Pointer(&c.o))
	for {
		w := popLive(&c.recvq)
		if w == nil {
			break
		}
		w.finish()
	}
	for {
		w := popLive(&c.sendq)
		if w == nil {
			break
		}
		w.finish()
	}
}

// Len and Cap model the builtins.
//
//go:norace
func Len[T any](c *Chan[T]) int {
	if c == nil || Aborting() {
		return 0
	}
	Point("chan len", nil)
	ReadEvent(&c.o, 0xc6)
	return len(c.buf)
}

//go:norace
func Cap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.cap
}

// Case of a select.
type Case interface {
	obj() *Obj
	ready() bool
	exec()
	enqueue(s *selState, idx int)
	resumed()
}

// RecvCase is a receive alternative.
type RecvCase[T any] struct {
	c  *Chan[T]
	w  *waiter[T]
	V  T
	OK bool
}

// CaseRecv builds a receive alternative.
//
//go:norace
func CaseRecv[T any](c *Chan[T]) *RecvCase[T] { return &RecvCase[T]{c: c} }

//go:norace
func (r *RecvCase[T]) obj() *Obj {
	if r.c == nil {
		return nil
	}
	return &r.c.o
}

//go:norace
func (r *RecvCase[T]) ready() bool { return r.c != nil && r.c.canRecv() }

//go:norace
func (r *RecvCase[T]) exec() { r.V, r.OK = r.c.doRecv() }

//go:norace
func (r *RecvCase[T]) enqueue(s *selState, i int) {
	if r.c == nil {
		return
	}
	r.w = &waiter[T]{sel: s, idx: i}
	RaceReleaseMerge(unsafe.Pointer(&r.c.back))
	r.c.recvq = append(r.c.recvq, r.w)
}

//go:norace
func (r *RecvCase[T]) resumed() {
	RaceAcquire(unsafe.Pointer(&r.c.o))
	r.V, r.OK = r.w.v, r.w.ok
}

// SendCase is a send alternative.
type SendCase[T any] struct {
	c *Chan[T]
	w *waiter[T]
	v T
}

// CaseSend builds a send alternative: CaseSend(ch)(v).
//
//go:norace
func CaseSend[T any](c *Chan[T]) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{c: c, v: v} }
}

//go:norace
func (s *SendCase[T]) obj() *Obj {
	if s.c == nil {
		return nil
	}
	return &s.c.o
}

//go:norace
func (s *SendCase[T]) ready() bool { return s.c != nil && s.c.canSend() }

//go:norace
func (s *SendCase[T]) exec() { s.c.doSend(s.v) }

//go:norace
func (s *SendCase[T]) enqueue(st *selState, i int) {
	if s.c == nil {
		return
	}
	s.w = &waiter[T]{sel: st, idx: i, v: s.v}
	RaceReleaseMerge(unsafe.Pointer(&s.c.o))
	s.c.sendq = append(s.c.sendq, s.w)
}

//go:norace
func (s *SendCase[T]) resumed() {
	RaceAcquire(unsafe.Pointer(&s.c.back))
	if !s.w.ok {
		panic("send on closed channel")
	}
}

// Select models a select statement and returns the index of the chosen case, -1 for default.
//
//go:norace
func Select(hasDefault bool, cases ...Case) int {
	if Aborting() {
		return -1
	}
	Point("select", nil)
	for _, c := range cases {
		if o := c.obj(); o != nil {
			Event(o, 0xc7)
		}
	}
	var rd []int
	for i, c := range cases {
		if c.ready() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		i := rd[Choose(len(rd))]
		cases[i].exec()
		return i
	}
	if hasDefault {
		return -1
	}
	s := &selState{}
	for i, c := range cases {
		c.enqueue(s, i)
	}
	Point("select (blocked)", func() bool { return s.done })
	if Aborting() {
		return -1
	}
	Event(cases[s.idx].obj(), 0xc8)
	cases[s.idx].resumed()
	return s.idx
}

// Drain empties the buffer (timer channels).
//
//go:norace
func (c *Chan[T]) Drain() {
	if Aborting() {
		return
	}
	Event(&c.o, 0xc9)
	c.buf = nil
}

// CloseNow closes from the clock's or another object's context.
//
//go:norace
func (c *Chan[T]) CloseNow() {
	if c.closed {
		return
	}
	c.closed = true
	c.o.h = mix(c.o.h, 0xc105e)
	RaceReleaseMerge(unsafe.Pointer(&c.o))
	for w := popLive(&c.recvq); w != nil; w = popLive(&c.recvq) {
		w.finish()
	}
}

// MakeNamed models make(C, n) for a named channel type.
//
//go:norace
func MakeNamed[C ~*Chan[T], T any](n int) C { return C(MakeChan[T](n)) }
