//go:build go1.21

package simrt

import (
	"fmt"
	"runtime"
	"unsafe"
)

// hchan is the simulated state of a channel. The real channel value is used only as an identity; its
// semantics (FIFO buffer, FIFO waiters, direct hand-off, close) mirror the Go runtime's.
type hchan struct {
	id     uint64
	cap    int
	buf    []any
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	keep   any // keeps the real channel alive so that its address is not reused
}

type waiter struct {
	t    *Task
	c    *hchan
	elem any
	ok   bool
	sel  *selGroup
	idx  int
}

type selGroup struct {
	fired bool
	w     *waiter
}

type poller struct {
	t   *Task
	try func() bool
	ok  bool
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// channels made by package initialisation, before any run
var initChans = map[uintptr]*hchan{}

// initChan is the state of a channel before any run, for operations of package initialisation.
func initChan(p uintptr, what string) *hchan {
	c := initChans[p]
	if c == nil {
		panic("simrt: " + what + " outside of a simulation")
	}
	return c
}

func chanPtr[T any](c chan T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c))) }

// MakeChan registers a channel made by instrumented code and returns it.
func MakeChan[C ~chan T, T any](c C) C {
	p := uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	s := cur
	if s == nil {
		initChans[p] = &hchan{cap: cap(c)}
		initKeep = append(initKeep, c)
		return c
	}
	s.chanSeq++
	s.chans[p] = &hchan{id: s.chanSeq, cap: cap(c), keep: c}
	return c
}

var initKeep []any

// lookup finds the simulated state; nil if the channel belongs to code that is not simulated.
func (s *Sim) lookup(p uintptr) *hchan {
	if h := s.chans[p]; h != nil {
		return h
	}
	if c := initChans[p]; c != nil {
		s.chanSeq++
		h := &hchan{id: s.chanSeq, cap: c.cap, closed: c.closed, buf: append([]any(nil), c.buf...)}
		s.chans[p] = h
		return h
	}
	return nil
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
			w.sel.w = w
		}
		return w
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *hchan) canRecv() bool { return len(c.buf) > 0 || c.closed || hasWaiter(c.sendq) }
func (c *hchan) canSend() bool { return c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq) }

// doRecv performs a receive that canRecv.
func (s *Sim) doRecv(c *hchan) (any, bool) {
	s.note(c.id<<8 | 1)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf[0] = nil
		c.buf = c.buf[1:]
		if w := deq(&c.sendq); w != nil {
			c.buf = append(c.buf, w.elem)
			w.ok = true
			s.ready(w.t)
		}
		return v, true
	}
	if w := deq(&c.sendq); w != nil {
		w.ok = true
		s.ready(w.t)
		return w.elem, true
	}
	return nil, false // closed
}

// doSend performs a send that canSend.
func (s *Sim) doSend(c *hchan, v any) {
	s.note(c.id<<8 | 2)
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if w := deq(&c.recvq); w != nil {
		w.elem, w.ok = v, true
		s.ready(w.t)
		return
	}
	c.buf = append(c.buf, v)
}

func (s *Sim) blockForever(why string) {
	for {
		s.block(why)
	}
}

func enter() *Sim {
	s := cur
	if s == nil {
		panic("simrt: channel operation outside of a simulation")
	}
	if s.killing {
		return s
	}
	s.point()
	return s
}

func sendAny(c *hchan, v any) {
	s := cur
	if c.canSend() {
		s.doSend(c, v)
		return
	}
	if s.killing {
		runtime.Goexit()
	}
	w := &waiter{t: s.cur, c: c, elem: v}
	c.sendq = append(c.sendq, w)
	s.block(fmt.Sprintf("chan send (#%d)", c.id))
	if !w.ok {
		panic(plainError("send on closed channel"))
	}
}

func recvAny(c *hchan) (any, bool) {
	s := cur
	if c.canRecv() {
		return s.doRecv(c)
	}
	if s.killing {
		runtime.Goexit()
	}
	w := &waiter{t: s.cur, c: c}
	c.recvq = append(c.recvq, w)
	s.block(fmt.Sprintf("chan receive (#%d)", c.id))
	return w.elem, w.ok
}

// SendTo returns the send operation of a channel: SendTo(ch)(v) is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		p := uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
		if cur == nil {
			c := initChan(p, "send")
			if c.closed || len(c.buf) == c.cap {
				panic("simrt: send outside of a simulation cannot proceed")
			}
			c.buf = append(c.buf, v)
			return
		}
		s := enter()
		if p == 0 {
			s.blockForever("send on nil channel")
		}
		c := s.lookup(p)
		if c == nil {
			s.foreign(func() bool {
				select {
				case ch <- v:
					return true
				default:
					return false
				}
			})
			return
		}
		sendAny(c, v)
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	p := uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	if cur == nil {
		c := initChan(p, "receive")
		if len(c.buf) == 0 {
			if !c.closed {
				panic("simrt: receive outside of a simulation cannot proceed")
			}
			var v T
			return v, false
		}
		v, _ := c.buf[0].(T)
		c.buf = c.buf[1:]
		return v, true
	}
	s := enter()
	if p == 0 {
		s.blockForever("receive from nil channel")
	}
	c := s.lookup(p)
	if c == nil {
		var v T
		var ok bool
		s.foreign(func() bool {
			select {
			case v, ok = <-ch:
				return true
			default:
				return false
			}
		})
		return v, ok
	}
	x, ok := recvAny(c)
	v, _ := x.(T)
	return v, ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := cur
	if s == nil {
		initChan(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))), "close").closed = true
		return
	}
	if !s.killing {
		s.point()
	}
	closeAny(ch)
}

// CloseNow is Close without a preemption point; shims use it from timer callbacks.
func CloseNow[T any](ch chan T) {
	if cur != nil {
		closeAny[T](ch)
	}
}

func closeAny[T any](ch chan<- T) {
	s := cur
	p := uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	if p == 0 {
		panic(plainError("close of nil channel"))
	}
	c := s.lookup(p)
	if c == nil {
		close(ch)
		return
	}
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	s.note(c.id<<8 | 3)
	c.closed = true
	for {
		w := deq(&c.recvq)
		if w == nil {
			break
		}
		w.elem, w.ok = nil, false
		s.ready(w.t)
	}
	for {
		w := deq(&c.sendq)
		if w == nil {
			break
		}
		w.ok = false
		s.ready(w.t)
	}
}

// TrySendNow performs a non-blocking send without a preemption point; shims use it from timer callbacks.
func TrySendNow[T any](ch chan T, v T) bool {
	s := cur
	if s == nil || s.killing {
		return false
	}
	c := s.lookup(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))))
	if c == nil || !c.canSend() {
		return false
	}
	s.doSend(c, v)
	return true
}

// LenSend is Len of a channel that can only be sent to.
func LenSend[T any](ch chan<- T) int { return Len(*(*<-chan T)(unsafe.Pointer(&ch))) }

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	s := cur
	if s == nil || ch == nil {
		return len(ch)
	}
	if !s.killing {
		s.point()
	}
	if c := s.lookup(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))); c != nil {
		return len(c.buf)
	}
	return len(ch)
}

// foreign performs an operation on a channel owned by code that is not simulated, by polling.
func (s *Sim) foreign(try func() bool) {
	if try() {
		return
	}
	if s.killing {
		runtime.Goexit()
	}
	p := &poller{t: s.cur, try: try}
	s.pollers = append(s.pollers, p)
	for !p.ok {
		s.block("operation on a foreign channel")
	}
}

func (s *Sim) pollForeign() bool {
	any := false
	for i := 0; i < len(s.pollers); i++ {
		p := s.pollers[i]
		if p.try() {
			p.ok = true
			s.pollers = append(s.pollers[:i], s.pollers[i+1:]...)
			i--
			s.ready(p.t)
			any = true
		}
	}
	return any
}

// Case is one clause of a select.
type Case interface{ base() *caseBase }

type caseBase struct {
	p    uintptr
	send bool
	val  any
	ok   bool
	try  func() bool // foreign channels
	w    *waiter
}

// RecvCase is a receive clause.
type RecvCase[T any] struct {
	caseBase
	fv T
	f  bool
}

func (c *RecvCase[T]) base() *caseBase { return &c.caseBase }

// V returns the received value.
func (c *RecvCase[T]) V() T {
	if c.f {
		return c.fv
	}
	v, _ := c.val.(T)
	return v
}

// V2 returns the received value and whether it came from a send.
func (c *RecvCase[T]) V2() (T, bool) { return c.V(), c.ok }

// SendCase is a send clause.
type SendCase struct{ caseBase }

func (c *SendCase) base() *caseBase { return &c.caseBase }

// CaseRecv builds a receive clause.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{}
	c.p = uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	if s := cur; c.p != 0 && s != nil && s.lookup(c.p) == nil {
		c.f = true
		c.try = func() bool {
			select {
			case c.fv, c.ok = <-ch:
				return true
			default:
				return false
			}
		}
	}
	return c
}

// CaseSend builds a send clause: CaseSend(ch)(v).
func CaseSend[T any](ch chan<- T) func(T) *SendCase {
	return func(v T) *SendCase {
		c := &SendCase{}
		c.send = true
		c.val = v
		c.p = uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
		if s := cur; c.p != 0 && s != nil && s.lookup(c.p) == nil {
			c.try = func() bool {
				select {
				case ch <- v:
					return true
				default:
					return false
				}
			}
		}
		return c
	}
}

// initSelect is Select in package initialisation: the first clause that is ready.
func initSelect(hasDefault bool, cases []Case) int {
	for i, ci := range cases {
		b := ci.base()
		c := initChans[b.p]
		switch {
		case c == nil:
		case b.send && !c.closed && len(c.buf) < c.cap:
			c.buf = append(c.buf, b.val)
			return i
		case !b.send && len(c.buf) > 0:
			b.val, b.ok = c.buf[0], true
			c.buf = c.buf[1:]
			return i
		case !b.send && c.closed:
			return i
		}
	}
	if !hasDefault {
		panic("simrt: select outside of a simulation cannot proceed")
	}
	return -1
}

// Select executes a select statement and returns the index of the chosen clause, -1 for default.
func Select(site uint32, hasDefault bool, cases ...Case) int {
	s := cur
	if s == nil {
		return initSelect(hasDefault, cases)
	}
	if !s.killing {
		s.cur.site = site
		s.point()
	}
	var rdy []int
	hs := make([]*hchan, len(cases))
	for i, ci := range cases {
		b := ci.base()
		if b.p == 0 {
			continue
		}
		if b.try != nil {
			continue
		}
		c := s.lookup(b.p)
		hs[i] = c
		if b.send && c.canSend() || !b.send && c.canRecv() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) == 0 {
		for i, ci := range cases {
			if b := ci.base(); b.try != nil && b.try() {
				return i
			}
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 {
			k = TaskDraw("select", len(rdy))
		}
		i := rdy[k]
		b := cases[i].base()
		if b.send {
			s.doSend(hs[i], b.val)
		} else {
			b.val, b.ok = s.doRecv(hs[i])
		}
		s.note(uint64(i)<<8 | 7)
		return i
	}
	if hasDefault {
		s.note(8)
		return -1
	}
	if s.killing {
		runtime.Goexit()
	}
	g := &selGroup{}
	var fp *poller
	for i, ci := range cases {
		b := ci.base()
		if b.p == 0 {
			continue
		}
		if b.try != nil {
			i, try := i, b.try
			fp = &poller{t: s.cur, try: func() bool {
				if g.fired {
					return false
				}
				if try() {
					g.fired = true
					g.w = &waiter{idx: i, ok: true}
					return true
				}
				return false
			}}
			s.pollers = append(s.pollers, fp)
			continue
		}
		w := &waiter{t: s.cur, c: hs[i], sel: g, idx: i, elem: b.val}
		if b.send {
			hs[i].sendq = append(hs[i].sendq, w)
		} else {
			hs[i].recvq = append(hs[i].recvq, w)
		}
	}
	s.block("select")
	for !g.fired {
		s.block("select")
	}
	w := g.w
	// Drop our stale waiters so that long-lived channels do not accumulate them.
	for i, ci := range cases {
		if hs[i] == nil || i == w.idx {
			continue
		}
		q := &hs[i].recvq
		if ci.base().send {
			q = &hs[i].sendq
		}
		k := 0
		for _, x := range *q {
			if x.sel != g {
				(*q)[k] = x
				k++
			}
		}
		*q = (*q)[:k]
	}
	if fp != nil {
		k := 0
		for _, p := range s.pollers {
			if p.t != s.cur {
				s.pollers[k] = p
				k++
			}
		}
		s.pollers = s.pollers[:k]
	}
	b := cases[w.idx].base()
	if b.send && b.try == nil && !w.ok {
		panic(plainError("send on closed channel"))
	}
	if !b.send && b.try == nil {
		b.val, b.ok = w.elem, w.ok
	}
	s.note(uint64(w.idx)<<8 | 9)
	return w.idx
}

// BlockForever is select{}.
func BlockForever() {
	s := enter()
	s.blockForever("select with no cases")
}
