package vsched

import (
	"reflect"
	"runtime"
	"unsafe"
)

type waiter struct {
	t     *thread
	idx   int
	val   interface{}
	fired *bool
}

type chanState struct {
	ptr    unsafe.Pointer
	keep   interface{}
	cap    int
	buf    []interface{}
	slots  []byte // happens-before tokens of the buffer slots
	sent   int
	recvd  int
	closed bool
	closeT byte
	recvq  []*waiter
	sendq  []*waiter
	id     int
}

func lookup(ptr unsafe.Pointer, cap int, keep interface{}) *chanState {
	if RaceEnabled || len(s.chans) < 16 { // maps tell the race detector
		for _, c := range s.chans {
			if c.ptr == ptr {
				return c
			}
		}
	} else {
		for i := len(s.byPtr); i < len(s.chans); i++ {
			if s.byPtr == nil {
				s.byPtr = map[unsafe.Pointer]*chanState{}
			}
			s.byPtr[s.chans[i].ptr] = s.chans[i]
		}
		if c := s.byPtr[ptr]; c != nil {
			return c
		}
	}
	var c = &chanState{ptr: ptr, keep: keep, cap: cap, slots: make([]byte, cap+1), id: len(s.chans)}
	s.chans = append(s.chans, c)
	return c
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		var w = (*q)[0]
		*q = (*q)[1:]
		if !*w.fired {
			*w.fired = true
			return w
		}
	}
	return nil
}

func waiting(q []*waiter) bool {
	for _, w := range q {
		if !*w.fired {
			return true
		}
	}
	return false
}

// pair announces the two-way synchronisation between the running thread and a parked one.
func pair(p *thread) {
	raceAcquire(unsafe.Pointer(&p.token))
	raceRelease(unsafe.Pointer(&p.back))
}

func canSend(c *chanState) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || waiting(c.recvq))
}

func canRecv(c *chanState) bool {
	return c != nil && (c.closed || len(c.buf) > 0 || waiting(c.sendq))
}

func doSend(c *chanState, v interface{}) {
	if c.closed {
		panic("send on closed channel")
	}
	if w := pop(&c.recvq); w != nil {
		w.t.rVal, w.t.rOk, w.t.rIdx = v, true, w.idx
		pair(w.t)
		ready(w.t)
		return
	}
	var slot = unsafe.Pointer(&c.slots[c.sent%c.cap])
	raceAcquire(slot)
	raceRelease(slot)
	c.sent++
	c.buf = append(c.buf, v)
}

func doRecv(c *chanState) (interface{}, bool) {
	if len(c.buf) > 0 {
		var v = c.buf[0]
		c.buf = c.buf[1:]
		var slot = unsafe.Pointer(&c.slots[c.recvd%c.cap])
		raceAcquire(slot)
		raceRelease(slot)
		c.recvd++
		if w := pop(&c.sendq); w != nil {
			var sl = unsafe.Pointer(&c.slots[c.sent%c.cap])
			raceAcquire(unsafe.Pointer(&w.t.token))
			raceRelMerge(sl)
			raceRelease(unsafe.Pointer(&w.t.back))
			c.sent++
			c.buf = append(c.buf, w.val)
			w.t.rIdx = w.idx
			ready(w.t)
		}
		return v, true
	}
	if w := pop(&c.sendq); w != nil {
		w.t.rIdx = w.idx
		pair(w.t)
		ready(w.t)
		return w.val, true
	}
	raceAcquire(unsafe.Pointer(&c.closeT))
	return nil, false // closed
}

func sendImpl(ptr unsafe.Pointer, cap int, keep, v interface{}) {
	if s.cur.killed {
		runtime.Goexit()
	}
	point("send")
	if ptr == nil {
		park("send on nil channel")
	}
	var c = lookup(ptr, cap, keep)
	if canSend(c) {
		doSend(c, v)
		return
	}
	var t = s.cur
	var fired = false
	t.rPanic = ""
	raceRelease(unsafe.Pointer(&t.token))
	c.sendq = append(c.sendq, &waiter{t: t, val: v, fired: &fired})
	park("send")
	raceAcquire(unsafe.Pointer(&t.back))
	if t.rPanic != "" {
		panic(t.rPanic)
	}
}

func recvImpl(ptr unsafe.Pointer, cap int, keep interface{}) (interface{}, bool) {
	if s.cur.killed {
		runtime.Goexit()
	}
	point("recv")
	if ptr == nil {
		park("receive from nil channel")
	}
	var c = lookup(ptr, cap, keep)
	if canRecv(c) {
		return doRecv(c)
	}
	var t = s.cur
	var fired = false
	raceRelease(unsafe.Pointer(&t.token))
	c.recvq = append(c.recvq, &waiter{t: t, fired: &fired})
	park("recv")
	raceAcquire(unsafe.Pointer(&t.back))
	var v, ok = t.rVal, t.rOk
	t.rVal = nil
	return v, ok
}

func closeImpl(ptr unsafe.Pointer, cap int, keep interface{}) {
	if s.cur.killed {
		return
	}
	point("close")
	if ptr == nil {
		panic("close of nil channel")
	}
	var c = lookup(ptr, cap, keep)
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	raceRelease(unsafe.Pointer(&c.closeT))
	for w := pop(&c.recvq); w != nil; w = pop(&c.recvq) {
		w.t.rVal, w.t.rOk, w.t.rIdx = nil, false, w.idx
		raceRelease(unsafe.Pointer(&w.t.back))
		ready(w.t)
	}
	for w := pop(&c.sendq); w != nil; w = pop(&c.sendq) {
		w.t.rPanic, w.t.rIdx = "send on closed channel", w.idx
		ready(w.t)
	}
}

func lenImpl(ptr unsafe.Pointer, cap int, keep interface{}) int {
	if ptr == nil {
		return 0
	}
	return len(lookup(ptr, cap, keep).buf)
}

// Case is one case of a select statement.
type Case struct {
	send bool
	ptr  unsafe.Pointer
	cap  int
	keep interface{}
	val  interface{}
}

// Selected is the outcome of a select statement.
type Selected struct {
	Idx int
	val interface{}
	ok  bool
}

// Select models a select statement; Idx is -1 for the default case.
func Select(hasDefault bool, cases ...Case) *Selected {
	if !active() {
		return nativeSelect(hasDefault, cases)
	}
	if s.cur.killed {
		runtime.Goexit()
	}
	point("select")
	var cs = make([]*chanState, len(cases))
	var rdy []int
	for i := range cases {
		if cases[i].ptr == nil {
			continue
		}
		cs[i] = lookup(cases[i].ptr, cases[i].cap, cases[i].keep)
		if cases[i].send && canSend(cs[i]) || !cases[i].send && canRecv(cs[i]) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		var i = rdy[0]
		if len(rdy) > 1 {
			i = rdy[Choose(len(rdy), s.opt.SelectCost, "select")]
		}
		if cases[i].send {
			doSend(cs[i], cases[i].val)
			return &Selected{Idx: i}
		}
		var v, ok = doRecv(cs[i])
		return &Selected{Idx: i, val: v, ok: ok}
	}
	if hasDefault {
		return &Selected{Idx: -1}
	}
	var t = s.cur
	var fired = false
	t.rPanic = ""
	raceRelease(unsafe.Pointer(&t.token))
	for i := range cases {
		if cs[i] == nil {
			continue
		}
		var w = &waiter{t: t, idx: i, val: cases[i].val, fired: &fired}
		if cases[i].send {
			cs[i].sendq = append(cs[i].sendq, w)
		} else {
			cs[i].recvq = append(cs[i].recvq, w)
		}
	}
	park("select")
	raceAcquire(unsafe.Pointer(&t.back))
	if t.rPanic != "" {
		panic(t.rPanic)
	}
	var r = &Selected{Idx: t.rIdx, val: t.rVal, ok: t.rOk}
	t.rVal = nil
	return r
}

func nativeSelect(hasDefault bool, cases []Case) *Selected {
	var l = make([]reflect.SelectCase, len(cases))
	for i, c := range cases {
		l[i].Chan = reflect.ValueOf(c.keep)
		l[i].Dir = reflect.SelectRecv
		if c.send {
			l[i].Dir = reflect.SelectSend
			var e = l[i].Chan.Type().Elem()
			l[i].Send = reflect.Zero(e)
			if c.val != nil {
				l[i].Send = reflect.ValueOf(c.val)
			}
		}
	}
	if hasDefault {
		l = append(l, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	var i, v, ok = reflect.Select(l)
	if hasDefault && i == len(cases) {
		return &Selected{Idx: -1}
	}
	var r = &Selected{Idx: i, ok: ok}
	if v.IsValid() {
		r.val = v.Interface()
	}
	return r
}

func ptrOf[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// SendOn models the send statement c <- v as SendOn(c)(v).
func SendOn[T any](c chan<- T) func(T) {
	return func(v T) {
		if !active() {
			c <- v
			return
		}
		sendImpl(ptrOf(c), cap(c), c, v)
	}
}

// Recv models <-c.
func Recv[T any](c <-chan T) T {
	var v, _ = Recv2(c)
	return v
}

// Recv2 models v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if !active() {
		v, ok := <-c
		return v, ok
	}
	var x, ok = recvImpl(ptrOf(c), cap(c), c)
	var v, _ = x.(T)
	return v, ok
}

// Close models close(c).
func Close[T any](c chan<- T) {
	if !active() {
		close(c)
		return
	}
	closeImpl(ptrOf(c), cap(c), c)
}

// Len models len(c).
func Len[T any](c <-chan T) int {
	if !active() {
		return len(c)
	}
	return lenImpl(ptrOf(c), cap(c), c)
}

// LenS models len(c) of a send-only channel.
func LenS[T any](c chan<- T) int {
	if !active() {
		return len(c)
	}
	return lenImpl(ptrOf(c), cap(c), c)
}

// RecvCase is a receive case of a select statement.
type RecvCase[T any] struct{ C Case }

// NewRecv builds a receive case.
func NewRecv[T any](c <-chan T) RecvCase[T] {
	return RecvCase[T]{Case{ptr: ptrOf(c), cap: cap(c), keep: c}}
}

// Get is the value received.
func (r RecvCase[T]) Get(sel *Selected) T {
	var v, _ = sel.val.(T)
	return v
}

// Get2 is the value received and whether it came from a send.
func (r RecvCase[T]) Get2(sel *Selected) (T, bool) {
	var v, _ = sel.val.(T)
	return v, sel.ok
}

// SendCase builds a send case as SendCaseOn(c)(v).
func SendCaseOn[T any](c chan<- T) func(T) Case {
	return func(v T) Case {
		return Case{send: true, ptr: ptrOf(c), cap: cap(c), keep: c, val: v}
	}
}
