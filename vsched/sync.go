package vsched

import (
	"runtime"
	"sync"
	"unsafe"
)

// Mutex models sync.Mutex.
type Mutex struct {
	locked bool
	native sync.Mutex
	w      []*thread
}

// Lock models sync.Mutex.Lock.
func (m *Mutex) Lock() {
	if !active() {
		m.native.Lock()
		return
	}
	if s.cur.killed {
		return
	}
	point("Mutex.Lock")
	for m.locked {
		m.w = append(m.w, s.cur)
		park("Mutex.Lock")
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
}

// TryLock models sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool {
	if !active() {
		return m.native.TryLock()
	}
	if s.cur.killed {
		return true
	}
	point("Mutex.TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock models sync.Mutex.Unlock.
func (m *Mutex) Unlock() {
	if !active() {
		m.native.Unlock()
		return
	}
	if s.cur.killed {
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.locked = false
	for _, t := range m.w {
		ready(t)
	}
	m.w = nil
}

// RWMutex models sync.RWMutex, with its preference for waiting writers.
type RWMutex struct {
	native  sync.RWMutex
	readers int       // readers holding the lock
	writer  bool      // a writer holds the lock
	pending *thread   // the writer that waits for the readers to leave
	wq      []*thread // writers that wait for the writer side
	rq      []*thread // readers that wait for the writer to leave
	granted []*thread // readers to which the lock was handed
	ra, wa  byte
}

// RLock models sync.RWMutex.RLock.
func (m *RWMutex) RLock() {
	if !active() {
		m.native.RLock()
		return
	}
	if s.cur.killed {
		return
	}
	point("RWMutex.RLock")
	if m.writer || m.pending != nil {
		var t = s.cur
		m.rq = append(m.rq, t)
		park("RWMutex.RLock")
	} else {
		m.readers++
	}
	raceAcquire(unsafe.Pointer(&m.wa))
}

// TryRLock models sync.RWMutex.TryRLock.
func (m *RWMutex) TryRLock() bool {
	if !active() {
		return m.native.TryRLock()
	}
	if s.cur.killed {
		return true
	}
	point("RWMutex.TryRLock")
	if m.writer || m.pending != nil {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.wa))
	return true
}

// RUnlock models sync.RWMutex.RUnlock.
func (m *RWMutex) RUnlock() {
	if !active() {
		m.native.RUnlock()
		return
	}
	if s.cur.killed {
		return
	}
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	raceRelMerge(unsafe.Pointer(&m.ra))
	m.readers--
	if m.readers == 0 && m.pending != nil {
		ready(m.pending)
	}
}

// Lock models sync.RWMutex.Lock.
func (m *RWMutex) Lock() {
	if !active() {
		m.native.Lock()
		return
	}
	if s.cur.killed {
		return
	}
	point("RWMutex.Lock")
	for m.writer || m.pending != nil {
		m.wq = append(m.wq, s.cur)
		park("RWMutex.Lock")
	}
	m.pending = s.cur
	for m.readers > 0 {
		park("RWMutex.Lock")
	}
	m.pending = nil
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.wa))
	raceAcquire(unsafe.Pointer(&m.ra))
}

// TryLock models sync.RWMutex.TryLock.
func (m *RWMutex) TryLock() bool {
	if !active() {
		return m.native.TryLock()
	}
	if s.cur.killed {
		return true
	}
	point("RWMutex.TryLock")
	if m.writer || m.pending != nil || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.wa))
	raceAcquire(unsafe.Pointer(&m.ra))
	return true
}

// Unlock models sync.RWMutex.Unlock.
func (m *RWMutex) Unlock() {
	if !active() {
		m.native.Unlock()
		return
	}
	if s.cur.killed {
		return
	}
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.wa))
	m.writer = false
	// the readers that wait are served before the next writer
	for _, t := range m.rq {
		m.readers++
		ready(t)
	}
	m.rq = nil
	for _, t := range m.wq {
		ready(t)
	}
	m.wq = nil
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker models sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// WaitGroup models sync.WaitGroup.
type WaitGroup struct {
	native sync.WaitGroup
	n      int
	w      []*thread
}

// Add models sync.WaitGroup.Add.
func (g *WaitGroup) Add(d int) {
	if !active() {
		g.native.Add(d)
		return
	}
	if s.cur.killed {
		return
	}
	if d < 0 {
		raceRelMerge(unsafe.Pointer(g))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		for _, t := range g.w {
			ready(t)
		}
		g.w = nil
	}
}

// Done models sync.WaitGroup.Done.
func (g *WaitGroup) Done() { g.Add(-1) }

// Go models sync.WaitGroup.Go.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Wait models sync.WaitGroup.Wait.
func (g *WaitGroup) Wait() {
	if !active() {
		g.native.Wait()
		return
	}
	if s.cur.killed {
		return
	}
	point("WaitGroup.Wait")
	for g.n > 0 {
		g.w = append(g.w, s.cur)
		park("WaitGroup.Wait")
	}
	raceAcquire(unsafe.Pointer(g))
}

// Once models sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do models sync.Once.Do.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc models sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue models sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// Cond models sync.Cond.
type Cond struct {
	L sync.Locker
	w []*thread
}

// NewCond models sync.NewCond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

// Wait models sync.Cond.Wait.
func (c *Cond) Wait() {
	if s.cur.killed {
		runtime.Goexit()
	}
	c.w = append(c.w, s.cur)
	c.L.Unlock()
	park("Cond.Wait")
	raceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal models sync.Cond.Signal.
func (c *Cond) Signal() {
	if s.cur.killed {
		return
	}
	point("Cond.Signal")
	raceRelMerge(unsafe.Pointer(c))
	if len(c.w) > 0 {
		ready(c.w[0])
		c.w = c.w[1:]
	}
}

// Broadcast models sync.Cond.Broadcast.
func (c *Cond) Broadcast() {
	if s.cur.killed {
		return
	}
	point("Cond.Broadcast")
	raceRelMerge(unsafe.Pointer(c))
	for _, t := range c.w {
		ready(t)
	}
	c.w = nil
}

// At makes the call of an atomic operation a scheduling point.
func At[F any](f F) F {
	atomicPoint()
	return f
}

func atomicPoint() {
	if active() && !s.cur.killed {
		point("atomic")
	}
}

// Gosched models runtime.Gosched.
func Gosched() { Yield() }

// NumCPU models runtime.NumCPU.
func NumCPU() int {
	if !active() {
		return nativeCPU
	}
	return s.opt.NumCPU
}

// GOMAXPROCS models runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int { return NumCPU() }

var nativeCPU = runtime.NumCPU()
