// Package vsched is a controlled scheduler with a virtual clock: the instrumented
// program hands every goroutine creation, lock, channel operation, wait, sleep and
// clock reading to it, exactly one goroutine runs at a time, and every choice of who
// runs next is taken from an explorer.
//
// It is compiled without race instrumentation and without inlining, and its own
// hand-offs are hidden from the race detector; only the happens-before edges of the
// modelled operations are announced to it.  So a race reported while a schedule is
// being executed is a race of the program under that schedule.
package vsched

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

const (
	stRunnable = iota
	stBlocked
	stSleeping
	stDone
)

type thread struct {
	id      int
	name    string
	wake    chan struct{}
	exited  chan struct{}
	state   int
	yielded bool
	served  int // times served after a yield since the clock moved
	killed  bool
	wakeAt  time.Duration
	why     string
	pending bool // a timer that has not elapsed

	// result of a parked channel operation
	rVal   interface{}
	rOk    bool
	rIdx   int
	rPanic string

	token byte // address used for happens-before edges of parked operations
	back  byte
	end   byte
}

// Decision is one point of an execution where more than one continuation was possible.
type Decision struct {
	N      int    // number of alternatives
	Chosen int    // alternative taken
	Costs  []int  // deviation cost of every alternative
	What   string // description of the point (thread and operation, or environment choice)
}

// Options bound one execution.
type Options struct {
	Prefix     []int         // forced choices, then alternative 0 everywhere
	FreeSwitch bool          // choosing another thread at a blocking point costs nothing
	MaxSteps   int           // horizon of one execution
	RaceWindow time.Duration // sleeps of at most this length may end early (cost 1)
	SelectCost int           // cost of a non-first ready case of a select
	Trace      bool          // record a readable trace
	NumCPU     int           // what the program sees as the number of CPUs
}

// Result is what one execution showed.
type Result struct {
	Decisions []Decision
	Steps     int
	Threads   int
	MaxTime   time.Duration
	Failures  []string // assertion failures recorded by the harness
	Deadlock  string   // non empty when the main thread could never finish
	Horizon   bool     // step limit reached
	Panic     string   // a goroutine died of a panic
	Races     int      // races reported during the execution
	LateRaces int      // races reported while its remains were disposed of
	Diverged  string   // the forced prefix did not fit: the execution is not deterministic
	Trace     []string
	Outcome   string
	Leaked    []string // threads still alive when the main thread finished
}

type sched struct {
	opt      Options
	threads  []*thread // that have not ended, in order of creation
	created  int
	ends     byte // what ends of threads synchronize with
	cur      *thread
	now      time.Duration
	chans    []*chanState
	byPtr    map[unsafe.Pointer]*chanState
	res      *Result
	mainDone chan struct{}
	over     bool
	prefix   []int
	nDec     int
	rr       int
	lines    []traceLine
}

type traceLine struct {
	now  time.Duration
	name string
	f    string
	args []interface{}
}

var s *sched

// Base is the date of the virtual clock at the start of every execution.
var Base = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

func active() bool { return s != nil }

// progress counts the visible operations of this process. It is not atomic: an atomic
// operation would order the accesses of the threads for the race detector.
var progress uint64

// Progress returns the number of visible operations of this process.
func Progress() uint64 { return progress }

// Advance counts an operation that is not visible.
func Advance() { progress++ }

// Run executes body as the main thread under the given options.
func Run(opt Options, body func()) *Result {
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 20000
	}
	if opt.NumCPU == 0 {
		opt.NumCPU = 2
	}
	s = &sched{opt: opt, res: &Result{}, mainDone: make(chan struct{}), prefix: opt.Prefix}
	s.threads = make([]*thread, 0, 64)
	s.chans = make([]*chanState, 0, 64)
	var before = raceErrors()
	var main = s.newThread("main")
	s.start(main, body)
	s.cur = main
	raceOff()
	main.wake <- struct{}{}
	<-s.mainDone
	raceOn()
	s.over = true
	s.res.Races = raceErrors() - before
	for _, t := range s.threads {
		if t.state != stDone {
			s.res.Leaked = append(s.res.Leaked, t.name+": "+t.why)
		}
	}
	// dispose of the remaining goroutines, one at a time
	for i := 0; i < len(s.threads); i++ {
		var t = s.threads[i]
		if t.state != stDone {
			t.killed = true
			s.cur = t
			raceOff()
			t.wake <- struct{}{}
			raceOn()
			<-t.exited
		}
	}
	raceAcquire(unsafe.Pointer(&s.ends)) // what comes next comes after this execution
	s.res.LateRaces = raceErrors() - before - s.res.Races
	s.res.Threads = s.created
	s.res.MaxTime = s.now
	var res = s.res
	for _, l := range s.lines {
		res.Trace = append(res.Trace, fmt.Sprintf("%8s %-14s ", l.now, l.name)+fmt.Sprintf(l.f, l.args...))
	}
	s = nil
	return res
}

func (s *sched) newThread(name string) *thread {
	var t = &thread{
		id: s.created, name: name,
		wake: make(chan struct{}, 1), exited: make(chan struct{}), why: "start",
	}
	s.created++
	s.threads = append(s.threads, t)
	return t
}

func (s *sched) forget(t *thread) {
	var i = sort.Search(len(s.threads), func(i int) bool { return s.threads[i].id >= t.id })
	for ; i+1 < len(s.threads); i++ { // copy would tell the race detector
		s.threads[i] = s.threads[i+1]
	}
	s.threads[i] = nil
	s.threads = s.threads[:i]
}

func (s *sched) start(t *thread, f func()) {
	go func() {
		defer func() {
			if t.killed {
				close(t.exited)
			}
		}()
		var normal = false
		defer func() {
			var r = recover()
			raceRelease(unsafe.Pointer(&t.end))
			raceRelMerge(unsafe.Pointer(&s.ends))
			if t.killed || s.over {
				t.state = stDone
				return
			}
			if r != nil {
				var buf = make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				s.res.Panic = fmt.Sprintf("goroutine %s died: %v\n%s", t.name, r, trimStack(string(buf)))
				t.state = stDone
				s.finish()
				return
			}
			_ = normal
			t.state = stDone
			s.forget(t)
			s.tracef(t, "exit")
			if t.id == 0 {
				s.finish()
				return
			}
			s.wakeJoiners(t)
			s.schedule(t, "exit")
		}()
		raceOff()
		<-t.wake
		raceOn()
		if t.killed {
			return
		}
		f()
		normal = true
	}()
}

func trimStack(st string) string {
	var lines = strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "vsched") || strings.Contains(l, "runtime/") || strings.Contains(l, "panic(") {
			continue
		}
		out = append(out, strings.TrimSpace(l))
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, " | ")
}

func (s *sched) finish() {
	if !s.over {
		s.over = true
		raceOff()
		close(s.mainDone)
		raceOn()
	}
}

func (s *sched) tracef(t *thread, f string, args ...interface{}) {
	if s.opt.Trace {
		// formatted later: formatting synchronizes through pools, which would hide races
		s.lines = append(s.lines, traceLine{s.now, t.name, f, args})
	}
}

// decide takes the next choice among n alternatives.
func (s *sched) decide(costs []int, what string) int {
	var n = len(costs)
	if n == 1 {
		return 0
	}
	var c = 0
	if s.nDec < len(s.prefix) {
		c = s.prefix[s.nDec]
		if c < 0 || c >= n {
			s.res.Diverged = fmt.Sprintf("choice %d of %d at decision %d (%s)", c, n, s.nDec, what)
			c = 0
		}
	}
	s.nDec++
	s.res.Decisions = append(s.res.Decisions, Decision{N: n, Chosen: c, Costs: costs, What: what})
	return c
}

// point is a scheduling point of the current thread, before a visible operation.
func point(op string) {
	var t = s.cur
	if t.killed {
		return
	}
	t.why = op
	s.schedule(t, op)
	s.tracef(t, "%s", op)
}

// park blocks the current thread until some other thread makes it runnable.
func park(op string) {
	var t = s.cur
	t.why = op
	if t.killed {
		runtime.Goexit()
	}
	t.state = stBlocked
	s.tracef(t, "blocked: %s", op)
	s.schedule(t, op)
}

func ready(t *thread) {
	if t.state == stBlocked {
		t.state = stRunnable
	}
}

// schedule picks the thread that runs next and gives it the hand.
func (s *sched) schedule(t *thread, op string) {
	if s.over {
		// the execution was cut: wait to be disposed of
		s.hold(t)
		return
	}
	s.res.Steps++
	progress++
	if s.res.Steps > s.opt.MaxSteps {
		s.res.Horizon = true
		s.finish()
		s.hold(t)
		return
	}
	var next = s.pick(t, op)
	if next == nil {
		s.res.Deadlock = s.describe()
		s.finish()
		s.hold(t)
		return
	}
	if next == t {
		return
	}
	// some other thread makes a step: threads that yielded are served again afterwards
	for _, o := range s.threads {
		if o != next && o != t {
			o.yielded = false
		}
	}
	s.cur = next
	raceOff()
	next.wake <- struct{}{}
	raceOn()
	s.hold(t)
}

// hold waits for the hand.
func (s *sched) hold(t *thread) {
	if t.state == stDone {
		return
	}
	raceOff()
	<-t.wake
	raceOn()
	if t.killed {
		runtime.Goexit()
	}
}

func (s *sched) describe() string {
	var l []string
	for _, t := range s.threads {
		if t.state == stBlocked || t.state == stSleeping {
			l = append(l, t.name+" blocked at "+t.why)
		}
	}
	return strings.Join(l, "; ")
}

func (s *sched) pick(t *thread, op string) *thread {
	for {
		// candidates in round robin order, the current thread first
		var cand []*thread
		var lazy []*thread
		var n = len(s.threads)
		var first = sort.Search(n, func(i int) bool { return s.threads[i].id >= t.id })
		for k := 0; k < n; k++ {
			var o = s.threads[(first+k)%n]
			if o.state != stRunnable {
				continue
			}
			if o.yielded {
				lazy = append(lazy, o)
			} else {
				cand = append(cand, o)
			}
		}
		if len(cand) == 0 {
			// threads that yielded are served again twice, then the clock moves, by a
			// bounded step while such threads remain
			var again = false
			for _, o := range lazy {
				if o.served < 2 {
					o.served++
					o.yielded = false
					again = true
				}
			}
			if again {
				continue
			}
			if s.advance(len(lazy) > 0) {
				for _, o := range s.threads {
					o.served = 0
					if o != t {
						o.yielded = false
					}
				}
				continue
			}
			if len(lazy) == 0 {
				return nil
			}
			for _, o := range lazy {
				o.yielded = false
			}
			continue
		}
		var preempt = cand[0] == t
		var costs = make([]int, len(cand), len(cand)+len(lazy)+1)
		for i := 1; i < len(cand); i++ {
			if preempt || !s.opt.FreeSwitch {
				costs[i] = 1
			}
		}
		// a yielded thread may be served again at once: a deviation
		for range lazy {
			costs = append(costs, 1)
		}
		var early = s.opt.RaceWindow > 0 && s.raceable()
		if early {
			costs = append(costs, 1)
		}
		var what = ""
		if s.opt.Trace {
			what = t.name + "@" + op
		}
		var c = s.decide(costs, what)
		switch {
		case c < len(cand):
			cand[c].yielded = false
			return cand[c]
		case c < len(cand)+len(lazy):
			var o = lazy[c-len(cand)]
			o.yielded = false
			return o
		default:
			if o := s.advanceEarly(); o != nil {
				return o
			}
		}
	}
}

// earliest sleeping thread, or nil
func (s *sched) earliest() *thread {
	var first *thread
	for _, o := range s.threads {
		if o.state == stSleeping && (first == nil || o.wakeAt < first.wakeAt) {
			first = o
		}
	}
	return first
}

func (s *sched) raceable() bool {
	var first = s.earliest()
	return first != nil && first.wakeAt-s.now <= s.opt.RaceWindow
}

// quantum is the time that may pass while a thread spins.
const quantum = 50 * time.Millisecond

// advance moves the clock to the next wake-up, or by a quantum at most when some thread spins.
func (s *sched) advance(spinning bool) bool {
	var first = s.earliest()
	if first == nil {
		return false
	}
	if spinning && first.wakeAt > s.now+quantum {
		s.now += quantum
		return true
	}
	if first.wakeAt > s.now {
		s.now = first.wakeAt
	}
	for _, o := range s.threads {
		if o.state == stSleeping && o.wakeAt <= s.now {
			o.state = stRunnable
		}
	}
	return true
}

func (s *sched) advanceEarly() *thread {
	var first = s.earliest()
	s.advance(false)
	return first
}

// ---- operations of the harness -------------------------------------------------

// Go starts a thread (also what "go" statements are rewritten to).
func Go(f func()) {
	if !active() {
		go f()
		return
	}
	spawn("", f)
}

// Thread is a handle on a harness thread.
type Thread struct{ t *thread }

// GoNamed starts a harness thread.
func GoNamed(name string, f func()) Thread { return Thread{spawn(name, f)} }

func spawn(name string, f func()) *thread {
	if s.cur.killed {
		return nil
	}
	if name == "" {
		name = s.cur.name + "." + strconv.Itoa(s.created)
	}
	var t = s.newThread(name)
	s.tracef(s.cur, "go %s", name)
	s.start(t, f)
	return t
}

// Join waits for a harness thread.
func (h Thread) Join() {
	point("join " + h.t.name)
	for h.t.state != stDone {
		if s.cur.killed {
			runtime.Goexit()
		}
		park("join " + h.t.name)
	}
	raceAcquire(unsafe.Pointer(&h.t.end))
}

// Done tells whether the thread has ended.
func (h Thread) Done() bool { return h.t.state == stDone }

func (s *sched) wakeJoiners(t *thread) {
	var op = "join " + t.name
	for _, o := range s.threads {
		if o.state == stBlocked && o.why == op {
			ready(o)
		}
	}
}

// Yield is a scheduling point at which every other thread is served first.
func Yield() {
	if !active() {
		runtime.Gosched()
		return
	}
	var t = s.cur
	if t.killed {
		runtime.Goexit()
	}
	t.yielded = true
	t.why = "yield"
	s.schedule(t, "yield")
	s.tracef(t, "resumes after yield")
}

// Choose is an environment choice among n answers; non-zero answers cost cost.
func Choose(n int, cost int, what string) int {
	if !active() || s.cur.killed {
		return 0
	}
	var costs = make([]int, n)
	for i := 1; i < n; i++ {
		costs[i] = cost
	}
	var c = s.decide(costs, what)
	s.tracef(s.cur, "choice %s=%d", what, c)
	return c
}

// Fail records an assertion failure.
func Fail(f string, args ...interface{}) {
	if active() && !s.cur.killed && !s.over {
		var m = fmt.Sprintf(f, args...)
		s.res.Failures = append(s.res.Failures, m)
		s.tracef(s.cur, "FAIL %s", m)
	}
}

// Failed tells whether an assertion failed already.
func Failed() bool { return active() && len(s.res.Failures) > 0 }

// Log adds a line to the trace.
func Log(f string, args ...interface{}) {
	if active() {
		s.tracef(s.cur, f, args...)
	}
}

// SetOutcome describes what the execution observed.
func SetOutcome(o string) {
	if active() {
		s.res.Outcome = o
	}
}

// Clock is the virtual time since the start of the execution.
func Clock() time.Duration {
	if !active() {
		return 0
	}
	return s.now
}

// Stamp numbers harness events in the order they happened.
func Stamp() int {
	if !active() {
		return 0
	}
	s.rr++
	return s.rr
}

// Threads lists the threads that have not ended, with what they wait for. A timer that has
// not elapsed is not a thread.
func Threads() []string {
	var l []string
	for _, t := range s.threads {
		if t.state != stDone && t != s.cur && !t.pending {
			l = append(l, t.name+" at "+t.why)
		}
	}
	sort.Strings(l)
	return l
}

// Quiescent waits (in virtual time) until every other thread is blocked for good
// or d has passed.
func Settle(d time.Duration) { Sleep(d) }
