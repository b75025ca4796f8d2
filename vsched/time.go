package vsched

import (
	"runtime"
	"time"
	"unsafe"
)

// Now models time.Now.
func Now() time.Time {
	if !active() {
		return time.Now()
	}
	return Base.Add(s.now)
}

// Since models time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until models time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep models time.Sleep.
func Sleep(d time.Duration) {
	if !active() {
		time.Sleep(d)
		return
	}
	var t = s.cur
	if t.killed {
		return
	}
	if d <= 0 {
		point("sleep 0")
		return
	}
	t.state = stSleeping
	t.wakeAt = s.now + d
	t.why = "sleep " + d.String()
	s.tracef(t, "%s", t.why)
	s.schedule(t, t.why)
}

// Timer models time.Timer.
type Timer struct {
	C      <-chan time.Time
	c      chan time.Time
	f      func()
	t      *thread
	period time.Duration
	native *time.Timer
	tok    byte
	live   bool
	gen    int
}

func (tm *Timer) arm(d time.Duration) {
	tm.live = true
	tm.gen++
	var gen = tm.gen
	raceRelease(unsafe.Pointer(&tm.tok))
	tm.t = spawn("timer", func() {
		for {
			sleepTimer(tm, d)
			if !tm.live || tm.gen != gen {
				return
			}
			raceAcquire(unsafe.Pointer(&tm.tok))
			if tm.f != nil {
				tm.live = false
				tm.f()
				return
			}
			Select(true, SendCaseOn[time.Time](tm.c)(Now()))
			if tm.period == 0 {
				tm.live = false
				return
			}
			d = tm.period
		}
	})
}

func sleepTimer(tm *Timer, d time.Duration) {
	if d <= 0 {
		d = 1
	}
	s.cur.pending = true
	Sleep(d)
	s.cur.pending = false
}

func (tm *Timer) cancel() bool {
	var was = tm.live
	tm.live = false
	if was && tm.t != nil && tm.t.state == stSleeping {
		tm.t.state = stRunnable // ends at once
	}
	return was
}

// Stop models time.Timer.Stop.
func (tm *Timer) Stop() bool {
	if tm.native != nil {
		return tm.native.Stop()
	}
	if s.cur.killed {
		return false
	}
	point("Timer.Stop")
	return tm.cancel()
}

// Reset models time.Timer.Reset.
func (tm *Timer) Reset(d time.Duration) bool {
	if tm.native != nil {
		return tm.native.Reset(d)
	}
	if s.cur.killed {
		return false
	}
	point("Timer.Reset")
	var was = tm.cancel()
	tm.arm(d)
	return was
}

// NewTimer models time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	if !active() {
		var n = time.NewTimer(d)
		return &Timer{C: n.C, native: n}
	}
	if s.cur.killed {
		runtime.Goexit()
	}
	var c = make(chan time.Time, 1)
	var tm = &Timer{C: c, c: c}
	tm.arm(d)
	return tm
}

// AfterFunc models time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	if !active() {
		return &Timer{native: time.AfterFunc(d, f)}
	}
	if s.cur.killed {
		runtime.Goexit()
	}
	var tm = &Timer{f: f}
	tm.arm(d)
	return tm
}

// After models time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker models time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	tm *Timer
}

// NewTicker models time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	var c = make(chan time.Time, 1)
	var tm = &Timer{C: c, c: c, period: d}
	tm.arm(d)
	return &Ticker{C: c, tm: tm}
}

// Stop models time.Ticker.Stop.
func (t *Ticker) Stop() { t.tm.Stop() }

// Reset models time.Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) { t.tm.period = d; t.tm.Reset(d) }

// Tick models time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
