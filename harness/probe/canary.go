package probe

import (
	"time"

	"verif/vsched"
)

// Canary is a structure whose accesses are known to race, or not.
type Canary struct {
	mu     vsched.RWMutex
	values map[string]float64
	count  int
}

// Late writes after the lock is released.
func (c *Canary) Late() {
	c.mu.Lock()
	var v = c.values
	c.mu.Unlock()
	v["late"] = 1
	c.count++
}

// Locked writes under the lock.
func (c *Canary) Locked() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.values["locked"] = 1
	c.count++
}

// Read reads under the lock, after a while.
func (c *Canary) Read() (n int) {
	vsched.Sleep(time.Second)
	c.mu.RLock()
	defer c.mu.RUnlock()
	for range c.values {
		n++
	}
	vsched.Yield()
	return n + c.count
}

// Canaries says whether the detector reports the races of the canaries, and only these.
func Canaries() bool {
	var races = func(write func(*Canary)) int {
		return vsched.Run(vsched.Options{}, func() {
			var c = &Canary{values: map[string]float64{"a": 1}}
			var w = vsched.GoNamed("writer", func() { write(c) })
			var r = vsched.GoNamed("reader", func() { c.Read() })
			w.Join()
			r.Join()
		}).Races
	}
	return races((*Canary).Locked) == 0 && races((*Canary).Late) > 0
}
