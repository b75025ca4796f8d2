package core_test

import (
	"sync"
	"time"

	"github.com/wearelumenai/distclus/core"
)

// demoConf is a configuration without parameter of its own.
type demoConf struct{ core.CtrlConf }

func (c *demoConf) Verify() error     { return nil }
func (c *demoConf) SetDefaultValues() {}

// demoImpl counts what it is asked.
type demoImpl struct {
	mutex      sync.Mutex
	iterations int
	pushed     []core.Elemt
	iterate    func(n int) error // called at each iteration
	init       func() error
}

func (i *demoImpl) Init(core.OCModel) (core.Clust, error) {
	if i.init != nil {
		if err := i.init(); err != nil {
			return nil, err
		}
	}
	return core.Clust{[]float64{0}}, nil
}

func (i *demoImpl) Iterate(core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	i.mutex.Lock()
	i.iterations++
	var n = i.iterations
	i.mutex.Unlock()
	if i.iterate != nil {
		if err := i.iterate(n); err != nil {
			return nil, nil, err
		}
	} else {
		time.Sleep(time.Millisecond)
	}
	return core.Clust{[]float64{float64(n)}}, nil, nil
}

func (i *demoImpl) Push(e core.Elemt, _ core.OCModel) error {
	i.mutex.Lock()
	defer i.mutex.Unlock()
	i.pushed = append(i.pushed, e)
	return nil
}

func (i *demoImpl) Copy(core.OCModel) (core.Impl, error) { return &demoImpl{}, nil }

func (i *demoImpl) count() int {
	i.mutex.Lock()
	defer i.mutex.Unlock()
	return i.iterations
}

// until waits for a condition, at most 10 seconds.
func until(cond func() bool) bool {
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if cond() {
			return true
		}
	}
	return cond()
}
