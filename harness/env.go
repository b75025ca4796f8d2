package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"verif/harness/probe"
	"verif/vsched"
)

// mockConf is the configuration of the mock implementation.
type mockConf struct {
	core.CtrlConf
}

// line is the one-dimensional space of the mock implementation.
type line struct{}

func vec(x ...float64) []float64 { return x }

func (line) Dist(a, b core.Elemt) float64 {
	var d = a.([]float64)[0] - b.([]float64)[0]
	if d < 0 {
		d = -d
	}
	return d
}

func (line) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	return vec((a.([]float64)[0]*float64(wa) + b.([]float64)[0]*float64(wb)) / float64(wa+wb))
}

func (line) Copy(a core.Elemt) core.Elemt { return vec(a.([]float64)[0]) }

func (line) Dim(data []core.Elemt) int { return 1 }

var errImpl = errors.New("impl failed")
var errInit = errors.New("init failed")
var errPush = errors.New("push failed")

// mock is an implementation whose behaviour is scripted; it checks the contract between
// the controller and an implementation.
type mock struct {
	initPanic int // number of Init calls that panic
	initErr   int // number of Init calls that fail
	failAt    int // iteration (1..) that fails, 0: never
	panicAt   int // iteration that panics
	nilEvery  int // every nth call of Iterate returns no centroids
	pushErr   bool
	err       error // what fails, errImpl and errInit by default
	noClust   bool  // initializations give no centroids
	noOverlap bool

	inits   int
	calls   int // calls of Iterate
	iters   int // calls that returned centroids since the last Init
	pushed  []core.Elemt
	inside  int
	lastEnd time.Duration
	onIter  func(m *mock, model core.OCModel)
	onCopy  func(model core.OCModel)
	starts  []time.Duration
	// called when an iteration returns
	afterIter func()
	figures   func(n int) core.RuntimeFigures
	noYield   bool
}

func (m *mock) enter(what string) {
	m.inside++
	if m.inside > 1 {
		vsched.Fail("two calls of the implementation at the same time (%s)", what)
	}
}

func (m *mock) leave() { m.inside-- }

func (m *mock) Init(model core.OCModel) (core.Clust, error) {
	m.enter("Init")
	defer m.leave()
	m.inits++
	m.calls, m.iters = 0, 0
	if !m.noYield {
		vsched.Yield()
	}
	if m.initPanic > 0 {
		m.initPanic--
		panic("init panicked")
	}
	if m.initErr > 0 {
		m.initErr--
		if m.err != nil {
			return core.Clust{vec(-1)}, m.err // must not be used
		}
		return nil, errInit
	}
	if m.noClust {
		return nil, nil
	}
	return core.Clust{vec(0)}, nil
}

func (m *mock) Iterate(model core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	m.enter("Iterate")
	defer m.leave()
	defer func() {
		if m.afterIter != nil {
			m.afterIter()
		}
	}()
	m.calls++
	m.starts = append(m.starts, vsched.Clock())
	if m.onIter != nil {
		m.onIter(m, model)
	}
	if !m.noYield {
		vsched.Yield()
	}
	if m.failAt == m.calls {
		var err = errImpl
		if m.err != nil {
			err = m.err
		}
		return core.Clust{vec(-1)}, core.RuntimeFigures{"mine": -1}, err // must not be used
	}
	if m.panicAt == m.calls {
		panic("impl panicked")
	}
	if m.nilEvery > 0 && m.calls%m.nilEvery == 0 {
		return nil, core.RuntimeFigures{"mine": -1}, nil // such as streaming without data
	}
	m.iters++
	var n = float64(m.iters)
	if m.figures != nil {
		return core.Clust{vec(n)}, m.figures(m.iters), nil
	}
	return core.Clust{vec(n)}, core.RuntimeFigures{"mine": n}, nil
}

func (m *mock) Push(e core.Elemt, model core.OCModel) error {
	vsched.Gosched()
	if m.pushErr {
		return errPush
	}
	m.pushed = append(m.pushed, e)
	return nil
}

func (m *mock) Copy(model core.OCModel) (core.Impl, error) {
	if m.onCopy != nil {
		m.onCopy(model)
	}
	return &mock{}, nil
}

// call is one operation of a client, with the moments it was called and it returned.
type call struct {
	thread    int
	op        string
	err       error
	st        core.OCStatus
	from, to  int
	start     time.Duration
	end       time.Duration
	iters     int
	inits     int // 1 + the initializations it makes, or 0 if unknown
	retryable bool
}

func (c call) String() string {
	var r = "nil"
	if c.err != nil {
		r = c.err.Error()
	}
	if c.op == "Status" {
		r = statusName(c.st)
	}
	return fmt.Sprintf("%s:%s", c.op, short(r))
}

var shortNames = map[string]string{
	"Algorithm is not running": "NotRunning", "Algorithm is running": "Running!", "Algorithm is already created": "AlreadyCreated",
	"algorithm is not alive": "NotAlive", "Algorithm is idle": "Idle!", "algorithm timed out": "Timeout",
}

func short(s string) string {
	if x, ok := shortNames[s]; ok {
		return x
	}
	if strings.HasPrefix(s, "algorithm can not finish") {
		return "NeverFinish"
	}
	return s
}

func statusName(s core.OCStatus) string {
	if s.Error != nil {
		return s.Value.String() + "(" + short(s.Error.Error()) + ")"
	}
	return s.Value.String()
}

// rig is an algorithm with its mock implementation and the record of what happened.
type rig struct {
	m     *mock
	conf  *mockConf
	algo  *core.Algo
	hist  []call
	notif []core.OCStatus
	on    func(r *rig, oc core.OnlineClust, s core.OCStatus)
	nPush int
}

func newRig(ctrl core.CtrlConf, m *mock) *rig {
	var r = &rig{m: m}
	r.conf = &mockConf{CtrlConf: ctrl}
	r.conf.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {
		r.notif = append(r.notif, s)
		vsched.Log("notified %s", statusName(s))
		if r.on != nil {
			r.on(r, oc, s)
		}
	}
	r.algo = core.NewAlgo(r.conf, m, line{})
	return r
}

// do runs one operation and records it.
func (r *rig) do(thread int, op string) call {
	var i = len(r.hist)
	r.hist = append(r.hist, call{thread: thread, op: op, from: vsched.Stamp(), to: -1, start: vsched.Clock()})
	var c = r.hist[i]
	vsched.Log("call %s", op)
	switch op {
	case "Init":
		c.err = r.algo.Init()
	case "Play":
		c.err = r.algo.Play()
	case "Pause":
		c.err = r.algo.Pause()
	case "Stop":
		c.err = r.algo.Stop()
	case "Wait": // a wait that lasts as long as it takes
		c.err = r.algo.Wait(nil, 0)
	case "WaitT": // a wait of at most a second
		c.err = r.algo.Wait(nil, time.Second)
	case "Batch":
		c.err = r.algo.Batch()
	case "Push":
		r.nPush++
		c.err = r.algo.Push(vec(float64(r.nPush)))
	case "Status":
		c.st = r.algo.Status()
	case "Predict":
		var e, l, d = r.algo.Predict(vec(1.5))
		_, _, _ = probe.Elemt(e), l, d
	case "Figures":
		c.iters = probe.Iterations(r.algo.RuntimeFigures())
		probe.Figures(r.algo.RuntimeFigures())
	case "Centroids":
		probe.Clust(r.algo.Centroids())
	case "Sleep":
		vsched.Sleep(150 * time.Millisecond)
	case "Settle":
		vsched.Sleep(2 * time.Second)
	case "Copy":
		_, c.err = r.algo.Copy(&mockConf{}, line{})
	default:
		panic("unknown operation " + op)
	}
	c.to = vsched.Stamp()
	c.end = vsched.Clock()
	r.hist[i] = c
	vsched.Log("%s", c)
	return c
}

func (r *rig) history() string {
	var l []string
	for _, c := range r.hist {
		l = append(l, c.String())
	}
	return strings.Join(l, " ")
}

func (r *rig) notifications() string {
	var l []string
	for _, s := range r.notif {
		l = append(l, statusName(s))
	}
	return strings.Join(l, ">")
}
