package main

import (
	"fmt"
	"strings"

	"github.com/wearelumenai/distclus/core"
)

// The life cycle as a nondeterministic state machine: a state, the operations that change
// it, and the changes the algorithm makes by itself.

type sst struct {
	v   core.ClustStatus
	err error
	// failing Init calls that remain
	badInit int
}

func (s sst) String() string { return statusName(core.OCStatus{Value: s.v, Error: s.err}) }

type specConf struct {
	finite  bool  // the run ends by itself (iterations)
	fails   bool  // the run may end with errImpl
	panics  bool  // the run may end with the recovered panic
	timeout bool  // the run may be interrupted by ErrTimeout
	err     error // errImpl by default
}

// spont lists what the algorithm may do by itself from s.
func (c specConf) spont(s sst) (out []sst) {
	if s.v == core.Running {
		if c.finite {
			out = append(out, sst{v: core.Ready, badInit: s.badInit})
		}
		if c.fails {
			var err = errImpl
			if c.err != nil {
				err = c.err
			}
			out = append(out, sst{v: core.Finished, err: err, badInit: s.badInit})
		}
		if c.panics {
			out = append(out, sst{v: core.Finished, err: errPanic, badInit: s.badInit})
		}
	}
	if c.timeout && (s.v == core.Running || s.v == core.Idle || s.v == core.Ready) {
		out = append(out, sst{v: core.Finished, err: core.ErrTimeout, badInit: s.badInit})
	}
	return
}

// errPanic stands for the error of a recovered panic.
var errPanic = fmt.Errorf("impl panicked")

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a == b || a.Error() == b.Error()
}

func (c specConf) closure(set []sst) []sst {
	var out []sst
	var has = func(x sst) bool {
		for _, y := range out {
			if y.v == x.v && sameErr(y.err, x.err) && y.badInit == x.badInit {
				return true
			}
		}
		return false
	}
	var todo = set
	for len(todo) > 0 {
		var x = todo[0]
		todo = todo[1:]
		if has(x) {
			continue
		}
		out = append(out, x)
		todo = append(todo, c.spont(x)...)
	}
	return out
}

// step says whether op may answer like this from state s, and the state it leads to.
func (c specConf) step(s sst, k call, overlapsInit bool) (sst, bool) {
	if k.inits > 0 && (k.op == "Init" || k.op == "Play") {
		// a life begins when there is none, and only then
		if begins := s.v == core.Created || s.v == core.Finished; begins != (k.inits == 2) {
			return s, false
		}
	}
	var to = func(v core.ClustStatus) sst { return sst{v: v, badInit: s.badInit} }
	var initFails = s.badInit > 0
	var initFailed = sst{v: core.Finished, err: errInit, badInit: s.badInit - 1}
	var e = func(want error) bool { return sameErr(k.err, want) }
	switch k.op {
	case "Init":
		if s.v == core.Created || s.v == core.Finished {
			if initFails {
				return initFailed, e(errInit)
			}
			return to(core.Ready), e(nil)
		}
		return s, e(core.ErrAlreadyCreated)
	case "Play":
		switch s.v {
		case core.Created, core.Finished:
			if initFails {
				return initFailed, e(errInit)
			}
			return to(core.Running), e(nil)
		case core.Ready, core.Idle:
			return to(core.Running), e(nil)
		default:
			return s, e(core.ErrRunning)
		}
	case "Pause":
		if s.v == core.Running {
			return to(core.Idle), e(nil)
		}
		return s, e(core.ErrNotRunning)
	case "Stop":
		switch s.v {
		case core.Ready, core.Running, core.Idle:
			return to(core.Finished), e(nil)
		}
		return s, e(core.ErrNotAlive)
	case "Status":
		if k.st.Value == core.Initializing || k.st.Value == core.Ready && k.st.Error == nil && s.v != core.Ready && s.v != core.Idle {
			return s, overlapsInit // on the way from Created or Finished to Running
		}
		return s, k.st.Value == s.v && sameErr(k.st.Error, s.err)
	}
	return s, true
}

// linearizable searches an order of the calls, compatible with their real-time order, in
// which every answer and the last status are the ones of the state machine.
func (c specConf) linearizable(hist []call, init sst) bool {
	var ops []call
	for _, k := range hist {
		switch k.op {
		case "Init", "Play", "Pause", "Stop", "Status":
			ops = append(ops, k)
		}
	}
	var over = make([]bool, len(ops))
	for i, a := range ops {
		for j, b := range ops {
			if i != j && (b.op == "Init" || b.op == "Play") && a.from < b.to && b.from < a.to {
				over[i] = true
			}
		}
	}
	type key struct {
		done int
		s    string
	}
	var seen = map[key]bool{}
	var rec func(done int, set []sst) bool
	rec = func(done int, set []sst) bool {
		if done == 1<<uint(len(ops))-1 {
			return true
		}
		set = c.closure(set)
		var names []string
		for _, s := range set {
			names = append(names, fmt.Sprint(s, s.badInit))
		}
		var k = key{done, strings.Join(names, ",")}
		if seen[k] {
			return false
		}
		seen[k] = true
		for i := range ops {
			if done&(1<<uint(i)) != 0 {
				continue
			}
			var minimal = true
			for j := range ops {
				if j != i && done&(1<<uint(j)) == 0 && ops[j].to < ops[i].from {
					minimal = false
				}
			}
			if !minimal {
				continue
			}
			var next []sst
			for _, s := range set {
				if t, ok := c.step(s, ops[i], over[i]); ok {
					next = append(next, t)
				}
			}
			if len(next) > 0 && rec(done|1<<uint(i), next) {
				return true
			}
		}
		return false
	}
	return rec(0, []sst{init})
}

// chain says whether a list of notified statuses is a path of the life cycle from Created.
func chain(l []core.OCStatus) string {
	var prev = core.OCStatus{Value: core.Created}
	for i, s := range l {
		var ok = false
		switch s.Value {
		case core.Initializing:
			ok = prev.Value == core.Created || prev.Value == core.Finished
		case core.Ready:
			ok = prev.Value == core.Initializing || prev.Value == core.Running
		case core.Running:
			ok = prev.Value == core.Ready || prev.Value == core.Idle
		case core.Idle:
			ok = prev.Value == core.Running
		case core.Finished:
			ok = prev.Value == core.Initializing && s.Error != nil || prev.Value == core.Ready || prev.Value == core.Running || prev.Value == core.Idle
		}
		if !ok {
			return fmt.Sprintf("notification %d is %s after %s", i, statusName(s), statusName(prev))
		}
		prev = s
	}
	return ""
}
