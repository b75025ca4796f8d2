package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"verif/vsched"
)

// variant is a kind of run: how it ends, if it does.
type variant struct {
	name string
	ctrl core.CtrlConf
	mk   func() *mock
	spec specConf
	bad  int
}

func variants() []variant {
	return []variant{
		{name: "endless", mk: func() *mock { return &mock{} }},
		{name: "two iterations", ctrl: core.CtrlConf{Iter: 2}, mk: func() *mock { return &mock{} }, spec: specConf{finite: true}},
		{name: "fails", mk: func() *mock { return &mock{failAt: 2} }, spec: specConf{fails: true}},
		{name: "panics", mk: func() *mock { return &mock{panicAt: 2} }, spec: specConf{panics: true}},
		{name: "init fails once", ctrl: core.CtrlConf{Iter: 2}, mk: func() *mock { return &mock{initErr: 1} }, spec: specConf{finite: true}, bad: 1},
		{name: "times out", ctrl: core.CtrlConf{Timeout: 250 * time.Millisecond}, mk: func() *mock {
			return &mock{onIter: func(*mock, core.OCModel) { vsched.Sleep(60 * time.Millisecond) }}
		}, spec: specConf{timeout: true}},
		{name: "fails such as a timeout", mk: func() *mock { return &mock{failAt: 2, err: core.ErrTimeout} }, spec: specConf{fails: true, err: core.ErrTimeout}},
		{name: "iteration frequency", ctrl: core.CtrlConf{Iter: 2, IterFreq: 5}, mk: func() *mock { return &mock{} }, spec: specConf{finite: true}},
	}
}

// mayEnd lists the states in which a wait that starts in s may end.
func (c specConf) settled(set []sst) (out []sst) {
	for _, s := range c.closure(set) {
		if s.v != core.Running {
			out = append(out, s)
		}
	}
	return
}

// seqStep is the specification of one operation of a single client, over sets of states.
func (v *variant) seqStep(set []sst, k call) []sst {
	var c = v.spec
	set = c.closure(set)
	var out []sst
	if k.op == "Batch" && k.inits != 2 { // a new life, whatever the former one
		return nil
	}
	if k.op != "Batch" && k.op != "Play" && k.op != "Init" && k.inits > 1 {
		return nil
	}
	var neverEnds = v.ctrl.Iter == 0 && v.ctrl.Finishing == nil && v.ctrl.Timeout == 0
	switch k.op {
	case "Wait", "WaitT":
		for _, s := range set {
			switch s.v {
			case core.Created:
				if sameErr(k.err, core.ErrNotRunning) {
					out = append(out, s)
				}
			case core.Idle:
				if sameErr(k.err, core.ErrIdle) {
					out = append(out, s)
				}
			case core.Ready, core.Finished:
				if k.err == nil {
					out = append(out, s)
				}
			case core.Running:
				if k.op == "Wait" && neverEnds {
					if sameErr(k.err, core.ErrNeverFinish) {
						out = append(out, s)
					}
					continue
				}
				if k.op == "WaitT" && sameErr(k.err, core.ErrTimeout) && k.end-k.start >= time.Second {
					out = append(out, c.closure([]sst{s})...)
				}
				for _, e := range c.settled([]sst{s}) {
					if sameErr(k.err, e.err) {
						out = append(out, e)
					}
				}
			}
		}
	case "Batch":
		var stop = call{op: "Stop"}
		for _, s := range set {
			var s2, ok = c.step(s, stop, false)
			if !ok {
				s2 = s // nothing to stop
			}
			for _, perr := range []error{nil, errInit} {
				s3, ok := c.step(s2, call{op: "Play", err: perr, inits: k.inits}, false)
				if !ok {
					continue
				}
				if perr != nil {
					if sameErr(k.err, perr) {
						out = append(out, s3)
					}
					continue
				}
				// the wait: the run may have ended before it looks
				if neverEnds {
					if sameErr(k.err, core.ErrNeverFinish) {
						out = append(out, s3)
					}
				}
				for _, e := range c.settled([]sst{s3}) {
					if e.err != nil && sameErr(k.err, e.err) {
						out = append(out, e)
					}
					if k.err == nil && e.err == nil {
						if e.v == core.Ready {
							out = append(out, sst{v: core.Finished, badInit: e.badInit})
						} else {
							out = append(out, e)
						}
					}
				}
			}
		}
	case "Copy":
		if k.err == nil && k.inits <= 1 {
			return set
		}
		return nil
	default:
		for _, s := range set {
			if t, ok := c.step(s, k, false); ok {
				if k.op == "Push" && k.err != nil {
					continue
				}
				out = append(out, t)
			}
		}
	}
	return c.closure(out)
}

func names(set []sst) string {
	var l []string
	for _, s := range set {
		l = append(l, s.String())
	}
	return strings.Join(l, "|")
}

// sequences runs every sequence of the operations up to a depth and compares every answer
// with the life cycle.
func sequences(v variant, first []string, ops []string, depth int, max [2]int) Scenario {
	return words(v, first, ops, depth, 1, max)
}

// words runs every sequence of the operations up to a depth, several times over.
func words(v variant, first []string, ops []string, depth, times int, max [2]int) Scenario {
	var name = fmt.Sprintf("sequences of %d from [%s], %s", depth, strings.Join(first, " "), v.name)
	if times > 1 {
		name = fmt.Sprintf("%d times every sequence of %d, %s", times, depth, v.name)
	}
	var opt = vsched.Options{MaxSteps: 6000 * times}
	if times > 1 {
		opt.SelectCost = 1
	}
	return Scenario{
		Name: name,
		Max:  max,
		Opt:  opt,
		Body: func() {
			var r = newRig(v.ctrl, v.mk())
			var set = []sst{{v: core.Created, badInit: v.bad}}
			var run = func(op string) bool {
				var inits = r.m.inits
				var k = r.do(0, op)
				k.inits = 1 + r.m.inits - inits
				var next = v.seqStep(set, k)
				if len(next) == 0 {
					vsched.Fail("after %s in state %s: %s", strings.TrimSpace(r.historyBefore()), names(set), k)
					return false
				}
				set = next
				// the status is one the life cycle allows
				var st = r.do(0, "Status")
				next = v.seqStep(set, st)
				if len(next) == 0 {
					vsched.Fail("after %s the status is %s, not one of %s", r.historyOps(), st, names(set))
					return false
				}
				set = next
				return true
			}
			for _, op := range first {
				if !run(op) {
					return
				}
			}
			var word []string
			for i := 0; i < depth; i++ {
				word = append(word, ops[vsched.Choose(len(ops), 0, "op")])
				if !run(word[i]) {
					return
				}
			}
			for i := depth; i < depth*times; i++ {
				if !run(word[i%depth]) {
					return
				}
			}
			// the run, if any, comes to its end
			settle()
			var st = r.do(0, "Status")
			if len(v.seqStep(set, st)) == 0 {
				vsched.Fail("after %s the status settles on %s, not one of %s", r.historyOps(), st, names(set))
			}
			r.checkNotifications(st.st)
			vsched.SetOutcome(r.history())
		},
	}
}

func (r *rig) historyBefore() string {
	var l []string
	for _, c := range r.hist[:len(r.hist)-1] {
		if c.op != "Status" {
			l = append(l, c.op)
		}
	}
	return "[" + strings.Join(l, " ") + "]"
}

func (r *rig) historyOps() string {
	var l []string
	for _, c := range r.hist {
		if c.op != "Status" {
			l = append(l, c.String())
		}
	}
	return "[" + strings.Join(l, " ") + "]"
}

// checkNotifications compares what the notifier was told with a settled status.
func (r *rig) checkNotifications(last core.OCStatus) {
	if m := chain(r.notif); m != "" {
		vsched.Fail("after %s: %s (%s)", r.historyOps(), m, r.notifications())
		return
	}
	var prev = core.OCStatus{Value: core.Created}
	if n := len(r.notif); n > 0 {
		prev = r.notif[n-1]
	}
	if prev.Value != last.Value || !sameErr(prev.Error, last.Error) {
		vsched.Fail("after %s the status is %s and the last notification %s (%s)", r.historyOps(), statusName(last), statusName(prev), r.notifications())
	}
	// every successful command was notified once
	var want = map[core.ClustStatus]int{}
	for _, c := range r.hist {
		if c.err == nil {
			switch c.op {
			case "Play":
				want[core.Running]++
			case "Pause":
				want[core.Idle]++
			}
		}
		if c.op == "Batch" {
			return
		}
	}
	for s, n := range want {
		var got = 0
		for _, x := range r.notif {
			if x.Value == s {
				got++
			}
		}
		if got != n {
			vsched.Fail("after %s: %d notifications of %s (%s)", r.historyOps(), got, s, r.notifications())
		}
	}
}

func init() {
	register(&Property{
		ID: "C01",
		Scenarios: func(thorough bool) (out []Scenario) {
			var ops = []string{"Play", "Pause", "Stop", "Init", "Wait", "WaitT", "Sleep", "Batch", "Push", "Copy"}
			var d = 4
			if thorough {
				d = 5
			}
			for _, v := range variants() {
				out = append(out, sequences(v, nil, ops, d, [2]int{0, 0}))
				out = append(out, sequences(v, nil, ops, 2, [2]int{1, 1}))
				out = append(out, words(v, nil, ops, 1, 40, [2]int{0, 0}))
				out = append(out, words(v, nil, ops, 2, 12, [2]int{0, 0}))
				if thorough {
					out = append(out, sequences(v, nil, ops, 3, [2]int{-1, 1}))
					out = append(out, sequences(v, nil, ops, 2, [2]int{-1, 2}))
				}
			}
			return
		},
		Rule: "every sequence of operations of the alphabet up to the stated depth is run on a real algorithm with a scripted implementation; every word of 1 and 2 operations is repeated 40 and 12 times",
	})
}
