package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"verif/harness/probe"
	"verif/vsched"
)

// ---- C24: finishing conditions --------------------------------------------------------

// term is a finishing condition with its meaning.
type term struct {
	name string
	f    core.Finishing
	mean func(m core.OCModel) bool
}

type answer bool

func (a answer) IsFinished(core.OCModel) bool { return bool(a) }

func leaves() (out []term) {
	var truth = func(b bool) func(core.OCModel) bool { return func(core.OCModel) bool { return b } }
	out = []term{{"nil", nil, truth(false)}, {"yes", answer(true), truth(true)}, {"no", answer(false), truth(false)}}
	return
}

func iterTerm(iter, ipd int) term {
	return term{fmt.Sprintf("iter %d, per data %d", iter, ipd), core.NewIterFinishing(iter, ipd), func(m core.OCModel) bool {
		var f = probe.Figures(m.RuntimeFigures())
		return (iter > 0 || ipd > 0) && int(f[core.Iterations]) >= iter+ipd*int(f[core.PushedData])
	}}
}

func statusTerm(failed bool, list []core.ClustStatus) term {
	return term{fmt.Sprintf("status %v, error %v", list, failed), core.NewStatusFinishing(failed, list...), func(m core.OCModel) bool {
		for _, s := range list {
			if m.Status().Value == s {
				return true
			}
		}
		return failed && m.Status().Error != nil
	}}
}

// combined is every conjunction and disjunction of n terms.
func combined(terms []term, n int) (out []term) {
	forAllQuiet(same(len(terms), n), func(ix []int) {
		var l []term
		var fs []core.Finishing
		var names []string
		for _, i := range ix {
			l = append(l, terms[i])
			fs = append(fs, terms[i].f)
			names = append(names, terms[i].name)
		}
		out = append(out, term{"and(" + strings.Join(names, ", ") + ")", core.NewAndFinishing(fs...), func(m core.OCModel) bool {
			for _, t := range l {
				if !t.mean(m) {
					return false
				}
			}
			return len(l) > 0
		}}, term{"or(" + strings.Join(names, ", ") + ")", core.NewOrFinishing(fs...), func(m core.OCModel) bool {
			for _, t := range l {
				if t.mean(m) {
					return true
				}
			}
			return false
		}})
	})
	return
}

// models is every status and count.
func models() (out []core.OCModel) {
	var statuses []core.OCStatus
	for s := core.Created; s <= core.Finished; s++ {
		statuses = append(statuses, core.NewOCStatus(s))
	}
	statuses = append(statuses, core.NewOCStatusError(errImpl), core.NewOCStatusError(core.ErrTimeout),
		core.OCStatus{Value: core.Ready, Error: core.ErrTimeout}, core.OCStatus{Value: core.Running, Error: errImpl})
	for _, s := range statuses {
		out = append(out, core.NewSimpleOCModel(&mockConf{}, line{}, s, core.RuntimeFigures{}, nil))
		for i := 0; i <= 8; i++ {
			for p := 0; p <= 3; p++ {
				out = append(out, core.NewSimpleOCModel(&mockConf{}, line{}, s,
					core.RuntimeFigures{core.Iterations: float64(i), core.PushedData: float64(p)}, nil))
			}
		}
	}
	return
}

func meaning(terms []term) {
	for _, m := range models() {
		for _, t := range terms {
			if vsched.Failed() {
				return
			}
			Eval(1)
			if got, want := core.IsFinished(t.f, m), t.mean(m); got != want {
				vsched.Fail("%s is %v in status %s with figures %v", t.name, got, statusName(m.Status()), probe.Figures(m.RuntimeFigures()))
			}
		}
	}
}

// endOf runs an algorithm under a condition on the number of iterations.
func endOf(name string, wait bool, mk func(at []int) (core.Finishing, int)) Scenario {
	var at []int
	var bound = 5
	return Scenario{
		Name: name,
		Opt:  vsched.Options{MaxSteps: 6000},
		Body: func() {
			at = []int{1 + vsched.Choose(bound, 0, "first"), 1 + vsched.Choose(bound, 0, "second")}
			var f, want = mk(at)
			var m = &mock{}
			var ctrl = core.CtrlConf{Finishing: f}
			if wait {
				ctrl = core.CtrlConf{}
				ctrl.IterFreq = 5 // an iteration lasts 200 ms
			}
			var r = newRig(ctrl, m)
			if wait {
				// the condition is examined every tenth of a second while the run goes on
				if err := r.algo.Play(); err != nil {
					vsched.Fail("play answers %v", err)
				}
				if err := r.algo.Wait(f, 0); err != nil {
					vsched.Fail("wait answers %v", err)
				}
				if got := probe.Iterations(r.algo.RuntimeFigures()); got != want {
					vsched.Fail("wait for %v returns after %d iterations instead of %d", at, got, want)
				}
				if st := r.algo.Status(); st.Value != core.Running {
					vsched.Fail("the algorithm is %s after a wait", statusName(st))
				}
				// a condition that is never met
				if err := r.algo.Wait(answer(false), 300*time.Millisecond); err != core.ErrTimeout {
					vsched.Fail("a wait without end answers %v", err)
				}
				r.algo.Stop()
				return
			}
			for run := 1; run <= 2; run++ {
				if err := r.algo.Play(); err != nil {
					vsched.Fail("play answers %v", err)
				}
				if err := r.algo.Wait(nil, 0); err != nil {
					vsched.Fail("wait answers %v", err)
				}
				settle()
				if st := r.algo.Status(); st.Value != core.Ready || st.Error != nil {
					vsched.Fail("run %d ends %s", run, statusName(st))
				}
				if m.iters != want {
					vsched.Fail("run %d for %v ends after %d iterations instead of %d", run, at, m.iters, want)
				}
				r.algo.Stop()
			}
		},
	}
}

// during holds between two moments of the virtual clock.
type during struct{ from, to time.Duration }

func (d during) IsFinished(core.OCModel) bool {
	var now = vsched.Clock()
	return now >= d.from && now < d.to
}

// waits waits for a condition on the time, or for the end of a run.
func waitsFor(status bool) Scenario {
	const ms = time.Millisecond
	var when = []time.Duration{0, 30 * ms, 100 * ms, 170 * ms, 240 * ms, 450 * ms, 1020 * ms, 1300 * ms}
	var most = []time.Duration{0, 20 * ms, 50 * ms, 100 * ms, 250 * ms, 470 * ms, 700 * ms, 1050 * ms, 2 * time.Second, 10 * time.Second}
	var lasts = []time.Duration{200 * ms, time.Hour}
	if status {
		lasts = lasts[1:]
	}
	const slack = 250 * ms        // a wait looks from time to time, a run takes time to end
	var period = time.Duration(0) // a run takes time to end: that may be seen only after the limit
	if status {
		period = 120 * ms
	}
	return Scenario{
		Name: fmt.Sprintf("waits for a moment, by the end of a run %v", status),
		Opt:  vsched.Options{MaxSteps: 6000},
		Body: func() {
			var at = when[vsched.Choose(len(when), 0, "moment")]
			var d = most[vsched.Choose(len(most), 0, "duration")]
			var last = lasts[vsched.Choose(len(lasts), 0, "lasts")]
			var before = 50 * ms // the run began before
			var end = before + at
			var ctrl = core.CtrlConf{}
			if status {
				ctrl.Finishing = during{end, time.Hour}
			}
			var m = &mock{}
			m.onIter = func(*mock, core.OCModel) { vsched.Sleep(10 * ms) }
			var r = newRig(ctrl, m)
			if err := r.algo.Play(); err != nil {
				vsched.Fail("play answers %v", err)
			}
			vsched.Sleep(before - vsched.Clock())
			var start = vsched.Clock()
			var err error
			if status {
				err = r.algo.Wait(nil, d)
			} else {
				err = r.algo.Wait(during{end, end + last}, d)
			}
			var now = vsched.Clock()
			var what = fmt.Sprintf("a wait of at most %v for a moment %v later answers %v after %v", d, at, err, now-start)
			switch {
			case d == 0 || at+period < d: // it holds before the wait is over
				if err != nil || now < end || now > end+slack {
					vsched.Fail("%s", what)
				}
			case err == nil:
				if now < end || now > start+d+slack {
					vsched.Fail("%s", what)
				}
			case err == core.ErrTimeout:
				if now < start+d || now > start+d+slack {
					vsched.Fail("%s", what)
				}
			default:
				vsched.Fail("%s", what)
			}
			if st := r.algo.Status(); !status && st.Value != core.Running {
				vsched.Fail("the algorithm is %s after a wait", statusName(st))
			}
			r.algo.Stop()
			vsched.SetOutcome(what)
		},
	}
}

func regC24() {
	register(&Property{
		ID: "C24",
		Scenarios: func(thorough bool) (out []Scenario) {
			var all = []core.ClustStatus{core.Created, core.Initializing, core.Ready, core.Running, core.Idle, core.Finished}
			out = append(out, manyConditions(12), shortWaits(), resumedConditions())
			out = append(out, pure("conditions on iterations", func() {
				var terms []term
				for i := 0; i <= 8; i++ {
					for d := 0; d <= 3; d++ {
						terms = append(terms, iterTerm(i, d))
					}
				}
				meaning(terms)
			}))
			out = append(out, pure("conditions on the status", func() {
				var terms []term
				for mask := 0; mask < 1<<len(all); mask++ {
					var list, rev []core.ClustStatus
					for i, s := range all {
						if mask>>uint(i)&1 == 1 {
							list = append(list, s)
							rev = append([]core.ClustStatus{s}, rev...)
						}
					}
					for _, e := range []bool{false, true} {
						terms = append(terms, statusTerm(e, list), statusTerm(e, rev))
					}
				}
				meaning(terms)
			}))
			out = append(out, pure("conjunctions and disjunctions", func() {
				var terms = append(leaves(), iterTerm(2, 1), statusTerm(true, all[2:4]))
				var level1 []term
				for n := 0; n <= 3; n++ {
					level1 = append(level1, combined(terms, n)...)
				}
				meaning(terms)
				meaning(level1)
			}))
			out = append(out, pure("nested conjunctions and disjunctions", func() {
				var level = leaves()
				for n := 0; n <= 2; n++ {
					level = append(level, combined(leaves(), n)...)
				}
				var m = core.NewSimpleOCModel(&mockConf{}, line{}, core.NewOCStatus(core.Running), core.RuntimeFigures{}, nil)
				var width = 2
				if thorough {
					width = 3
				}
				for n := 1; n <= width; n++ {
					for _, t := range combined(level, n) {
						Eval(1)
						if got, want := core.IsFinished(t.f, m), t.mean(m); got != want {
							vsched.Fail("%s is %v", t.name, got)
							return
						}
					}
				}
			}))
			out = append(out, pure("kinds of status", func() {
				var names = []string{"Created", "Initializing", "Ready", "Running", "Idle", "Finished"}
				for i, s := range all {
					Eval(1)
					for _, st := range []core.OCStatus{core.NewOCStatus(s), {Value: s, Error: errImpl}} {
						if s.String() != names[i] {
							vsched.Fail("%d is named %s", i, s)
						}
						if st.Running() != (s == core.Running || s == core.Idle) || st.Alive() != (s == core.Ready || s == core.Running || s == core.Idle) {
							vsched.Fail("%s: running %v, alive %v", statusName(st), st.Running(), st.Alive())
						}
					}
				}
				if st := core.NewOCStatusError(errImpl); st.Value != core.Finished || st.Error != errImpl {
					vsched.Fail("a failure gives %s", statusName(st))
				}
			}))
			out = append(out, pure("waits that could last forever", func() {
				forAll([]int{2, 3, 3, 3, 2, 3}, func(ix []int) {
					var ctrl = core.CtrlConf{Iter: ix[1], IterPerData: ix[2], Timeout: time.Duration(ix[3]) * time.Second}
					if ix[0] == 1 {
						ctrl.Finishing = answer(false)
					}
					var f core.Finishing
					if ix[4] == 1 {
						f = answer(false)
					}
					var d = time.Duration(ix[5]-1) * time.Second
					var want = ix[0] == 0 && ix[1] == 0 && ix[2] == 0 && ix[3] == 0 && f == nil && d <= 0
					var r = newRig(ctrl, &mock{})
					if got := r.algo.CanNeverFinish(f, d); got != want {
						vsched.Fail("a wait with condition %v of at most %v can never finish: %v with %+v", f, d, got, ctrl)
					}
				})
			}))
			out = append(out, waitsFor(false), waitsFor(true))
			var min = func(a, b int) int {
				if a < b {
					return a
				}
				return b
			}
			for _, wait := range []bool{false, true} {
				var what = fmt.Sprintf("wait %v, until ", wait)
				out = append(out,
					endOf(what+"either", wait, func(at []int) (core.Finishing, int) {
						return core.NewOrFinishing(atLeast{at[0]}, nil, atLeast{at[1]}), min(at[0], at[1])
					}),
					endOf(what+"both", wait, func(at []int) (core.Finishing, int) {
						return core.NewAndFinishing(atLeast{at[0]}, atLeast{at[1]}), at[0] + at[1] - min(at[0], at[1])
					}),
					endOf(what+"either, nested", wait, func(at []int) (core.Finishing, int) {
						return core.NewOrFinishing(core.NewAndFinishing(), core.NewAndFinishing(atLeast{at[0]}, core.NewOrFinishing(answer(true))),
							core.NewAndFinishing(nil, answer(true)), core.NewAndFinishing(core.NewIterFinishing(at[1], 0))), min(at[0], at[1])
					}))
			}
			return
		},
		Rule:   "every condition on iterations, statuses and their conjunctions and disjunctions (nil, empty and nested ones included) in every status and count, against its meaning; runs and waits under conditions on the iterations end exactly when the meaning says, run after run; waits for a moment or the end of a run, of at most some duration, end soon after it, and answer a timeout only if it did not come before; up to 12 terms, limits up to a billion",
		Assume: []string{"limits of iterations are not negative (the verification of the configuration refuses them)", "a wait examines its condition at least every 200 ms"},
	})
}

func init() { regC24() }
