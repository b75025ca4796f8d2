package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"verif/harness/probe"
	"verif/vsched"
)

// ---- C11: pushed data -----------------------------------------------------------------

// lastOf is the window of a buffer of size n over everything it received.
func lastOf(all []int, n int) []int {
	if n > 0 && len(all) > n {
		return all[len(all)-n:]
	}
	return all
}

func idsOf(data []core.Elemt) []int {
	var out = []int{}
	for _, e := range data {
		out = append(out, int(probe.Elemt(e)[0]))
	}
	return out
}

func sorted(l []int) []int {
	var out = append([]int{}, l...)
	sort.Ints(out)
	return out
}

// sameData compares what a buffer holds with the window it should hold; a bounded buffer
// may hold it in another order.
func sameData(got, want []int, size int) bool {
	if size > 0 {
		got, want = sorted(got), sorted(want)
	}
	return fmt.Sprint(got) == fmt.Sprint(append([]int{}, want...))
}

// bufferOps runs every sequence of operations on a buffer.
func bufferOps(size, initial, depth int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("buffer of size %d, %d initial elements, %d operations", size, initial, depth),
		Opt:  vsched.Options{MaxSteps: sweepSteps},
		Body: func() {
			var ops = []string{"stage", "store", "apply"}
			var seq = make([]int, depth)
			for {
				bufferRun(size, initial, seq, ops)
				Eval(1)
				var i = depth - 1
				for ; i >= 0 && seq[i] == len(ops)-1; i-- {
					seq[i] = 0
				}
				if i < 0 || vsched.Failed() {
					break
				}
				seq[i]++
			}
		},
	}
}

func bufferRun(size, initial int, seq []int, ops []string) {
	var all []int // everything received
	var data []core.Elemt
	for i := 0; i < initial; i++ {
		all = append(all, i)
		data = append(data, vec(float64(i)))
	}
	var given = fmt.Sprint(data)
	var b = core.NewDataBuffer(data, size)
	var visible = len(all) // elements of all that are stored
	type snap struct {
		d []core.Elemt
		s string
	}
	var snaps []snap
	var done []string
	var fail = func(what string) {
		vsched.Fail("size %d, %d initial elements, %s: %s", size, initial, strings.Join(done, " "), what)
	}
	for step := -1; step < len(seq); step++ {
		if step >= 0 {
			var op = ops[seq[step]]
			done = append(done, op)
			var err error
			switch op {
			case "stage", "store":
				var x = len(all)
				all = append(all, x)
				err = b.Push(vec(float64(x)), op == "stage")
				if op == "store" {
					visible = len(all)
				}
			case "apply":
				err = b.Apply()
				visible = len(all)
			}
			if err != nil {
				fail("answers " + err.Error())
			}
		}
		var d = b.Data()
		if want := lastOf(all[:visible], size); !sameData(idsOf(d), want, size) {
			fail(fmt.Sprintf("holds %v, not %v", idsOf(d), want))
		}
		snaps = append(snaps, snap{d, fmt.Sprint(idsOf(d))})
	}
	for _, s := range snaps {
		if now := fmt.Sprint(idsOf(s.d)); now != s.s {
			fail(fmt.Sprintf("data that were read as %s are %s now", s.s, now))
		}
	}
	if fmt.Sprint(data) != given {
		fail("the initial data of the client were modified")
	}
}

// bufferThreads pushes from several threads while another one applies and reads.
func bufferThreads(size int, pushers int, mode string, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("buffer of size %d, %d pushers that %s", size, pushers, mode),
		Max:  max,
		Body: func() {
			var b = core.NewDataBuffer([]core.Elemt{vec(0)}, size)
			var ts []vsched.Thread
			for p := 1; p <= pushers; p++ {
				var p = p
				ts = append(ts, vsched.GoNamed(fmt.Sprintf("pusher%d", p), func() {
					for i := 0; i < 2; i++ {
						var running = mode == "stage" || mode == "mix" && i == 0
						if err := b.Push(vec(float64(10*p+i)), running); err != nil {
							vsched.Fail("push answers %v", err)
						}
					}
				}))
			}
			var check = func(d []core.Elemt, whole bool) []int {
				var ids = idsOf(d)
				var last = map[int]int{}
				var count = map[int]int{}
				for _, x := range ids {
					count[x]++
					if count[x] > 1 {
						vsched.Fail("%v holds %d twice", ids, x)
					}
					if size == 0 {
						if l, ok := last[x/10]; ok && l > x {
							vsched.Fail("%v holds the data of a pusher in another order", ids)
						}
						last[x/10] = x
					}
				}
				var n = 1 + 2*pushers
				if size > 0 && n > size {
					n = size
				}
				if whole && len(ids) != n || len(ids) > n {
					vsched.Fail("%d elements in a buffer of size %d after %d pushes: %v", len(ids), size, 2*pushers, ids)
				}
				return ids
			}
			var before = check(b.Data(), false)
			var out []string
			for i := 0; i < 2; i++ {
				b.Apply()
				var d = b.Data()
				var ids = check(d, false)
				if size == 0 && len(ids) < len(before) {
					vsched.Fail("data were lost: %v then %v", before, ids)
				}
				before = ids
				out = append(out, fmt.Sprint(ids))
				vsched.Gosched()
				if now := fmt.Sprint(idsOf(d)); now != fmt.Sprint(ids) {
					vsched.Fail("data that were read as %v are %v now", ids, now)
				}
			}
			for _, t := range ts {
				t.Join()
			}
			b.Apply()
			out = append(out, fmt.Sprint(check(b.Data(), true)))
			vsched.SetOutcome(strings.Join(out, " "))
		},
	}
}

// watched is a space that notes which elements of the client it is asked about.
type watched struct {
	euclid.Space
	ids  map[*float64]int
	seen map[int]bool
}

func (w *watched) elemt(x float64) core.Elemt {
	var v = []float64{x}
	w.ids[&v[0]] = len(w.ids)
	return v
}

func (w *watched) note(e core.Elemt) {
	if v, ok := e.([]float64); ok && len(v) > 0 {
		if id, ok := w.ids[&v[0]]; ok {
			w.seen[id] = true
		}
	}
}

func (w *watched) Dist(a, b core.Elemt) float64 {
	w.note(a)
	w.note(b)
	return w.Space.Dist(a, b)
}

// betweenIterations is a finishing that never finishes.
type betweenIterations struct{ f func() }

func (b betweenIterations) IsFinished(core.OCModel) bool { b.f(); return false }

func feed(kind string, frame int, ops []string, depth int, par bool, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%s parallel %v, frame of %d, %d operations of %s", kind, par, frame, depth, strings.Join(ops, " ")),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 9000},
		Body: func() {
			var w = &watched{ids: map[*float64]int{}, seen: map[int]bool{}}
			var data = []core.Elemt{w.elemt(0), w.elemt(5)}
			var all = []int{0, 1}
			var answered = 0             // pushes answered
			var atStart = [2]int{-1, -1} // pushes answered at the start of the last two iterations
			var inRun, iters, last = false, 0, 0
			var r *rig
			var boundary = func() {
				var iterated = inRun && len(w.seen) > 0
				if iterated {
					// the elements of one iteration
					iters++
					var ids []int
					for id := range w.seen {
						ids = append(ids, id)
					}
					ids = sorted(ids)
					var ok = false
					var min = 2
					if atStart[1] >= 0 {
						min = 2 + atStart[1]
					}
					if min < last {
						min = last
					}
					for p := min; p <= len(all) && !ok; p++ {
						if fmt.Sprint(lastOf(all[:p], frame)) == fmt.Sprint(ids) {
							ok, last = true, p
						}
					}
					if !ok {
						vsched.Fail("iteration %d uses %v; with a frame of %d, %d pushes were answered when the iteration before it began and %v were received (%s)",
							iters, ids, frame, min-2, all, r.historyOps())
					}
				}
				w.seen = map[int]bool{}
				inRun = true
				if iterated {
					atStart[1] = atStart[0]
				}
				atStart[0] = answered // the next one begins later
			}
			var ctrl = core.CtrlConf{Iter: 3, IterFreq: 20, Finishing: betweenIterations{boundary}}
			var algo *core.Algo
			var initial = func(k int, elemts []core.Elemt, space core.Space, src *randRand) (core.Clust, error) {
				// an initialization uses everything that was received
				var ids []int
				for _, e := range elemts {
					ids = append(ids, w.ids[&e.([]float64)[0]])
				}
				if want := lastOf(all, frame); !sameData(ids, want, frame) {
					vsched.Fail("an initialization uses %v, not %v", ids, want)
				}
				last, inRun, atStart = len(all), false, [2]int{-1, -1}
				return kmeans.GivenInitializer(k, elemts, space, src)
			}
			if kind == "k-means" {
				var conf = kmeans.Conf{CtrlConf: ctrl, K: 1, FrameSize: frame, Par: par, NumCPU: 2, RGen: newTape(nil)}
				algo = kmeans.NewAlgo(conf, w, data, initial)
			} else {
				var conf = mcmc.Conf{CtrlConf: ctrl, InitK: 1, MaxK: 2, FrameSize: frame, Amp: 1, B: 1, Par: par, NumCPU: 2, RGen: newTape(nil)}
				algo = mcmc.NewAlgo(conf, w, data, initial, mcmc.NewDirac())
			}
			r = &rig{m: &mock{}, algo: algo}
			for i := 0; i < depth; i++ {
				var op = ops[vsched.Choose(len(ops), 0, "op")]
				if op == "Push" {
					var e = w.elemt(float64(10 * len(all)))
					all = append(all, len(all))
					r.hist = append(r.hist, call{op: "Push"})
					if err := algo.Push(e); err != nil {
						vsched.Fail("push answers %v", err)
					}
					answered++
					continue
				}
				r.do(0, op)
			}
			settle()
			// everything is used by the run after
			algo.Stop()
			if err := algo.Play(); err != nil {
				vsched.Fail("play answers %v", err)
			}
			settle()
			if last != len(all) {
				vsched.Fail("%d elements were received and %d are used (%s)", len(all), last, r.historyOps())
			}
			algo.Stop()
			vsched.SetOutcome(fmt.Sprint(r.historyOps(), iters))
		},
	}
}

// flood pushes many elements when nobody uses them.
func flood(kind realKind, setup []string, n int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%s, [%s] then %d pushes", kind.name, strings.Join(setup, " "), n),
		Opt:  vsched.Options{MaxSteps: 60 * n},
		Body: func() {
			var algo, _ = kind.mk(core.CtrlConf{Iter: 2}, realData())
			var r = &rig{m: &mock{}, algo: algo}
			for _, op := range setup {
				r.do(0, op)
			}
			var from = vsched.Clock()
			for i := 0; i < n; i++ {
				if err := algo.Push(vec(float64(i % 13))); err != nil {
					vsched.Fail("push %d answers %v", i+1, err)
					break
				}
			}
			if d := vsched.Clock() - from; d > time.Minute {
				vsched.Fail("%d pushes last %v", n, d)
			}
			if f := probe.Figures(algo.RuntimeFigures()); int(f[core.PushedData]) != n {
				vsched.Fail("%d elements were pushed and %v are counted", n, f[core.PushedData])
			}
			algo.Stop()
		},
	}
}

func init() {
	register(&Property{
		ID: "C11",
		Scenarios: func(thorough bool) (out []Scenario) {
			var d = 7
			if thorough {
				d = 9
			}
			out = append(out, largeBatches(map[bool]int{false: 70000, true: 140000}[thorough]))
			out = append(out, longBuffers(map[bool]int{false: 150, true: 400}[thorough]))
			for size := 0; size <= 4; size++ {
				for initial := 0; initial <= 5; initial++ {
					for l := 1; l <= d; l++ {
						out = append(out, bufferOps(size, initial, l))
					}
				}
			}
			for _, size := range []int{0, 1, 2, 3} {
				for _, mode := range []string{"stage", "store", "mix"} {
					out = append(out, bufferThreads(size, 2, mode, [2]int{3, 4}))
				}
			}
			var ops = []string{"Push", "Play", "Pause", "Stop", "Sleep", "Init"}
			for _, frame := range []int{0, 2, 3} {
				for _, kind := range []string{"k-means", "mcmc"} {
					var q, t = 5, 6
					if kind == "mcmc" {
						q, t = 4, 5
					}
					var depth = q
					if thorough {
						depth = t
					}
					out = append(out, feed(kind, frame, ops, depth, false, [2]int{0, 0}))
					out = append(out, feed(kind, frame, []string{"Push", "Play"}, 4, false, [2]int{1, 2}))
					out = append(out, feed(kind, frame, ops, 2, true, [2]int{0, 0}))
					out = append(out, feed(kind, frame, ops, 2, false, [2]int{1, 1}))
				}
			}
			for _, k := range realKinds() {
				if k.name == "streaming" {
					continue // bounded on purpose
				}
				for _, s := range [][]string{{}, {"Init"}, {"Play", "Pause"}, {"Play", "Stop"}} {
					out = append(out, flood(k, s, 2500))
				}
			}
			return
		},
		Rule:   "every sequence of operations on a buffer of every small size against the list of what it received; concurrent pushers; k-means and mcmc fed by every sequence of operations, each initialization and iteration compared with what was received through the elements its space is asked about; thousands of pushes to algorithms that do not run; buffers of many sizes along long histories, batches of up to 12000 (140000) elements",
		Assume: []string{"buffer sizes up to 4, up to 5 initial elements", "preemption and choice deviations are bounded per scenario (see bounds_completed)"},
	})
}
