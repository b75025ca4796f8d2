package main

import (
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/probe"
	"verif/vsched"
)

// Scenario is one closed system: its body is the main thread, every choice made while
// it runs (thread switches, environment answers, operations, inputs) is explored.
type Scenario struct {
	Name   string
	Opt    vsched.Options
	Max    [2]int // deviation bound, quick and thorough; negative: not in that tier
	Body   func()
	LiveOK bool // running into the step horizon is not a failure
}

// Property is a check.
type Property struct {
	ID        string
	Race      bool // explored with the race detector
	Scenarios func(thorough bool) []Scenario
	Rule      string
	Assume    []string
}

type job struct {
	Scen   int
	Max    int
	Prefix []uint16
	Cost   int
}

type violation struct {
	Scenario string
	Kind     string
	Message  string
	Choices  []uint16
	Trace    []string
}

type reply struct {
	Left       []job
	Execs      int
	Steps      int
	Nodes      int
	Evals      int
	Threads    int
	MaxLen     int
	Outcomes   map[string]int
	Violations []violation
	Sample     []string
	Truncated  bool
}

// counters a scenario body may use
var evals int

// Eval counts n evaluations of the property inside one execution.
func Eval(n int) {
	evals += n
	vsched.Advance()
}

// limits of the enumerations inside one execution
var (
	evalDeadline time.Time // none: zero
	truncated    bool      // an enumeration was cut short
	ticks        int
)

// expired tells, from time to time, whether an enumeration has to be cut short.
func expired() bool {
	if evalDeadline.IsZero() {
		return false
	}
	ticks++
	if ticks&15 == 0 && time.Now().After(evalDeadline) {
		truncated = true
	}
	return truncated
}

// grace is what an execution gets to end after the deadline.
const grace = 45 * time.Second

const (
	exitHang   = 91 // an execution does not come back
	exitMemory = 92 // an execution takes all the memory
)

// cpu is the processor time of this process.
func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watchdog ends this process if an execution neither performs visible operations nor
// evaluates anything for very long: the code under test loops, or waits outside of the
// scheduler.
func watchdog(busy *atomic.Bool) {
	var last uint64
	var since, wall = cpu(), time.Now()
	var mem runtime.MemStats
	for {
		time.Sleep(time.Second)
		var p = vsched.Progress()
		if p != last || !busy.Load() {
			last, since, wall = p, cpu(), time.Now()
		}
		if cpu()-since > 40*time.Second || time.Since(wall) > 150*time.Second {
			fmt.Fprintln(os.Stderr, "no progress")
			os.Exit(exitHang)
		}
		if runtime.ReadMemStats(&mem); mem.HeapAlloc > 3<<30 {
			fmt.Fprintln(os.Stderr, "out of memory")
			os.Exit(exitMemory)
		}
	}
}

// current is where a worker writes what it is executing.
var current *os.File

func announce(sc int, prefix []uint16) {
	if current == nil {
		return
	}
	var b = make([]byte, 8+2*len(prefix))
	binary.LittleEndian.PutUint32(b, uint32(sc))
	binary.LittleEndian.PutUint32(b[4:], uint32(len(prefix)))
	for i, x := range prefix {
		binary.LittleEndian.PutUint16(b[8+2*i:], x)
	}
	current.WriteAt(b, 0)
}

// announced reads what a worker that was lost was executing.
func announced(path string) (sc int, prefix []uint16, ok bool) {
	var b, err = os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return
	}
	sc = int(binary.LittleEndian.Uint32(b))
	var n = int(binary.LittleEndian.Uint32(b[4:]))
	if len(b) < 8+2*n {
		return
	}
	for i := 0; i < n; i++ {
		prefix = append(prefix, binary.LittleEndian.Uint16(b[8+2*i:]))
	}
	return sc, prefix, true
}

func toInts(p []uint16) []int {
	var out = make([]int, len(p))
	for i, x := range p {
		out[i] = int(x)
	}
	return out
}

var raceLog struct {
	path string
	off  int64
}

func initRaceLog() {
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(o, "log_path=") {
			raceLog.path = fmt.Sprintf("%s.%d", o[len("log_path="):], os.Getpid())
		}
	}
}

// raceText reads the reports written since the last call and names the functions involved.
func raceText() string {
	var b, err = os.ReadFile(raceLog.path)
	if err != nil || int64(len(b)) <= raceLog.off {
		return "unreported stacks"
	}
	var text = string(b[raceLog.off:])
	raceLog.off = int64(len(b))
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, text)
	}
	if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 {
		text = text[i:]
	}
	if i := strings.Index(text, "Goroutine "); i >= 0 {
		text = text[:i]
	}
	var out []string
	var fresh = false
	for _, l := range strings.Split(text, "\n") {
		var t = strings.TrimSpace(l)
		switch {
		case strings.Contains(t, " at 0x") && strings.Contains(t, "by "):
			fresh = true
			out = append(out, strings.ToLower(strings.Fields(strings.TrimPrefix(t, "Previous "))[0]))
		case fresh && strings.HasSuffix(t, ")") && (strings.Contains(t, "distclus") || strings.Contains(t, "harness")):
			out[len(out)-1] += " in " + strings.TrimPrefix(strings.TrimSuffix(t, "()"), "github.com/wearelumenai/distclus/")
			fresh = false
		}
	}
	sort.Strings(out)
	return strings.Join(out, " / ")
}

// execute runs one schedule and classifies it.
func execute(sc *Scenario, prefix []uint16, trace bool) (*vsched.Result, *violation) {
	var opt = sc.Opt
	opt.Prefix = toInts(prefix)
	opt.Trace = trace
	var res = vsched.Run(opt, sc.Body)
	var v *violation
	var add = func(kind, msg string) {
		if v == nil {
			v = &violation{Scenario: sc.Name, Kind: kind, Message: msg}
		}
	}
	if res.Diverged != "" {
		add("divergence", res.Diverged)
	}
	for _, f := range res.Failures {
		add("assertion", f)
	}
	if res.Panic != "" {
		add("panic", res.Panic)
	}
	if res.Races > 0 {
		add("race", "data race: "+raceText())
	}
	if res.LateRaces > 0 {
		raceText() // not about an execution
	}
	if res.Deadlock != "" {
		add("deadlock", res.Deadlock)
	}
	if res.Horizon && !sc.LiveOK {
		add("no progress", "still running after the step horizon: "+strings.Join(res.Leaked, "; "))
	}
	if v != nil {
		v.Choices = make([]uint16, len(res.Decisions))
		for i, d := range res.Decisions {
			v.Choices[i] = uint16(d.Chosen)
		}
		v.Trace = res.Trace
	}
	return res, v
}

// slice explores the subtree of a job for a while.
func slice(scens []Scenario, j job, budget time.Duration) (r reply) {
	r.Outcomes = map[string]int{}
	var sc = &scens[j.Scen]
	var start = time.Now()
	var stack = []job{j}
	evals = 0
	for len(stack) > 0 {
		if time.Since(start) > budget || len(r.Violations) > 20 {
			r.Left = stack
			break
		}
		var x = stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		announce(j.Scen, x.Prefix)
		var res, v = execute(sc, x.Prefix, false)
		if v != nil && v.Kind == "race" {
			// the detector may mistake reused memory for shared memory: a race of the
			// program is seen again
			var again = false
			for i := 0; i < 3 && !again; i++ {
				var _, w = execute(sc, x.Prefix, false)
				again = w != nil && w.Kind == "race"
			}
			if !again {
				v = nil
			}
		}
		r.Execs++
		r.Steps += res.Steps
		r.Nodes += len(res.Decisions) - len(x.Prefix)
		if res.Threads > r.Threads {
			r.Threads = res.Threads
		}
		if len(res.Decisions) > r.MaxLen {
			r.MaxLen = len(res.Decisions)
		}
		if v != nil {
			r.Violations = append(r.Violations, *v)
			continue
		}
		if len(r.Outcomes) < 4096 {
			r.Outcomes[res.Outcome]++
		}
		// children: one more deviation somewhere after the forced prefix
		for i := len(res.Decisions) - 1; i >= len(x.Prefix); i-- {
			var d = res.Decisions[i]
			for c := d.N - 1; c >= 0; c-- {
				if c == d.Chosen || x.Cost+d.Costs[c] > j.Max {
					continue
				}
				var p = make([]uint16, i+1)
				for k := 0; k < i; k++ {
					p[k] = uint16(res.Decisions[k].Chosen)
				}
				p[i] = uint16(c)
				stack = append(stack, job{Scen: j.Scen, Max: j.Max, Prefix: p, Cost: x.Cost + d.Costs[c]})
			}
		}
	}
	r.Evals = evals
	r.Truncated = truncated
	return r
}

// ---- worker process ------------------------------------------------------------

func worker(p *Property, thorough bool) {
	initRaceLog()
	var scens = p.Scenarios(thorough)
	var dec, enc = gob.NewDecoder(os.Stdin), gob.NewEncoder(os.Stdout)
	current, _ = os.Create(os.Getenv("VERIF_CURRENT"))
	if n, err := strconv.ParseInt(os.Getenv("VERIF_DEADLINE"), 10, 64); err == nil {
		evalDeadline = time.Unix(n, 0)
	}
	if p.Race && vsched.RaceEnabled {
		if !probe.Canaries() {
			fmt.Fprintln(os.Stderr, "the race detector does not see the races of the canaries, or sees others")
			os.Exit(93)
		}
		raceText()
	}
	var busy atomic.Bool
	go watchdog(&busy)
	for {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		busy.Store(true)
		var r = slice(scens, j, 200*time.Millisecond)
		busy.Store(false)
		if err := enc.Encode(r); err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(3)
		}
	}
}

// ---- coordinator ---------------------------------------------------------------

type totals struct {
	execs, steps, nodes, evals int
	threads, maxLen            int
	outcomes                   map[string]bool
	perScen                    map[string]int
	completed                  map[string]int // deviation bound completed per scenario
	violations                 []violation
	complete                   bool
	scenarios                  int
}

type proc struct {
	current string
	cmd     *exec.Cmd
	in      io.WriteCloser
	enc     *gob.Encoder
	dec     *gob.Decoder
}

func startWorker(id string, tier string, race bool, dir string, deadline time.Time, rank int) (*proc, error) {
	var cmd = exec.Command(os.Args[0], "worker", id, tier)
	var current = filepath.Join(dir, fmt.Sprint("current", rank))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "VERIF_CURRENT="+current, fmt.Sprint("VERIF_DEADLINE=", deadline.Unix()),
		"GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0 suppress_equal_stacks=0 log_path="+filepath.Join(dir, "race"))
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{current: current, cmd: cmd, in: in, enc: gob.NewEncoder(in), dec: gob.NewDecoder(out)}, nil
}

func explore(p *Property, thorough bool, nWorkers int, deadline time.Time, known []finding) (*totals, error) {
	var tier, ti = "quick", 0
	if thorough {
		tier, ti = "thorough", 1
	}
	var scens = p.Scenarios(thorough)
	var t = &totals{outcomes: map[string]bool{}, perScen: map[string]int{}, completed: map[string]int{}, complete: true}
	dir, err := os.MkdirTemp("", "verif-race")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)

	var maxBound = 0
	for i := range scens {
		if scens[i].Max[ti] > maxBound {
			maxBound = scens[i].Max[ti]
		}
		if scens[i].Max[ti] >= 0 {
			t.scenarios++
		}
	}
	var procs []*proc
	for i := 0; i < nWorkers; i++ {
		w, err := startWorker(p.ID, tier, p.Race, dir, deadline, i)
		if err != nil {
			return nil, err
		}
		procs = append(procs, w)
	}
	defer func() {
		for _, w := range procs {
			w.in.Close()
			w.cmd.Process.Kill()
			w.cmd.Wait()
		}
	}()

	var mu sync.Mutex
	var late = false // the workers were stopped: long after the deadline
	var halt = time.AfterFunc(time.Until(deadline)+grace, func() {
		mu.Lock()
		defer mu.Unlock()
		late, t.complete = true, false
		for _, w := range procs {
			w.cmd.Process.Kill()
		}
	})
	defer halt.Stop()
	var cond = sync.NewCond(&mu)
	var seen = map[string]bool{}
	for bound := 0; bound <= maxBound; bound++ {
		var queue []job
		var left = make([]int, len(scens)) // open jobs per scenario
		for i := range scens {
			var m = scens[i].Max[ti]
			if m < bound && !(bound == 0 && m >= 0) {
				continue
			}
			queue = append(queue, job{Scen: i, Max: bound})
			left[i]++
		}
		for i, j := 0, len(queue)-1; i < j; i, j = i+1, j-1 {
			queue[i], queue[j] = queue[j], queue[i]
		}
		var busy = 0
		var stop = false
		var fatal error
		var wg sync.WaitGroup
		for _, w := range procs {
			wg.Add(1)
			go func(w *proc) {
				defer wg.Done()
				for {
					mu.Lock()
					for len(queue) == 0 && busy > 0 && !stop {
						cond.Wait()
					}
					if stop || len(queue) == 0 {
						mu.Unlock()
						return
					}
					if time.Now().After(deadline) {
						t.complete = false
						stop = true
						cond.Broadcast()
						mu.Unlock()
						return
					}
					var j = queue[len(queue)-1]
					queue = queue[:len(queue)-1]
					busy++
					mu.Unlock()
					var r reply
					var err = w.enc.Encode(j)
					if err == nil {
						err = w.dec.Decode(&r)
					}
					mu.Lock()
					busy--
					if err != nil {
						w.cmd.Wait()
						if late {
							// nothing was decided about that execution
						} else if sc, prefix, ok := announced(w.current); ok && sc == j.Scen {
							// decided by running the same execution again, alone
							var v = violation{Scenario: scens[sc].Name, Kind: "crash", Message: "the process does not survive: " + fmt.Sprint(w.cmd.ProcessState), Choices: prefix}
							if w.cmd.ProcessState.ExitCode() == exitHang {
								v.Kind, v.Message = "no progress", "an execution does not come back"
							}
							t.violations = append(t.violations, v)
							t.complete = false
						} else {
							fatal = fmt.Errorf("worker lost in scenario %s: %v", scens[j.Scen].Name, err)
						}
						stop = true
						cond.Broadcast()
						mu.Unlock()
						return
					}
					left[j.Scen]--
					left[j.Scen] += len(r.Left)
					queue = append(queue, r.Left...)
					if left[j.Scen] == 0 {
						t.completed[scens[j.Scen].Name] = bound
					}
					if bound == 0 || true {
						t.execs += r.Execs
						t.steps += r.Steps
						t.nodes += r.Nodes
						t.evals += r.Evals
					}
					if r.Truncated {
						t.complete = false
					}
					t.perScen[scens[j.Scen].Name] += r.Execs
					if r.Threads > t.threads {
						t.threads = r.Threads
					}
					if r.MaxLen > t.maxLen {
						t.maxLen = r.MaxLen
					}
					for o := range r.Outcomes {
						if len(t.outcomes) < 1<<17 {
							t.outcomes[scens[j.Scen].Name+" => "+o] = true
						}
					}
					for _, v := range r.Violations {
						var key = v.Scenario + v.Kind + sig(v.Message)
						if seen[key] {
							continue
						}
						seen[key] = true
						t.violations = append(t.violations, v)
						if matchKnown(known, p.ID, v) == nil && os.Getenv("VERIF_ALL") == "" {
							stop = true
						}
					}
					cond.Broadcast()
					mu.Unlock()
				}
			}(w)
		}
		wg.Wait()
		if fatal != nil {
			return t, fatal
		}
		if stop {
			if len(t.violations) > 0 {
				t.complete = false
			}
			break
		}
	}
	return t, nil
}

// sig is the part of a message that identifies a failure.
func sig(m string) string {
	if i := strings.IndexByte(m, '\n'); i >= 0 {
		m = m[:i]
	}
	return m
}
