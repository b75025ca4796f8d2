package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"verif/vsched"
)

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Scenario string   `json:"scenario"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Choices  []uint16 `json:"choices"`
	Trace    []string `json:"trace,omitempty"`
}

type finding struct{ property, scenario, text string }

// known_findings.txt: lines "finding: property=<id> scenario=<name> <what fails>"; lines
// that start with "fixed:" are a record and suppress nothing.
func loadFindings(root string) (out []finding) {
	var b, _ = os.ReadFile(filepath.Join(root, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var f = strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) == 3 {
			out = append(out, finding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "scenario="), f[2]})
		}
	}
	return
}

func matchKnown(known []finding, id string, v violation) *finding {
	for i, k := range known {
		if k.property == id && k.scenario == strings.ReplaceAll(v.Scenario, " ", "_") &&
			strings.HasPrefix(v.Kind+": "+sig(v.Message), k.text) {
			return &known[i]
		}
	}
	return nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check ID TIER ROOT | worker ID TIER | replay FILE | list")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	switch os.Args[1] {
	case "list":
		var ids []string
		for id, p := range properties {
			var kind = "plain"
			if p.Race {
				kind = "race"
			}
			ids = append(ids, id+" "+kind)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "worker":
		worker(properties[os.Args[2]], os.Args[3] == "thorough")
	case "exec":
		execOne(os.Args[2])
	case "check":
		os.Exit(runCheck(os.Args[2], os.Args[3], os.Args[4]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		os.Exit(2)
	}
}

func findScenario(p *Property, tier, name string) *Scenario {
	var scens = p.Scenarios(tier == "thorough")
	for i := range scens {
		if scens[i].Name == name {
			return &scens[i]
		}
	}
	return nil
}

// execOne runs one recorded schedule in this process and prints what happened as JSON.
func execOne(path string) {
	initRaceLog()
	var b, err = os.ReadFile(path)
	var rf replayFile
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var p = properties[rf.Property]
	var sc *Scenario
	if p != nil {
		sc = findScenario(p, rf.Tier, rf.Scenario)
	}
	if sc == nil {
		fmt.Fprintln(os.Stderr, "no such scenario:", rf.Property, rf.Scenario)
		os.Exit(3)
	}
	var busy atomic.Bool
	busy.Store(true)
	go watchdog(&busy)
	var res, v = execute(sc, rf.Choices, true)
	busy.Store(false)
	var out = replayFile{Property: rf.Property, Tier: rf.Tier, Scenario: rf.Scenario, Choices: rf.Choices, Trace: res.Trace}
	if v != nil {
		out.Kind, out.Message = v.Kind, v.Message
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func fresh(rf replayFile) (replayFile, error) {
	var out replayFile
	f, err := os.CreateTemp("", "verif-replay")
	if err != nil {
		return out, err
	}
	defer os.Remove(f.Name())
	json.NewEncoder(f).Encode(rf)
	f.Close()
	dir, err := os.MkdirTemp("", "verif-race")
	if err != nil {
		return out, err
	}
	defer os.RemoveAll(dir)
	var cmd = exec.Command(os.Args[0], "exec", f.Name())
	cmd.Env = append(os.Environ(),
		"GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"))
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return out, err
	}
	return out, json.Unmarshal(b, &out)
}

func replay(path string) int {
	var b, err = os.ReadFile(path)
	var rf, out replayFile
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err == nil {
		out, err = fresh(rf)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, l := range out.Trace {
		fmt.Println(l)
	}
	if out.Kind == "" {
		fmt.Println("no violation under this schedule")
		return 0
	}
	fmt.Printf("%s: %s\n", out.Kind, out.Message)
	return 1
}

func runCheck(id, tier, root string) int {
	var p = properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	var thorough = tier == "thorough"
	var start = time.Now()
	var limit = 400 * time.Second
	if thorough {
		limit = 13 * time.Minute
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_LIMIT_S")); err == nil && s > 0 {
		limit = time.Duration(s) * time.Second
	}
	var known = loadFindings(root)
	var n = runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	t, err := explore(p, thorough, n, start.Add(limit), known)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 3
	}
	var code = 0
	var nviol = 0
	var reported = map[*finding]bool{}
	for _, v := range t.violations {
		if nviol >= 3 && os.Getenv("VERIF_ALL") == "" {
			break // enough to say that the property does not hold
		}
		var rf = replayFile{Property: id, Tier: tier, Scenario: v.Scenario, Kind: v.Kind, Message: v.Message, Choices: v.Choices}
		// the same schedule must fail in fresh processes too
		var again = 0
		for i := 0; i < 3; i++ {
			out, err := fresh(rf)
			if err != nil {
				// the process died under that schedule: as bad as a failure
				again++
				continue
			}
			if out.Kind != "" && out.Kind != "divergence" {
				again++
				rf.Trace = out.Trace
				rf.Kind, rf.Message = out.Kind, out.Message
			}
		}
		if again < 3 && !(v.Kind == "race" && again > 0) {
			fmt.Fprintf(os.Stderr, "not reproducible (%d/3), ignored: %s %s: %s\n", again, v.Scenario, v.Kind, v.Message)
			continue
		}
		if k := matchKnown(known, id, v); k != nil {
			if !reported[k] {
				reported[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s scenario=%s %s\n", id, k.scenario, k.text)
			}
			continue
		}
		nviol++
		code = 1
		var path = writeReplay(root, rf, nviol)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  scenario %s\n  %s: %s\n", rf.Scenario, rf.Kind, sig(rf.Message))
	}
	writeEvidence(root, p, tier, t, time.Since(start), nviol)
	fmt.Printf("%s %s: %d scenarios, %d executions, %d steps, %d choice points, %d evaluations, %d distinct outcomes, complete=%v, %.1fs\n",
		id, tier, t.scenarios, t.execs, t.steps, t.nodes, t.evals, len(t.outcomes), t.complete, time.Since(start).Seconds())
	return code
}

func writeReplay(root string, rf replayFile, n int) string {
	var dir = filepath.Join(root, "replays")
	os.MkdirAll(dir, 0o755)
	var path = filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", rf.Property, rf.Tier, n))
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func writeEvidence(root string, p *Property, tier string, t *totals, wall time.Duration, nviol int) {
	var seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	var samples []string
	var names []string
	for o := range t.outcomes {
		names = append(names, o)
	}
	sort.Strings(names)
	for i := 0; i < len(names) && len(samples) < 12; i += 1 + len(names)/12 {
		var s = names[i]
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		samples = append(samples, s)
	}
	var bounds = map[string]int{}
	for _, b := range t.completed {
		bounds[fmt.Sprintf("scenarios with every execution of at most %d deviations explored", b)]++
	}
	var cov = map[string]interface{}{
		"states":                        t.nodes,
		"transitions":                   t.steps,
		"traces_validated_against_impl": t.execs,
		"distinct_outcomes":             len(t.outcomes),
		"scenarios":                     t.scenarios,
		"max_threads":                   t.threads,
		"max_choices_in_one_execution":  t.maxLen,
		"bounds_completed":              bounds,
		"exhaustive":                    t.complete,
		"samples":                       samples,
		"explanation": "states: choice points visited (a choice of the next thread, of an environment answer, of an operation or of an input); " +
			"transitions: visible operations executed under the controlled scheduler; traces_validated_against_impl: complete executions of the real code, " +
			"each compared with the oracle; " + p.Rule,
	}
	if t.evals > 0 {
		cov["evaluations_inside_executions"] = t.evals
	}
	var e = map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": p.Assume, "wall_s": wall.Seconds(), "violations": nviol,
	}
	if p.Assume == nil {
		e["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
	_ = vsched.RaceEnabled
}
