package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// exit codes of the internal subcommands
const (
	exHang = 86
	exMem  = 87
)

var memLimit uint64 = 3 << 30

func realNow() float64 { return float64(time.SimRealNow()) / 1e9 }

func cpuNow() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// watchdog ends the process when one run uses too much CPU or memory.
type watchdog struct {
	mu    sync.Mutex
	start float64
	on    bool
}

func startWatchdog(cpuLimit float64) *watchdog {
	w := &watchdog{}
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			w.mu.Lock()
			on, st := w.on, w.start
			w.mu.Unlock()
			if on && cpuNow()-st > cpuLimit {
				fmt.Fprintln(os.Stderr, "WATCHDOG hang")
				os.Exit(exHang)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if on && ms.HeapAlloc > memLimit {
				fmt.Fprintln(os.Stderr, "WATCHDOG memory")
				os.Exit(exMem)
			}
		}
	}()
	return w
}

func (w *watchdog) begin() { w.mu.Lock(); w.start, w.on = cpuNow(), true; w.mu.Unlock() }
func (w *watchdog) end()   { w.mu.Lock(); w.on = false; w.mu.Unlock() }

func main() {
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(300)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|replay|one|shrink|dump ...")
		os.Exit(2)
	}
	args := map[string]string{}
	var rest []string
	for i := 2; i < len(os.Args); i++ {
		a := os.Args[i]
		if strings.HasPrefix(a, "-") && i+1 < len(os.Args) {
			args[strings.TrimLeft(a, "-")] = os.Args[i+1]
			i++
		} else {
			rest = append(rest, a)
		}
	}
	num := func(k string, d int) int {
		if v, ok := args[k]; ok {
			n, err := strconv.Atoi(v)
			if err != nil {
				fmt.Fprintln(os.Stderr, "bad number", k, v)
				os.Exit(2)
			}
			return n
		}
		return d
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(args["prop"], args["tier"], num("seed", 1), args["verif"], num("runs", 0), num("wall", 0)))
	case "worker":
		cmdWorker(args["prop"], num("seed", 1), num("from", 0), num("step", 1), num("n", 1), float64(num("cpu", 40)), float64(num("wall", 600)))
	case "replay":
		os.Exit(cmdReplay(rest[0], num("v", 0) > 0 || args["verbose"] != ""))
	case "one":
		os.Exit(cmdOne(rest[0], args["log"] != ""))
	case "shrink":
		cmdShrink(rest[0], rest[1], float64(num("secs", 60)))
	case "dump":
		b, _ := json.MarshalIndent(genPlan(args["prop"], uint64(num("seed", 1)), num("run", 0)), "", " ")
		fmt.Println(string(b))
	case "props":
		for _, p := range propIDs() {
			fmt.Println(p)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// runLine is what a worker reports about one run.
type runLine struct {
	Run     int        `json:"run"`
	Hash    uint64     `json:"hash"`
	Events  int        `json:"events"`
	Yields  int        `json:"yields"`
	SimNs   int64      `json:"sim_ns"`
	Viol    *Violation `json:"viol,omitempty"`
	Foreign *Violation `json:"foreign,omitempty"`
}

func cmdWorker(prop string, seed, from, step, n int, cpu, wall float64) {
	w := startWatchdog(cpu)
	out := bufio.NewWriter(os.Stdout)
	total := map[string]int{}
	t0 := realNow()
	for i := from; i < n; i += step {
		if realNow()-t0 > wall {
			break
		}
		fmt.Fprintf(out, "R %d\n", i)
		out.Flush()
		w.begin()
		p := genPlan(prop, uint64(seed), i)
		st := cpuNow()
		r := execute(p, false)
		w.end()
		if ms := int((cpuNow() - st) * 1000); ms > total["max:run-cpu-ms"] {
			total["max:run-cpu-ms"], total["max:run-cpu-ms-run"] = ms, i
		}
		b, _ := json.Marshal(runLine{i, r.Hash, r.Events, r.Yields, r.SimNs, r.Viol, r.Foreign})
		fmt.Fprintf(out, "D %s\n", b)
		for k, v := range r.Stats {
			total[k] += v
		}
	}
	b, _ := json.Marshal(total)
	fmt.Fprintf(out, "S %s\n", b)
	out.Flush()
}

func loadPlan(file string) *Plan {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := &Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return p
}

// cmdOne executes one plan file and prints its outcome as JSON.
func cmdOne(file string, log bool) int {
	p := loadPlan(file)
	cpu := 60.0
	w := startWatchdog(cpu)
	w.begin()
	r := execute(p, log)
	if log {
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	b, _ := json.Marshal(runLine{p.Run, r.Hash, r.Events, r.Yields, r.SimNs, r.Viol, r.Foreign})
	fmt.Printf("OUT %s\n", b)
	return 0
}

// runOne executes a plan file in a fresh process.  A crash or hang is
// returned as a violation.
func runOne(file string, p *Plan) (*runLine, error) {
	cmd := exec.Command(os.Args[0], "one", file)
	var stderr strings.Builder
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "OUT ") {
			rl := &runLine{}
			if e := json.Unmarshal([]byte(l[4:]), rl); e != nil {
				return nil, e
			}
			return rl, nil
		}
	}
	if err == nil {
		return nil, fmt.Errorf("no outcome")
	}
	v := crashViolation(p.Prop, err, stderr.String())
	if v == nil {
		return nil, fmt.Errorf("process failed: %v\n%s", err, tail(stderr.String(), 4000))
	}
	return &runLine{Run: p.Run, Viol: v}, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// crashViolation interprets the death of a simulated process.
func crashViolation(prop string, err error, stderr string) *Violation {
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return nil
	}
	if strings.Contains(stderr, "simbug") {
		return nil
	}
	switch {
	case ee.ExitCode() == exHang:
		return &Violation{prop, "no-progress", 0, 0, "a run that normally takes milliseconds does not return within its CPU bound (confirmed in a fresh process)"}
	case ee.ExitCode() == exMem:
		return &Violation{prop, "memory", 0, 0, "a run exhausts the memory bound (confirmed in a fresh process)"}
	case strings.Contains(stderr, "stack overflow") || strings.Contains(stderr, "goroutine stack exceeds"):
		return &Violation{prop, "stack-overflow", 0, 0, "a run overflows the stack: " + firstRepoFrame(stderr)}
	case strings.Contains(stderr, "fatal error: concurrent map") || strings.Contains(stderr, "fatal error: all goroutines are asleep"):
		return nil
	case strings.Contains(stderr, repoDir) && strings.Contains(stderr, "fatal error:"):
		return &Violation{prop, "fatal", 0, 0, "a run ends with a fatal runtime error: " + firstRepoFrame(stderr)}
	}
	return nil
}

func firstRepoFrame(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, repoDir) {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

func cmdReplay(file string, verbose bool) int {
	p := loadPlan(file)
	rl, err := runOne(file, p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if verbose {
		cmd := exec.Command(os.Args[0], "one", file, "-log", "1")
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		_ = cmd.Run()
	}
	if rl.Viol != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n", rl.Viol.Prop, file, rl.Viol.Code, rl.Viol.Msg)
		return 1
	}
	fmt.Printf("no violation (hash %x)\n", rl.Hash)
	return 0
}

type knownFinding struct {
	Property string `json:"property"`
	Code     string `json:"code"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Replay   string `json:"replay"`
}

type knownFile struct {
	Known []knownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

func (kf *knownFile) has(v *Violation) bool {
	for _, k := range kf.Known {
		if k.Property == v.Prop && k.Code == v.Code && strings.Contains(v.Msg, k.Match) {
			return true
		}
	}
	return false
}

// loadKnown reads the known findings which the check passes to its workers;
// a replay runs without them.
func loadKnown() *knownFile {
	var kf knownFile
	if b, err := os.ReadFile(os.Getenv("SIM_KNOWN")); err == nil {
		_ = json.Unmarshal(b, &kf)
	}
	return &kf
}

// cmdCheck is the parent process of a check.
func cmdCheck(prop, tier string, seed int, verif string, runsOverride, wallOverride int) int {
	t0 := realNow()
	spec, ok := props[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	runs, wall := spec.quick, 150.0
	if tier == "thorough" {
		runs, wall = 1<<30, 600
	}
	if runsOverride > 0 {
		runs = runsOverride
	}
	if wallOverride > 0 {
		wall = float64(wallOverride)
	}
	tmp, err := os.MkdirTemp("", "lngsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
	}
	os.Setenv("SIM_KNOWN", filepath.Join(verif, "known_findings.json"))
	known := kf.has
	// 1. regression corpus: minimised replays of repaired defects
	corpus, _ := filepath.Glob(filepath.Join(verif, "corpus", prop+"-*.json"))
	sort.Strings(corpus)
	for _, file := range corpus {
		p := loadPlan(file)
		rl, err := runOne(file, p)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if rl.Viol != nil && !known(rl.Viol) {
			p.Expect = rl.Viol
			return report(prop, tier, seed, verif, tmp, p, rl.Viol, t0, nil, nil, runs)
		}
	}
	for _, k := range kf.Known {
		if k.Property != prop {
			continue
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
	}
	// 2. determinism: the same seeds in two processes with different layout
	det := map[int]uint64{}
	nDet := 24
	if nDet > runs {
		nDet = runs
	}
	dl, err2 := collectRuns(prop, seed, 0, 1, nDet, wall, func(r *runLine) bool {
		det[r.Run] = r.Hash
		return r.Viol == nil || known(r.Viol)
	})
	if err2 != nil {
		fmt.Fprintln(os.Stderr, err2)
		return 2
	}
	_ = dl
	// 3. seeded search
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if s := os.Getenv("SIM_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	agg := newAgg()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var firstErr error
	var best *runLine
	nondet := ""
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			st, err := collectRuns(prop, seed, k, workers, runs, wall, func(r *runLine) bool {
				mu.Lock()
				defer mu.Unlock()
				if h, ok := det[r.Run]; ok && h != r.Hash && r.Hash != 0 && h != 0 {
					nondet = fmt.Sprintf("run %d: %x != %x", r.Run, h, r.Hash)
				}
				agg.add(r)
				if r.Viol != nil && !known(r.Viol) {
					if best == nil || r.Run < best.Run {
						best = r
					}
					return false
				}
				if r.Viol != nil {
					agg.known++
				}
				return true
			})
			mu.Lock()
			defer mu.Unlock()
			if err != nil && firstErr == nil {
				firstErr = err
			}
			if st["max:run-cpu-ms"] > agg.stats["max:run-cpu-ms"] {
				agg.stats["max:run-cpu-ms"], agg.stats["max:run-cpu-ms-run"] = st["max:run-cpu-ms"], st["max:run-cpu-ms-run"]
			}
			for kk, v := range st {
				if !strings.HasPrefix(kk, "max:") {
					agg.stats[kk] += v
				}
			}
		}(k)
	}
	wg.Wait()
	if best != nil {
		p := genPlan(prop, uint64(seed), best.Run)
		p.Expect = best.Viol
		return report(prop, tier, seed, verif, tmp, p, best.Viol, t0, agg, best, runs)
	}
	if firstErr != nil {
		fmt.Fprintln(os.Stderr, firstErr)
		return 2
	}
	if nondet != "" {
		fmt.Fprintln(os.Stderr, "simulator is not deterministic:", nondet)
		return 2
	}
	if agg.foreignN*5 > agg.runs && agg.runs > 100 {
		fmt.Fprintf(os.Stderr, "note: %d of %d runs ended early at violations of other properties\n", agg.foreignN, agg.runs)
	}
	writeEvidence(prop, tier, seed, verif, t0, agg, len(corpus), nDet, 0)
	fmt.Printf("OK property=%s runs=%d distinct=%d events=%d wall=%.1fs\n", prop, agg.runs, len(agg.hashes), agg.events, realNow()-t0)
	return 0
}

// collectRuns runs a worker and attributes a crash to the run in progress.
// each reports whether to go on: a listed finding does not end the search.
func collectRuns(prop string, seed, from, step, n int, wall float64, each func(*runLine) bool) (map[string]int, error) {
	stats := map[string]int{}
	t0 := realNow()
	for from < n {
		left := wall - (realNow() - t0)
		if left < 1 {
			return stats, nil
		}
		cmd := exec.Command(os.Args[0], "worker", "-prop", prop, "-seed", strconv.Itoa(seed), "-from", strconv.Itoa(from),
			"-step", strconv.Itoa(step), "-n", strconv.Itoa(n), "-wall", strconv.Itoa(int(left)))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		var stderr strings.Builder
		cmd.Stderr = &stderr
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			return stats, err
		}
		if err := cmd.Start(); err != nil {
			return stats, err
		}
		cur := -1
		viol := false
		sc := bufio.NewScanner(pipe)
		sc.Buffer(nil, 64<<20)
		for sc.Scan() {
			l := sc.Text()
			switch {
			case strings.HasPrefix(l, "R "):
				cur, _ = strconv.Atoi(l[2:])
			case strings.HasPrefix(l, "D "):
				rl := &runLine{}
				if err := json.Unmarshal([]byte(l[2:]), rl); err != nil {
					return stats, err
				}
				cur = -1
				viol = !each(rl)
			case strings.HasPrefix(l, "S "):
				var m map[string]int
				_ = json.Unmarshal([]byte(l[2:]), &m)
				for k, v := range m {
					if strings.HasPrefix(k, "max:") && v < stats[k] {
						continue
					}
					if strings.HasPrefix(k, "max:") {
						stats[k] = 0
					}
					stats[k] += v
				}
			}
			if viol {
				break
			}
		}
		if viol {
			// a violation ends this worker; the lowest run wins overall
			_ = cmd.Process.Kill()
			_ = cmd.Wait()
			return stats, nil
		}
		err = cmd.Wait()
		if err == nil {
			return stats, nil
		}
		v := crashViolation(prop, err, stderr.String())
		if v == nil || cur < 0 {
			return stats, fmt.Errorf("worker failed at run %d: %v\n%s", cur, err, tail(stderr.String(), 4000))
		}
		// confirm in a fresh process
		tmp, err := os.CreateTemp("", "lngsim*.json")
		if err != nil {
			return stats, err
		}
		p := genPlan(prop, uint64(seed), cur)
		b, _ := json.Marshal(p)
		_, _ = tmp.Write(b)
		_ = tmp.Close()
		rl, err := runOne(tmp.Name(), p)
		_ = os.Remove(tmp.Name())
		if err != nil {
			return stats, err
		}
		if rl.Viol != nil {
			rl.Run = cur
			if !each(rl) {
				return stats, nil
			}
			from = cur + step
			continue
		}
		// not confirmed: a loaded machine; take the confirmed outcome
		each(rl)
		from = cur + step
	}
	return stats, nil
}

type aggregate struct {
	runs, events, yields, foreignN, known int
	simNs                                 int64
	hashes                                map[uint64]bool
	nontrivial                            int
	stats                                 map[string]int
	foreign                               map[string]int
	samples                               []int
}

func newAgg() *aggregate {
	return &aggregate{hashes: map[uint64]bool{}, stats: map[string]int{}, foreign: map[string]int{}}
}

func (a *aggregate) add(r *runLine) {
	a.runs++
	a.events += r.Events
	a.yields += r.Yields
	a.simNs += r.SimNs
	if !a.hashes[r.Hash] {
		a.hashes[r.Hash] = true
		if r.Yields > 1 && (r.Events > 0 || r.Yields > 4) {
			a.nontrivial++
		}
	}
	if r.Foreign != nil {
		a.foreignN++
		a.foreign[r.Foreign.Prop+":"+r.Foreign.Code]++
	}
}

// report shrinks a violation, verifies the replay and prints the verdict.
func report(prop, tier string, seed int, verif, tmp string, p *Plan, v *Violation, t0 float64, agg *aggregate, rl *runLine, runs int) int {
	raw := filepath.Join(tmp, "raw.json")
	min := filepath.Join(tmp, "min.json")
	b, _ := json.MarshalIndent(p, "", " ")
	_ = os.WriteFile(raw, b, 0o644)
	final := raw
	if v.Code != "no-progress" && v.Code != "memory" {
		cmd := exec.Command(os.Args[0], "shrink", raw, min, "-secs", "60")
		cmd.Stderr = os.Stderr
		_ = cmd.Run()
		if _, err := os.Stat(min); err == nil {
			mp := loadPlan(min)
			if r, err := runOne(min, mp); err == nil && r.Viol != nil && r.Viol.Code == v.Code {
				final = min
				v = r.Viol
			}
		}
	}
	if final == raw {
		r, err := runOne(raw, p)
		if err != nil || r.Viol == nil {
			fmt.Fprintln(os.Stderr, "violation did not replay in a fresh process:", v.Code, v.Msg, err)
			return 2
		}
	}
	dir := filepath.Join(verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	fp := loadPlan(final)
	fp.Expect = v
	b, _ = json.MarshalIndent(fp, "", " ")
	dst := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, p.Run))
	if err := os.WriteFile(dst, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if agg == nil {
		agg = newAgg()
	}
	writeEvidence(prop, tier, seed, verif, t0, agg, 0, 0, 1)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, dst)
	fmt.Printf("  code=%s seed=%d run=%d client=%d op=%d\n  %s\n", v.Code, seed, p.Run, v.Client, v.Op, v.Msg)
	return 1
}

func writeEvidence(prop, tier string, seed int, verif string, t0 float64, a *aggregate, corpus, det, violations int) {
	wall := realNow() - t0
	faults, opsN, sched, veto, other := map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	for k, v := range a.stats {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "op:"):
			opsN[k[3:]] = v
		case strings.HasPrefix(k, "sched:"):
			sched[k[6:]] = v
		case strings.HasPrefix(k, "veto-at:"):
			veto[k[8:]] = v
		default:
			other[k] = v
		}
	}
	sample := genPlan(prop, uint64(seed), 0)
	var smp any = sample
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"coverage": map[string]any{
			"evaluations":                    a.runs,
			"distinct_nontrivial":            a.nontrivial,
			"rule":                           "one evaluation = one simulated execution of a plan generated from hash(VERIF_SEED, property, run index): clients, operations, formulas, scheduler seed, cancellation/clock/IO faults and the runtime's random state; it is distinct if the hash of its complete event log (handler events, context switches, results, I/O calls) was not seen before in this check, and non-trivial if it has more than one scheduling point and handler events, or at least four operations",
			"samples":                        []any{smp},
			"runs_per_hour":                  float64(a.runs) / wall * 3600,
			"seeds":                          a.runs,
			"simulated_seconds":              float64(a.simNs) / 1e9,
			"handler_events":                 a.events,
			"scheduling_points":              a.yields,
			"context_switches":               sched,
			"faults_injected":                faults,
			"cancelled_at_event":             veto,
			"operations":                     opsN,
			"probes":                         other,
			"distinct_event_logs":            len(a.hashes),
			"runs_ended_by_other_properties": a.foreign,
			"known_findings_hit":             a.known,
			"regression_replays":             corpus,
			"determinism_double_runs":        det,
			"real_components":                []string{"all packages of github.com/booleworks/logicng-go used by the operations (unmodified)", "Go standard library incl. os, bufio, time with hooks at the system-call boundary"},
			"stubbed_components":             []string{"runtime randomness (map iteration order, math/rand seeds)", "wall and monotonic clock", "file system calls on /sim/ paths", "choice of the running client at handler events, operation boundaries and I/O calls"},
		},
		"assumptions": []string{"problems are small enough for the reference model (truth tables over at most 12 variables); larger ones only meet the structural checks", "the library starts no goroutines, so handler events, operation boundaries and I/O calls are the only points at which clients can interleave"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
