package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/core"
)

// proc is a worker process.
type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	enc    *json.Encoder
	lines  chan *answer
	stderr *tailBuffer
	last   int // last run index started
}

type tailBuffer struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 64<<10 {
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.buf) }

type runner struct {
	prop, tier string
	seed       uint64
	nsites     int
	chunk      int
	watchdog   time.Duration
}

func (r *runner) start() *proc {
	exe, err := os.Executable()
	if err != nil {
		fatal(err.Error())
	}
	cmd := exec.Command(exe, "worker", r.prop, r.tier, strconv.FormatUint(r.seed, 10), strconv.Itoa(r.nsites))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal(err.Error())
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		fatal(err.Error())
	}
	p := &proc{cmd: cmd, in: in, enc: json.NewEncoder(in), lines: make(chan *answer, 16), stderr: &tailBuffer{}, last: -1}
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Stderr = p.stderr
	cmd.Stdout = p.stderr
	if err := cmd.Start(); err != nil {
		fatal(err.Error())
	}
	pw.Close()
	go func() {
		dec := json.NewDecoder(bufio.NewReaderSize(pr, 1<<16))
		for {
			a := &answer{}
			if err := dec.Decode(a); err != nil {
				close(p.lines)
				pr.Close()
				return
			}
			p.lines <- a
		}
	}()
	return p
}

var errCrash = fmt.Errorf("worker crashed")
var errWatchdog = fmt.Errorf("watchdog")

// do sends a job and waits for its answer.
func (p *proc) do(j job, watchdog time.Duration) (*answer, error) {
	if err := p.enc.Encode(j); err != nil {
		return nil, errCrash
	}
	timer := time.NewTimer(watchdog)
	defer timer.Stop()
	for {
		select {
		case a, ok := <-p.lines:
			if !ok {
				_ = p.cmd.Wait()
				return nil, errCrash
			}
			if a.Start {
				p.last = a.Index
				timer.Reset(watchdog)
				continue
			}
			return a, nil
		case <-timer.C:
			_ = p.cmd.Process.Kill()
			return nil, errWatchdog
		}
	}
}

func (p *proc) stop() {
	_ = p.in.Close()
	go func() {
		for range p.lines {
		}
	}()
	done := make(chan struct{})
	go func() { _ = p.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		_ = p.cmd.Process.Kill()
		<-done
	}
}

// fresh runs one tape (or run index, with a nil tape) in a new process.
func (r *runner) fresh(tape []uint32, index int, verbose bool) (*core.Result, error) {
	p := r.start()
	defer p.stop()
	j := job{Kind: "tape", Tape: tape, From: index, Verbose: verbose}
	if tape != nil && len(tape) == 0 {
		j.Tape = []uint32{0}
	}
	a, err := p.do(j, r.watchdog)
	if err == errCrash {
		return &core.Result{Class: fatalClass(p.stderr.String()), Msg: firstLines(p.stderr.String(), 12), Tape: tape}, nil
	}
	if err != nil {
		return nil, err
	}
	return a.Res, nil
}

var fatalRE = regexp.MustCompile(`(?m)^(fatal error: .*|runtime: .*exceeds.*|panic: .*)$`)

func fatalClass(stderr string) string {
	m := fatalRE.FindString(stderr)
	if m == "" {
		return "fatal: process died"
	}
	return "fatal: " + strings.TrimSpace(regexp.MustCompile(`\d+`).ReplaceAllString(m, "#"))
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type replayFile struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Seed     uint64   `json:"verif_seed"`
	Tier     string   `json:"tier"`
	RunIndex int      `json:"run_index"`
	From     int      `json:"runs_from"` // first run of the process, when the violation needs the previous ones
	Hash     string   `json:"trace_hash"`
	Original int      `json:"original_choices"`
	Tape     []uint32 `json:"choices"`
	Tries    int      `json:"minimisation_runs"`
	Trace    []string `json:"trace"`
}

type known struct{ prop, match, text string }

func loadKnown(path string) []known {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	re := regexp.MustCompile(`^known: property=(\S+) match="([^"]+)" (.*)$`)
	for _, l := range strings.Split(string(data), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, known{m[1], m[2], m[3]})
		}
	}
	return out
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	sitesFile := fs.String("sites", "", "")
	evidence := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	runsFlag := fs.Int("runs", 0, "override the number of runs")
	secs := fs.Int("secs", 0, "override the wall clock budget")
	nproc := fs.Int("procs", 0, "")
	first := fs.Bool("first", false, "stop at the first violation, without confirming or minimising it (for experiments)")
	dump := fs.String("dumpsites", "", "write how often each statement was reached to this file")
	_ = fs.Parse(args)
	w := core.Get(*prop)
	if w == nil {
		fatal("unknown property " + *prop)
	}
	start := time.Now()
	var sites []struct {
		F string `json:"f"`
		L int    `json:"l"`
		N string `json:"n"`
	}
	if *sitesFile != "" {
		data, err := os.ReadFile(*sitesFile)
		if err != nil {
			fatal(err.Error())
		}
		_ = json.Unmarshal(data, &sites)
	}
	r := &runner{prop: *prop, tier: *tier, seed: *seed, nsites: len(sites) + 1, chunk: w.Chunk, watchdog: 150 * time.Second}
	fmt.Printf("ggsim: property=%s tier=%s VERIF_SEED=%d\n", *prop, *tier, *seed)

	total := w.QuickRuns
	wall := 240 * time.Second
	if *tier == "thorough" {
		total = 1 << 40
		wall = time.Duration(w.ThoroughSec) * time.Second
	}
	if *runsFlag > 0 {
		total = *runsFlag
	}
	if *secs > 0 {
		wall = time.Duration(*secs) * time.Second
	}
	n := *nproc
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	deadline := start.Add(wall)

	var mu sync.Mutex
	next := 0
	stopped := false
	agg := &answer{Faults: map[string]int{}, Probes: map[string]int{}}
	distinct := map[uint64]struct{}{}
	allHash := map[int]uint64{} // sampled
	siteHits := make([]uint64, r.nsites)
	var best *failure
	harness, trouble := "", ""
	crashed := false
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := r.start()
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				if stopped || next >= total || time.Now().After(deadline) {
					mu.Unlock()
					break
				}
				from := next
				to := min(from+w.Chunk, total)
				next = to
				mu.Unlock()
				a, err := p.do(job{Kind: "chunk", From: from, To: to}, r.watchdog)
				mu.Lock()
				if err == errCrash {
					// the process died: find out whether the run does it on its own
					idx := p.last
					mu.Unlock()
					res, ferr := r.fresh(nil, idx, false)
					mu.Lock()
					stopped, crashed = true, true
					if ferr != nil || res.Class == "" {
						trouble = fmt.Sprintf("worker died during run %d, but the run alone doesn't: %s", idx, firstLines(p.stderr.String(), 30))
					} else if best == nil || idx < best.Index {
						best = &failure{Index: idx, Class: res.Class, Msg: res.Msg}
					}
					mu.Unlock()
					return
				}
				if err != nil {
					stopped = true
					trouble = fmt.Sprintf("watchdog: run %d didn't finish in %v", p.last, r.watchdog)
					mu.Unlock()
					return
				}
				agg.Runs += a.Runs
				agg.Steps += a.Steps
				agg.MaxSteps = max(agg.MaxSteps, a.MaxSteps)
				agg.Events += a.Events
				agg.Switches += a.Switches
				agg.SimSeconds += a.SimSeconds
				for k, v := range a.Faults {
					agg.Faults[k] += v
				}
				for k, v := range a.Probes {
					agg.Probes[k] += v
				}
				for _, h := range a.Hashes {
					distinct[h] = struct{}{}
				}
				for i, h := range a.All {
					if (from+i)%97 == 3 && len(allHash) < 400 {
						allHash[from+i] = h
					}
				}
				if a.Harness != "" {
					stopped = true
					harness = a.Harness
				}
				if a.Failure != nil {
					stopped = true
					if best == nil || a.Failure.Index < best.Index {
						best = a.Failure
					}
				}
				mu.Unlock()
			}
			a, err := p.do(job{Kind: "finish"}, r.watchdog)
			if err == nil {
				mu.Lock()
				for i, h := range a.Sites {
					if i < len(siteHits) {
						siteHits[i] += uint64(h)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	exploreWall := time.Since(start)
	if *dump != "" {
		data, _ := json.Marshal(siteHits)
		_ = os.WriteFile(*dump, data, 0o644)
	}

	if best == nil && harness != "" {
		fmt.Fprintln(os.Stderr, "ggsim: HARNESS ERROR:", harness)
		return 2
	}
	if best == nil && trouble != "" {
		fmt.Fprintln(os.Stderr, "ggsim: ERROR:", trouble)
		return 2
	}

	violations := 0
	code := 0
	if best != nil {
		fmt.Printf("ggsim: violation in run %d: %s: %s\n", best.Index, best.Class, best.Msg)
		if *first {
			return 1
		}
		rf, err := r.confirm(best, crashed)
		if err != nil {
			fmt.Fprintln(os.Stderr, "ggsim: ERROR:", err)
			return 2
		}
		dir := *replays
		if dir == "" {
			dir = "."
		}
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", *prop, *seed, best.Index))
		data, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, data, 0o644); err != nil {
			fatal(err.Error())
		}
		isKnown := false
		for _, k := range loadKnown(os.Getenv("GGSIM_KNOWN")) {
			if k.prop == *prop && k.match == rf.Class {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
				isKnown = true
			}
		}
		if !isKnown {
			violations, code = 1, 1
			fmt.Printf("ggsim: minimised from %d to %d choices in %d runs\n", rf.Original, len(rf.Tape), rf.Tries)
			for i, l := range rf.Trace {
				if i >= 60 {
					fmt.Println("  ...")
					break
				}
				fmt.Println("  " + l)
			}
			fmt.Printf("ggsim: %s: %s\n", rf.Class, rf.Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		}
	}

	// determinism: rerun a sample in fresh processes
	mismatches, checked := 0, 0
	if code == 0 {
		var idx []int
		for i := range allHash {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		if len(idx) > 48 {
			idx = idx[:48]
		}
		p := r.start()
		for k := len(idx) - 1; k >= 0; k-- {
			a, err := p.do(job{Kind: "tape", From: idx[k]}, r.watchdog)
			if err != nil || a.Res == nil {
				break
			}
			checked++
			if a.Res.Hash != allHash[idx[k]] {
				mismatches++
			}
		}
		p.stop()
		if mismatches > 0 {
			fmt.Fprintf(os.Stderr, "ggsim: warning: %d of %d reruns were not identical\n", mismatches, checked)
		}
	}

	// evidence
	var samples []any
	if code == 0 {
		p := r.start()
		for i := 0; i < 40 && len(samples) < 3; i++ {
			a, err := p.do(job{Kind: "tape", From: i, Verbose: true}, r.watchdog)
			if err != nil || a.Res == nil {
				break
			}
			if a.Res.Nontrivial {
				log := a.Res.Log
				if len(log) > 60 {
					log = append(log[:60:60], fmt.Sprintf("... (%d more events)", len(a.Res.Log)-60))
				}
				samples = append(samples, map[string]any{"run_index": i, "choices": len(a.Res.Tape), "trace_hash": fmt.Sprintf("%016x", a.Res.Hash), "trace": log})
			}
		}
		p.stop()
	} else {
		samples = append(samples, map[string]any{"violating_run": best.Index, "class": best.Class, "message": best.Msg})
	}
	fileHit, fileAll := map[string]int{}, map[string]int{}
	for i, s := range sites {
		if s.F == "" {
			continue
		}
		fileAll[s.F]++
		if siteHits[i] > 0 {
			fileHit[s.F]++
		}
	}
	cov := map[string]string{}
	for f, all := range fileAll {
		if fileHit[f] > 0 {
			cov[f] = fmt.Sprintf("%d/%d", fileHit[f], all)
		}
	}
	var zeroProbes []string
	for _, pr := range w.MustProbe {
		if agg.Probes[pr] == 0 {
			zeroProbes = append(zeroProbes, pr)
		}
	}
	var zeroFaults []string
	for _, f := range w.Faults {
		if agg.Faults[f] == 0 {
			zeroFaults = append(zeroFaults, f)
		}
	}
	if code == 0 && (len(zeroProbes) > 0 || len(zeroFaults) > 0) {
		fmt.Fprintln(os.Stderr, "ggsim: warning: never reached:", zeroProbes, "never injected:", zeroFaults)
	}
	hours := exploreWall.Hours()
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": int64(*seed), "level": "exploration",
		"wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": append([]string{}, w.Assumptions...),
		"coverage": map[string]any{
			"evaluations": agg.Runs, "distinct_nontrivial": len(distinct), "rule": w.Rule, "samples": samples,
			"distinct_measure":           "FNV-1a hash of the full event history of the run (operations, faults, results, task switches' effects)",
			"simulated_runs_per_hour":    int(float64(agg.Runs) / hours),
			"seeds_per_run":              1,
			"simulated_statements":       agg.Steps,
			"longest_run_statements":     agg.MaxSteps,
			"step_budget":                w.StepBudget,
			"history_events":             agg.Events,
			"task_switches":              agg.Switches,
			"simulated_time_s":           math.Round(agg.SimSeconds),
			"faults_injected":            agg.Faults,
			"fault_kinds_never_injected": append([]string{}, zeroFaults...),
			"probes":                     agg.Probes,
			"probes_never_reached":       append([]string{}, zeroProbes...),
			"statement_sites_reached":    cov,
			"determinism_reruns":         checked,
			"determinism_mismatches":     mismatches,
			"components_real":            w.Real,
			"components_simulated":       w.Stub,
			"worker_processes":           n,
		},
	}
	if *evidence != "" {
		data, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Dir(*evidence), 0o755)
		if err := os.WriteFile(*evidence, data, 0o644); err != nil {
			fatal(err.Error())
		}
	}
	fmt.Printf("ggsim: %s: %d runs (%d distinct non-trivial), %d statements, %d switches, faults %v, probes %v, %.1fs, exit %d\n",
		*prop, agg.Runs, len(distinct), agg.Steps, agg.Switches, agg.Faults, agg.Probes, time.Since(start).Seconds(), code)
	return code
}

// confirm reproduces a violation in a fresh process and minimises it.
func (r *runner) confirm(f *failure, crashed bool) (*replayFile, error) {
	rf := &replayFile{From: -1, Property: r.prop, Class: f.Class, Message: f.Msg, Seed: r.seed, Tier: r.tier, RunIndex: f.Index, Tape: f.Tape, Original: len(f.Tape)}
	if crashed && f.Tape == nil {
		// the process can't report its tape: replay by run index
		rf.Trace = []string{"(the process dies: the run is replayed from its seed)"}
		return rf, nil
	}
	res, err := r.fresh(f.Tape, 0, false)
	if err != nil {
		return nil, err
	}
	if res.Class != "" && res.Class != f.Class && res.Harness == "" {
		// the same run, seen as another violation in a fresh process
		f.Class, rf.Class = res.Class, res.Class
	}
	if res.Class != f.Class {
		// dependent on process state left by previous runs: replay those too
		from := f.Index - f.Index%r.chunk
		for try := 0; try < 3; try++ {
			p := r.start()
			a, err := p.do(job{Kind: "chunk", From: from, To: f.Index + 1}, r.watchdog)
			p.stop()
			if err == nil && a.Failure != nil {
				rf.From, rf.RunIndex, rf.Class, rf.Message = from, a.Failure.Index, a.Failure.Class, a.Failure.Msg
				rf.Hash = fmt.Sprintf("%016x", a.Failure.Hash)
				rf.Trace = []string{fmt.Sprintf("(needs process state left by previous runs: runs %d to %d are replayed in one process)", from, a.Failure.Index)}
				return rf, nil
			}
		}
		// nondeterminism that the system gets from outside of the seams
		for try := 0; try < 20; try++ {
			res, err := r.fresh(f.Tape, 0, true)
			if err == nil && res.Class != "" && res.Harness == "" {
				rf.Class, rf.Message, rf.Trace, rf.Hash = res.Class, res.Msg, res.Log, fmt.Sprintf("%016x", res.Hash)
				rf.Trace = append(rf.Trace, fmt.Sprintf("(not reproduced by every execution of the same schedule, but by attempt %d: the code got nondeterminism from outside of the simulator's seams)", try+2))
				return rf, nil
			}
		}
		return nil, fmt.Errorf("run %d reported %q, but a fresh process says %q (%s)", f.Index, f.Class, res.Class, res.Harness)
	}
	p := r.start()
	a, err := p.do(job{Kind: "minimize", Tape: f.Tape, Class: f.Class, Millis: 30000}, 100*time.Second)
	p.stop()
	if err == nil && a.Res != nil {
		final, err := r.fresh(a.Res.Tape, 0, true)
		if err == nil && final.Class == f.Class {
			rf.Tape, rf.Tries, rf.Message, rf.Trace = a.Res.Tape, a.Tries, final.Msg, final.Log
			rf.Hash = fmt.Sprintf("%016x", final.Hash)
			return rf, nil
		}
	}
	final, err := r.fresh(f.Tape, 0, true)
	if err != nil {
		return nil, err
	}
	rf.Trace, rf.Hash, rf.Message = final.Log, fmt.Sprintf("%016x", final.Hash), final.Msg
	return rf, nil
}

func replay(args []string) int {
	data, err := os.ReadFile(args[0])
	if err != nil {
		fatal(err.Error())
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		fatal(err.Error())
	}
	r := &runner{prop: rf.Property, tier: rf.Tier, seed: rf.Seed, nsites: 100000, watchdog: 150 * time.Second}
	if rf.From >= 0 {
		p := r.start()
		defer p.stop()
		a, err := p.do(job{Kind: "chunk", From: rf.From, To: rf.RunIndex + 1}, r.watchdog)
		if err != nil {
			fatal(err.Error())
		}
		if a.Failure == nil {
			fmt.Println("replay: no violation")
			return 0
		}
		fmt.Printf("run %d: %s: %s\n", a.Failure.Index, a.Failure.Class, a.Failure.Msg)
		fmt.Printf("replay: identical=%v\n", rf.Hash == fmt.Sprintf("%016x", a.Failure.Hash))
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
		return 1
	}
	res, err := r.fresh(rf.Tape, rf.RunIndex, true)
	if err != nil {
		fatal(err.Error())
	}
	for _, l := range res.Log {
		fmt.Println("  " + l)
	}
	if res.Harness != "" {
		fatal(res.Harness)
	}
	if res.Class == "" {
		fmt.Println("replay: no violation")
		return 0
	}
	fmt.Printf("%s: %s\n", res.Class, res.Msg)
	same := res.Class == rf.Class && (rf.Hash == "" || rf.Hash == fmt.Sprintf("%016x", res.Hash))
	fmt.Printf("replay: identical=%v\n", same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	return 1
}
