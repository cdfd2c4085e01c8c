package main

import (
	"bufio"
	"encoding/json"
	"os"
	"runtime/debug"
	"strconv"
	"syscall"
	"time"

	"verif.local/sim/core"
	"verif.local/sim/seam"
)

// Jobs travel as JSON lines on stdin; results on file descriptor 3.
type job struct {
	Kind     string   `json:"kind"` // chunk, tape, minimize, finish
	From, To int      `json:",omitempty"`
	Tape     []uint32 `json:",omitempty"`
	Verbose  bool     `json:",omitempty"`
	Class    string   `json:",omitempty"`
	Millis   int      `json:",omitempty"`
}

type failure struct {
	Index int
	Class string
	Msg   string
	Tape  []uint32
	Hash  uint64
}

type answer struct {
	Start      bool `json:",omitempty"` // progress note: run Index is starting
	Index      int  `json:",omitempty"`
	Runs       int
	Steps      uint64
	MaxSteps   uint64
	Events     int
	Switches   int
	SimSeconds float64
	Hashes     []uint64 `json:",omitempty"` // of non-trivial runs
	All        []uint64 `json:",omitempty"` // of all runs
	Faults     map[string]int
	Probes     map[string]int
	Failure    *failure     `json:",omitempty"`
	Harness    string       `json:",omitempty"`
	Res        *core.Result `json:",omitempty"`
	Tries      int          `json:",omitempty"`
	Sites      []uint32     `json:",omitempty"`
}

type workerState struct {
	w    *core.World
	tier string
	seed uint64
}

func newWorkerState(prop, tier string, seed uint64, sites int) *workerState {
	w := core.Get(prop)
	if w == nil {
		fatal("unknown property " + prop)
	}
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(3 << 30)
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	seam.SetSites(sites)
	seam.Snapshot()
	return &workerState{w, tier, seed}
}

func (s *workerState) runIndex(i int, verbose bool) core.Result {
	seed := core.Hash(s.seed, core.HashStr(s.w.ID), uint64(i))
	return core.Execute(s.w.ID, s.tier, core.NewSeedTape(seed), verbose, s.w.StepBudget, s.w.Run)
}

func (s *workerState) runTape(tape []uint32, verbose bool) core.Result {
	return core.Execute(s.w.ID, s.tier, core.NewReplayTape(tape), verbose, s.w.StepBudget, s.w.Run)
}

func worker(args []string) {
	prop, tier := args[0], args[1]
	seed, _ := strconv.ParseUint(args[2], 10, 64)
	sites, _ := strconv.Atoi(args[3])
	s := newWorkerState(prop, tier, seed, sites)
	out := os.NewFile(3, "results")
	bw := bufio.NewWriter(out)
	enc := json.NewEncoder(bw)
	send := func(a *answer) { _ = enc.Encode(a); _ = bw.Flush() }
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	for {
		var j job
		if err := in.Decode(&j); err != nil {
			return
		}
		a := &answer{Faults: map[string]int{}, Probes: map[string]int{}}
		switch j.Kind {
		case "chunk":
			for i := j.From; i < j.To; i++ {
				_, _ = bw.WriteString("{\"Start\":true,\"Index\":" + strconv.Itoa(i) + "}\n")
				_ = bw.Flush()
				res := s.runIndex(i, false)
				a.Runs++
				a.Steps += res.Steps
				a.MaxSteps = max(a.MaxSteps, res.Steps)
				a.Events += res.Events
				a.Switches += res.Switches
				a.SimSeconds += res.SimTime.Seconds()
				for k, v := range res.Faults {
					a.Faults[k] += v
				}
				for k, v := range res.Probes {
					a.Probes[k] += v
				}
				a.All = append(a.All, res.Hash)
				if res.Nontrivial {
					a.Hashes = append(a.Hashes, res.Hash)
				}
				if res.Harness != "" {
					a.Harness = "run " + strconv.Itoa(i) + ": " + res.Harness
					break
				}
				if res.Class != "" {
					a.Failure = &failure{i, res.Class, res.Msg, res.Tape, res.Hash}
					break
				}
			}
		case "tape":
			var res core.Result
			if j.Tape == nil {
				res = s.runIndex(j.From, j.Verbose)
			} else {
				res = s.runTape(j.Tape, j.Verbose)
			}
			a.Res = &res
		case "minimize":
			deadline := time.Now().Add(time.Duration(j.Millis) * time.Millisecond)
			first := s.runTape(j.Tape, false)
			best, tries := core.Minimize(j.Tape, first.Spans, deadline, func(t []uint32) core.Result { return s.runTape(t, false) }, j.Class)
			a.Res = &core.Result{Tape: best}
			a.Tries = tries
		case "finish":
			a.Sites = seam.Sites()
		}
		send(a)
	}
}

// hashes prints the trace hash of a range of runs (determinism experiments).
func hashes(args []string) {
	prop, tier := args[0], args[1]
	seed, _ := strconv.ParseUint(args[2], 10, 64)
	from, _ := strconv.Atoi(args[3])
	to, _ := strconv.Atoi(args[4])
	s := newWorkerState(prop, tier, seed, 100000)
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for i := from; i < to; i++ {
		res := s.runIndex(i, len(args) > 5)
		_, _ = w.WriteString(prop + " " + strconv.Itoa(i) + " " + strconv.FormatUint(res.Hash, 16) + " " + strconv.FormatUint(res.Steps, 10) + " " + res.Class + " " + res.Harness + "\n")
		if len(args) > 5 {
			for _, l := range res.Log {
				_, _ = w.WriteString("    " + l + "\n")
			}
			_, _ = w.WriteString("    => " + res.Class + ": " + res.Msg + "\n")
		}
	}
}
