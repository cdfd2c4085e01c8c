package core

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verif.local/sim/seam"
)

// Violation is an oracle failure found by a run.
type Violation struct {
	Class string
	Msg   string
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

// HarnessError is trouble of the harness itself (never reported as violation).
type HarnessError struct{ Msg string }

// R is the context of one simulated run.
type R struct {
	T       *Tape
	Prop    string
	Tier    string
	Verbose bool
	Log     []string
	Faults  map[string]int
	Probes  map[string]int

	hash       uint64
	events     int
	nontrivial bool
	start      time.Time
	clock      time.Time
	sched      *sched
	rerolls    func([]byte) (int, error)
	reads      uint64 // entropy reads so far
	permMode   int
	tick       time.Duration
}

// Result of a run.
type Result struct {
	Class, Msg string // violation ("" if none)
	Harness    string // harness trouble
	Hash       uint64
	Steps      uint64
	Events     int
	SimTime    time.Duration
	Nontrivial bool
	Switches   int
	Faults     map[string]int
	Probes     map[string]int
	Tape       []uint32
	Spans      []Span
	Log        []string
}

func (r *R) mix(s string) {
	h := r.hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	r.hash = (h ^ 0xff) * 1099511628211
	r.events++
}

// Logf records an event of the run's history.
func (r *R) Logf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	r.mix(s)
	if r.Verbose && len(r.Log) < 4000 {
		if t := r.Task(); t != 0 {
			s = fmt.Sprintf("[t%d] %s", t, s)
		}
		r.Log = append(r.Log, s)
	}
}

// Mix folds data into the trace hash without logging it.
func (r *R) Mix(data []byte) {
	h := r.hash
	for _, b := range data {
		h = (h ^ uint64(b)) * 1099511628211
	}
	r.hash = h
}

// Failf reports a violation and ends the run.
func (r *R) Failf(class, format string, args ...any) {
	panic(&Violation{class, fmt.Sprintf(format, args...)})
}

// Harnessf reports trouble of the harness itself.
func (r *R) Harnessf(format string, args ...any) {
	panic(&HarnessError{fmt.Sprintf(format, args...)})
}

func (r *R) Fault(kind string) { r.Faults[kind]++; r.Logf("fault: %s", kind) }
func (r *R) Probe(name string) { r.Probes[name]++ }

// Nontrivial marks the run as having exercised what its property is about.
func (r *R) Nontrivial() { r.nontrivial = true }

// --- choices ---

func (r *R) N(n int) int            { return r.T.N(n) }
func (r *R) Range(lo, hi int) int   { return lo + r.T.N(hi-lo+1) }
func (r *R) Bool(num, den int) bool { return r.T.N(den) >= den-num }
func (r *R) U64() uint64 {
	return uint64(r.T.N(1<<31))<<33 ^ uint64(r.T.N(1<<31))<<16 ^ uint64(r.T.N(1<<16))
}

// Pick chooses an index with the given weights.
func (r *R) Pick(weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	v := r.T.N(total)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Log-uniform size in [0, max].
func (r *R) Small(max int) int {
	if max <= 0 {
		return 0
	}
	bits := 0
	for 1<<bits <= max {
		bits++
	}
	b := r.T.N(bits + 1)
	if b == 0 {
		return 0
	}
	lo := 1 << (b - 1)
	hi := 1<<b - 1
	if hi > max {
		hi = max
	}
	return lo + r.T.N(hi-lo+1)
}

// Op groups the draws made by f as one logical operation.
func (r *R) Op(f func()) {
	i := r.T.begin()
	defer r.T.end(i)
	f()
}

// Sub returns a generator seeded by a single draw, for bulk data.
func (r *R) Sub() *Sub {
	s := uint64(r.T.N(1 << 30))
	return &Sub{state: s * 0x9E3779B97F4A7C15, Zero: s == 0}
}

type Sub struct {
	state uint64
	Zero  bool
}

func NewSub(seed uint64) *Sub { return &Sub{state: seed} }

func (s *Sub) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int((SplitMix(&s.state) >> 33) % uint64(n))
}
func (s *Sub) U64() uint64 { return SplitMix(&s.state) }

// --- clock ---

func (r *R) Now() time.Time          { return r.clock }
func (r *R) Advance(d time.Duration) { r.clock = r.clock.Add(d) }

// SetTick makes time pass with each reading of the clock.
func (r *R) SetTick(d time.Duration)                { r.tick = d }
func (r *R) SetClock(t time.Time)                   { r.clock = t; r.start = t }
func (r *R) SetEntropy(f func([]byte) (int, error)) { r.rerolls = f }

// --- panics ---

type killed struct{}

// Classify turns a recovered panic into a violation or harness trouble. Must
// be called from the deferred function.
func Classify(p any) (class, msg, harness string) {
	switch p := p.(type) {
	case *Violation:
		return p.Class, p.Msg, ""
	case *HarnessError:
		return "", "", p.Msg
	case seam.HangError:
		return "hang", p.Error() + where(), ""
	}
	var pcs [128]uintptr
	n := runtime.Callers(2, pcs[:])
	frames := runtime.CallersFrames(pcs[:n])
	seen, fn, origin := false, "", ""
	var stack []string
	for {
		fr, more := frames.Next()
		name := fr.Function
		if name == "runtime.gopanic" || name == "runtime.sigpanic" {
			seen = true
			stack = stack[:0]
			origin = ""
		}
		if seen {
			stack = append(stack, name)
			if origin == "" && !strings.HasPrefix(name, "runtime.") {
				origin = name
			}
			if fn == "" && strings.HasPrefix(name, "github.com/tinne26/ggfnt") {
				fn = name
			}
		}
		if !more {
			break
		}
	}
	text := fmt.Sprint(p)
	if e, ok := p.(error); ok {
		text = e.Error()
	}
	if os.Getenv("GGSIM_STACK") != "" { // for debugging only
		text += "\n" + string(debug.Stack())
	}
	if fn == "" || strings.HasPrefix(origin, "verif.local/sim/world") || strings.HasPrefix(origin, "verif.local/sim/core") {
		return "", "", "panic in harness: " + text + "\n" + strings.Join(stack, "\n")
	}
	return "panic in " + strings.TrimPrefix(fn, "github.com/tinne26/"), text, ""
}

func where() string {
	var pcs [64]uintptr
	n := runtime.Callers(3, pcs[:])
	frames := runtime.CallersFrames(pcs[:n])
	for {
		fr, more := frames.Next()
		if strings.HasPrefix(fr.Function, "github.com/tinne26/ggfnt") {
			return " (in " + strings.TrimPrefix(fr.Function, "github.com/tinne26/") + ")"
		}
		if !more {
			return ""
		}
	}
}

// Try runs f, returning a description of its panic, if any. Violations, harness
// trouble, hangs and scheduler kills pass through.
func Try(f func()) (panicked string) {
	defer func() {
		if p := recover(); p != nil {
			switch p.(type) {
			case *Violation, *HarnessError, killed, seam.HangError:
				panic(p)
			}
			class, msg, harness := Classify(p)
			if harness != "" {
				panicked = "panic: " + fmt.Sprint(p)
			} else {
				panicked = class + ": " + msg
			}
		}
	}()
	f()
	return ""
}

// Execute performs one run.
func Execute(prop, tier string, tape *Tape, verbose bool, stepBudget uint64, body func(*R)) (res Result) {
	r := &R{T: tape, Prop: prop, Tier: tier, Verbose: verbose, hash: 14695981039346656037,
		Faults: map[string]int{}, Probes: map[string]int{}}
	r.clock = time.Date(2024, 3, 5, 10, 20, 30, 0, time.UTC)
	r.start = r.clock
	seam.ResetGlobals()
	s := newSched(r)
	r.sched = s
	seam.Install(seam.Hooks{
		Switch: s.preempt,
		Hot:    s.shared,
		Now: func() time.Time {
			now := r.clock
			r.clock = r.clock.Add(r.tick)
			return now
		},
		RandRead: r.randRead,
		Go:       func(f func()) { s.spawn(f) },
		Block:    s.block,
		Perm:     r.perm,
	}, stepBudget)
	s.run(func() { body(r) })
	res.Steps = seam.Steps()
	seam.Uninstall()
	res.Class, res.Msg, res.Harness = s.class, s.msg, s.harness
	res.Hash, res.Events, res.Nontrivial = r.hash, r.events, r.nontrivial
	if res.Class != "" {
		res.Hash = Hash(res.Hash, HashStr(res.Class))
	}
	res.SimTime = r.clock.Sub(r.start)
	if res.SimTime < 0 {
		res.SimTime = -res.SimTime
	}
	res.Faults, res.Probes, res.Tape, res.Spans, res.Log = r.Faults, r.Probes, tape.Rec, tape.Spans, r.Log
	res.Switches = s.switches
	return res
}

func (r *R) randRead(p []byte) (int, error) {
	if r.rerolls != nil {
		return r.rerolls(p)
	}
	return r.GoodEntropy(p)
}

// GoodEntropy fills p with simulated high quality entropy.
func (r *R) GoodEntropy(p []byte) (int, error) {
	r.reads++ // (never repeats, even when all choices are zero)
	s := (uint64(r.T.N(1<<31)) + 1 + r.reads<<32) * 0x9E3779B97F4A7C15
	for i := range p {
		p[i] = byte(SplitMix(&s) >> 24)
	}
	return len(p), nil
}

// perm decides map iteration orders.
func (r *R) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	v := r.T.N(1 << 16)
	switch {
	case v == 0:
	case v&7 == 1:
		for i := range p {
			p[i] = n - 1 - i
		}
	case v&7 == 2: // rotation
		k := v >> 3 % n
		for i := range p {
			p[i] = (i + k) % n
		}
	default:
		s := &Sub{state: uint64(v)}
		for i := n - 1; i > 0; i-- {
			j := s.N(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

// ZeroR is a context whose choices are all zero, for fixed data.
func ZeroR() *R { return &R{T: NewReplayTape(nil), Faults: map[string]int{}, Probes: map[string]int{}} }
