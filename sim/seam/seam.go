// Package seam is the only place where simulated executions meet
// nondeterminism. The instrumented sources of the system under test call into
// it at every statement (Yield), for the clock (Now), for entropy (RandRead),
// for map iteration order (MapKeys) and for goroutines (Go). Outside of a
// simulated run every function behaves like the real thing it replaces.
package seam

import (
	crand "crypto/rand"
	"fmt"
	"io"
	"iter"
	"math/big"
	"os"
	"reflect"
	"sort"
	"time"
)

// Budget exhaustion: reported as a hang of the simulated execution.
type HangError struct{ Steps uint64 }

func (h HangError) Error() string { return fmt.Sprintf("hang: no completion within %d steps", h.Steps) }

// Hooks is what the simulator core installs for the duration of a run.
type Hooks struct {
	// Called when the countdown to the next scheduling decision hits zero.
	Switch func(site uint32)
	// Called before statements that refer to package variables, if asked for.
	Hot func()
	// Simulated clock and entropy.
	Now      func() time.Time
	RandRead func([]byte) (int, error)
	// Spawns a simulated task.
	Go func(func())
	// Blocks the current task until the predicate holds (used by sync seams).
	Block func(ready func() bool)
	// Order in which n map keys are visited.
	Perm func(n int) []int
}

var (
	active    bool
	hooks     Hooks
	steps     uint64
	budget    uint64
	countdown uint64
	hot       bool
	sitesHit  []uint32
)

// Install starts a simulated run.
func Install(h Hooks, stepBudget uint64) {
	hooks, active, steps, budget, countdown, hot = h, true, 0, stepBudget, ^uint64(0), false
}

// Uninstall ends it.
func Uninstall() { active = false; hot = false; hooks = Hooks{}; FileFaults = nil }

func Active() bool          { return active }
func Steps() uint64         { return steps }
func SetCountdown(n uint64) { countdown = n }
func SetHot(on bool)        { hot = on }
func SetBudget(b uint64)    { budget = b }
func AddSteps(n uint64)     { steps += n; checkBudget() }
func checkBudget() {
	if steps > budget {
		b := budget
		budget = ^uint64(0) // let deferred code run
		panic(HangError{b})
	}
}

// Yield is inserted before every statement of the system under test.
func Yield(site uint32) {
	if !active {
		return
	}
	steps++
	if steps > budget {
		checkBudget()
	}
	if int(site) < len(sitesHit) {
		sitesHit[site]++
	}
	if countdown--; countdown == 0 {
		hooks.Switch(site)
	}
}

// YieldHot is inserted before statements that refer to package variables.
func YieldHot(site uint32) {
	Yield(site)
	if hot {
		hooks.Hot()
	}
}

// SetSites sizes the site coverage table; Sites returns it.
func SetSites(n int)  { sitesHit = make([]uint32, n) }
func Sites() []uint32 { return sitesHit }

// Now replaces time.Now.
func Now() time.Time {
	if active && hooks.Now != nil {
		return hooks.Now()
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// RandRead replaces crypto/rand.Read.
func RandRead(p []byte) (int, error) {
	if active && hooks.RandRead != nil {
		return hooks.RandRead(p)
	}
	return crand.Read(p)
}

type randReader struct{}

func (randReader) Read(p []byte) (int, error) { return RandRead(p) }

// RandReader replaces crypto/rand.Reader.
var RandReader io.Reader = randReader{}

// RandInt replaces crypto/rand.Int.
func RandInt(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }

// Go replaces the go statement.
func Go(f func()) {
	if active && hooks.Go != nil {
		hooks.Go(f)
		return
	}
	go f()
}

// Blocks the current simulated task until ready() holds.
func block(ready func() bool) bool {
	if active && hooks.Block != nil {
		hooks.Block(ready)
		return true
	}
	return false
}

// MapKeys returns the keys of m in the order the simulator decides. The
// decision is a permutation of a canonical (sorted) order, so it doesn't
// depend on Go's randomized map iteration.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if !active || hooks.Perm == nil || len(keys) < 2 {
		return keys
	}
	less := func(a, b K) bool { return lessAny(a, b) }
	sort.Slice(keys, func(i, j int) bool { return less(keys[i], keys[j]) })
	perm := hooks.Perm(len(keys))
	out := make([]K, len(keys))
	for i, p := range perm {
		out[i] = keys[p]
	}
	return out
}

// MapItem is an entry of a map being iterated.
type MapItem[M ~map[K]V, K comparable, V any] struct {
	M M
	K K
}

// MapItems gives the entries of m in the order the simulator decides.
func MapItems[M ~map[K]V, K comparable, V any](m M) []MapItem[M, K, V] {
	keys := MapKeys(m)
	items := make([]MapItem[M, K, V], len(keys))
	for i, k := range keys {
		items[i] = MapItem[M, K, V]{m, k}
	}
	return items
}

// MapsKeys, MapsValues and MapsAll replace the functions of package maps.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range MapKeys(m) {
			if _, ok := m[k]; ok && !yield(k) {
				return
			}
		}
	}
}

func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range MapKeys(m) {
			if v, ok := m[k]; ok && !yield(v) {
				return
			}
		}
	}
}

func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range MapKeys(m) {
			if v, ok := m[k]; ok && !yield(k, v) {
				return
			}
		}
	}
}

func lessAny(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	case int32:
		return x < b.(int32)
	case int64:
		return x < b.(int64)
	case uint8:
		return x < b.(uint8)
	case uint16:
		return x < b.(uint16)
	case uint32:
		return x < b.(uint32)
	case uint64:
		return x < b.(uint64)
	}
	return fmt.Sprintf("%v", a) < fmt.Sprintf("%v", b)
}

// Global state resets (process restart semantics).
var resets []func()

func RegisterReset(f func()) { resets = append(resets, f) }

// ResetGlobals gives every resettable package-level variable of the system
// under test its initial value again, as a process restart would.
func ResetGlobals() {
	for _, f := range resets {
		f()
	}
}

// WaitUntil blocks the current simulated task until ready() holds.
func WaitUntil(ready func() bool) {
	if ready() {
		return
	}
	if !block(ready) {
		panic("seam: WaitUntil outside of a simulated run")
	}
}

// --- package-level state ---

// RegisterVar registers a package-level variable of the system under test.
func RegisterVar(p any) { vars = append(vars, p) }

var vars []any
var snaps []func()

// Snapshot must be called once all package initialization is done.
func Snapshot() {
	for _, p := range vars {
		v := reflect.ValueOf(p).Elem()
		if v.Kind() == reflect.Pointer && !v.IsNil() && v.Elem().Kind() == reflect.Struct {
			orig := reflect.New(v.Type()).Elem()
			orig.Set(v)
			pointee := reflect.New(v.Type().Elem()).Elem()
			pointee.Set(v.Elem())
			snaps = append(snaps, func() { v.Set(orig); v.Elem().Set(pointee) })
			continue
		}
		saved := reflect.New(v.Type()).Elem()
		saved.Set(cloneTop(v))
		snaps = append(snaps, func() { v.Set(cloneTop(saved)) })
	}
	RegisterReset(func() {
		for _, f := range snaps {
			f()
		}
	})
}

func cloneTop(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() || v.Len() > 1024 {
			return v
		}
		m := reflect.MakeMapWithSize(v.Type(), v.Len())
		it := v.MapRange()
		for it.Next() {
			m.SetMapIndex(it.Key(), it.Value())
		}
		return m
	case reflect.Slice:
		if v.IsNil() || v.Cap() > 1<<16 {
			return v
		}
		// the spare capacity matters too: it is what makes a shared buffer
		s := reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
		reflect.Copy(s, v.Slice(0, v.Cap()))
		return s.Slice(0, v.Len())
	}
	return v
}

// FilePlan is what a simulated run decides about one opened file.
type FilePlan struct {
	OpenErr, StatErr, ReadErr, CloseErr error
	ReadErrAt                           int64 // offset of the read error
	ReadErrData                         bool  // the error comes with the data before it
	Chunk                               int   // biggest read (0: no limit)

	Reads, Closes, UseAfterClose int
	Opened, Failed, StatFailed   bool // Failed: the read error was delivered
	pos                          int64
}

// FileFaults decides the faults of files opened by name during a run.
var FileFaults func(name string) *FilePlan

// File is a file with injected faults.
type File struct {
	*os.File
	plan *FilePlan
}

// OpenFile replaces os.Open.
func OpenFile(name string) (*File, error) { return OpenFileFlag(name, os.O_RDONLY, 0) }

// ReadFile replaces os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := OpenFile(name)
	if err != nil {
		return nil, err
	}
	if f.plan != nil {
		f.plan.CloseErr = nil // (like the original, which doesn't look at it)
	}
	data, err := io.ReadAll(f)
	_ = f.Close()
	return data, err
}

// OpenFileFlag replaces os.OpenFile.
func OpenFileFlag(name string, flag int, perm os.FileMode) (*File, error) {
	var plan *FilePlan
	if active && FileFaults != nil {
		plan = FileFaults(name)
	}
	if plan != nil && plan.OpenErr != nil {
		return nil, plan.OpenErr
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	if plan != nil {
		plan.Opened = true
	}
	return &File{f, plan}, nil
}

func (f *File) Stat() (os.FileInfo, error) {
	if f.plan != nil && f.plan.StatErr != nil {
		f.plan.StatFailed = true
		return nil, f.plan.StatErr
	}
	return f.File.Stat()
}

func (f *File) Read(p []byte) (int, error) {
	if f.plan == nil {
		return f.File.Read(p)
	}
	f.plan.Reads++
	if f.plan.Closes > 0 {
		f.plan.UseAfterClose++
	}
	AddSteps(20)
	if f.plan.Chunk > 0 && len(p) > f.plan.Chunk {
		p = p[:f.plan.Chunk]
	}
	if f.plan.ReadErr != nil {
		left := f.plan.ReadErrAt - f.plan.pos
		if left <= 0 {
			f.plan.Failed = true
			return 0, f.plan.ReadErr
		}
		if int64(len(p)) > left {
			p = p[:left]
		}
	}
	n, err := f.File.Read(p)
	f.plan.pos += int64(n)
	if err == nil && f.plan.ReadErr != nil && f.plan.ReadErrData && f.plan.pos == f.plan.ReadErrAt {
		f.plan.Failed = true
		err = f.plan.ReadErr
	}
	return n, err
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Close() error {
	err := f.File.Close()
	if f.plan != nil {
		f.plan.Closes++
		if f.plan.CloseErr != nil {
			return f.plan.CloseErr
		}
	}
	return err
}
