// Package core is the simulator: decision tape, scheduler, clock, run context.
package core

// Tape is the single source of every choice made during a simulated run. While
// exploring, values come from a seeded generator and are recorded. A recorded
// tape replays the run exactly; past its end every choice is 0, which is by
// convention the simplest one (no fault, no preemption, smallest size).
type Tape struct {
	replay []uint32
	gen    bool
	state  uint64
	Rec    []uint32
	Spans  []Span
	open   []int
}

// Span marks the draws belonging to one logical operation (for minimisation).
type Span struct{ From, To int }

func NewSeedTape(seed uint64) *Tape     { return &Tape{gen: true, state: seed} }
func NewReplayTape(vals []uint32) *Tape { return &Tape{replay: vals} }

func SplitMix(state *uint64) uint64 {
	*state += 0x9E3779B97F4A7C15
	z := *state
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Hash mixes several values into a seed.
func Hash(vals ...uint64) uint64 {
	h := uint64(0x51ED270B9F652295)
	for _, v := range vals {
		h ^= v
		SplitMix(&h)
		h = h*0xD6E8FEB86659FD93 + 0x2545F4914F6CDD1D
		h ^= h >> 32
	}
	return SplitMix(&h)
}

func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// N draws a value in [0, n).
func (t *Tape) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if t.gen {
		v = uint32((SplitMix(&t.state) >> 32) % uint64(n))
	} else if p := len(t.Rec); p < len(t.replay) {
		v = t.replay[p]
		if uint64(v) >= uint64(n) {
			v %= uint32(n)
		}
	}
	t.Rec = append(t.Rec, v)
	return int(v)
}

func (t *Tape) begin() int {
	t.Spans = append(t.Spans, Span{len(t.Rec), -1})
	return len(t.Spans) - 1
}
func (t *Tape) end(i int) { t.Spans[i].To = len(t.Rec) }
