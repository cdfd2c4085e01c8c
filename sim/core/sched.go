package core

import (
	"runtime"

	"verif.local/sim/seam"
)

// Cooperative scheduler: every task is a goroutine, but only the one released
// by the scheduler runs. Who runs and for how many statements comes from the
// tape.
type task struct {
	id     int
	resume chan struct{}
	ready  func() bool
	done   bool
	prio   int
}

type sched struct {
	r        *R
	tasks    []*task
	cur      *task
	back     chan struct{}
	kill     bool
	class    string
	msg      string
	harness  string
	failed   bool
	strategy strategy
	switches int
}

type strategy struct {
	kind   int // 0 none, 1 random slices, 2 priorities with change points, 3 focused sites, 4 after uses of package variables
	mean   int
	points []uint64
	salt   uint32
	step   uint64
}

const noSwitch = ^uint64(0)

func newSched(r *R) *sched { return &sched{r: r, back: make(chan struct{})} }

func (s *sched) spawn(f func()) *task {
	t := &task{id: len(s.tasks), resume: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	if s.strategy.kind == 2 {
		t.prio = 1 + s.r.T.N(1000)
	}
	go func() {
		<-t.resume
		defer func() {
			if p := recover(); p != nil {
				if _, isKill := p.(killed); !isKill && !s.failed {
					s.failed = true
					s.class, s.msg, s.harness = Classify(p)
				}
			} else if !t.done && !s.failed {
				s.failed = true
				s.harness = "task ended through runtime.Goexit"
			}
			t.done = true
			s.back <- struct{}{}
		}()
		if s.kill {
			panic(killed{})
		}
		f()
		t.done = true
	}()
	return t
}

// run drives the main task and every task spawned by it.
func (s *sched) run(body func()) {
	s.spawn(body)
	for !s.failed {
		t := s.next()
		if t == nil {
			break
		}
		s.release(t)
	}
	s.kill = true
	seam.Uninstall()
	for _, t := range s.tasks {
		for !t.done {
			s.cur = t
			t.resume <- struct{}{}
			<-s.back
		}
	}
}

func (s *sched) release(t *task) {
	if s.cur != t {
		s.switches++
	}
	s.cur = t
	s.arm()
	t.resume <- struct{}{}
	<-s.back
}

// arm decides when the next scheduling decision takes place.
func (s *sched) arm() {
	st := &s.strategy
	n := noSwitch
	switch st.kind {
	case 1:
		if v := s.r.T.N(32 * st.mean); v != 0 {
			n = 1 + uint64(v-1)%uint64(2*st.mean)
		}
	case 2:
		now := seam.Steps()
		for len(st.points) > 0 && st.points[0] <= now {
			st.points = st.points[1:]
		}
		if len(st.points) > 0 {
			n = st.points[0] - now
		}
	case 3:
		n = 1
	}
	seam.SetCountdown(n)
}

// next picks the task that runs.
func (s *sched) next() *task {
	var ready []*task
	live := 0
	for _, t := range s.tasks {
		if t.done {
			continue
		}
		live++
		if t.ready == nil || t.ready() {
			ready = append(ready, t)
		}
	}
	if live == 0 || (len(s.tasks) > 0 && s.tasks[0].done) {
		return nil
	}
	if len(ready) == 0 {
		s.failed = true
		s.class, s.msg = "deadlock", "no simulated task can make progress"
		return nil
	}
	if len(ready) == 1 {
		return ready[0]
	}
	if s.strategy.kind == 2 {
		best := ready[0]
		for _, t := range ready[1:] {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	}
	// 0 means: keep running the current one, if possible
	i := s.r.T.N(len(ready))
	base := 0
	for j, t := range ready {
		if t == s.cur {
			base = j
		}
	}
	return ready[(base+i)%len(ready)]
}

// preempt is called from the running task when its slice is over.
func (s *sched) preempt(site uint32) {
	if s.kill {
		return
	}
	st := &s.strategy
	switch st.kind {
	case 2:
		// change point: lowest priority for the current task
		min := 0
		for _, t := range s.tasks {
			if t.prio < min {
				min = t.prio
			}
		}
		s.cur.prio = min - 1
	case 3:
		if (site*2654435761+st.salt)>>27 != 0 || !s.r.Bool(1, 2) {
			seam.SetCountdown(1)
			return
		}
	}
	s.handoff()
}

// shared is called from the running task before it uses a package variable.
func (s *sched) shared() {
	if !s.kill && s.strategy.kind == 4 && s.r.Bool(1, 2) {
		seam.SetCountdown(1 + uint64(s.r.T.N(s.strategy.mean)))
	}
}

func (s *sched) handoff() {
	t := s.cur
	s.back <- struct{}{}
	<-t.resume
	if s.kill {
		panic(killed{})
	}
}

func (s *sched) block(ready func() bool) {
	t := s.cur
	for !ready() {
		t.ready = ready
		s.handoff()
	}
	t.ready = nil
}

// Task returns the index of the running task (0 is the main one).
func (r *R) Task() int {
	if r.sched == nil || r.sched.cur == nil {
		return 0
	}
	return r.sched.cur.id
}

// Yield is an explicit scheduling point for harness code.
func (r *R) Yield() { seam.Yield(0) }

// Parallel runs the given functions as concurrent simulated tasks, until all
// of them are done.
func (r *R) Parallel(fs ...func()) {
	s := r.sched
	prev := s.strategy
	s.strategy = r.drawStrategy()
	var ts []*task
	for _, f := range fs {
		ts = append(ts, s.spawn(f))
	}
	seam.SetCountdown(noSwitch)
	seam.SetHot(s.strategy.kind == 4)
	s.block(func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	})
	s.strategy = prev
	seam.SetHot(false)
	seam.SetCountdown(noSwitch)
}

func (r *R) drawStrategy() strategy {
	st := strategy{}
	switch r.Pick(6, 3, 2, 3) {
	case 0:
		st.kind = 1
		st.mean = []int{64, 1, 2, 4, 8, 16, 32, 256, 1024}[r.N(9)]
	case 1:
		st.kind = 2
		n := 1 + r.N(4)
		at := seam.Steps()
		span := 1 << (4 + r.N(13))
		for i := 0; i < n; i++ {
			at += uint64(1 + r.N(span))
			st.points = append(st.points, at)
		}
	case 2:
		st.kind = 3
		st.salt = uint32(r.N(1 << 30))
	case 3:
		st.kind = 4
		st.mean = []int{16, 2, 4, 64, 512}[r.N(5)]
	}
	return st
}

func init() { runtime.SetMutexProfileFraction(0) }
