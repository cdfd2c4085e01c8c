package core

import "sort"

// World is a simulated system with a workload and the oracle of one property.
type World struct {
	ID          string
	QuickRuns   int
	ThoroughSec int // wall-clock budget of the thorough tier
	Chunk       int
	StepBudget  uint64
	Rule        string   // what a case is, and what makes it non-trivial
	Faults      []string // fault kinds that the world can inject
	MustProbe   []string // rare conditions that must be reached
	Real        []string
	Stub        []string
	Assumptions []string
	Measure     string
	Run         func(*R)
}

var worlds = map[string]*World{}

func Register(w *World) {
	if w.Chunk == 0 {
		w.Chunk = 50
	}
	if w.StepBudget == 0 {
		w.StepBudget = 1_000_000_000
	}
	if w.ThoroughSec == 0 {
		w.ThoroughSec = 600
	}
	worlds[w.ID] = w
}

func Get(id string) *World { return worlds[id] }

func IDs() []string {
	var ids []string
	for id := range worlds {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
