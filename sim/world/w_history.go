package world

import (
	"fmt"

	"github.com/tinne26/ggfnt"

	"verif.local/sim/core"
)

// reload loads exported bytes through a randomly chosen healthy path.
func reload(r *core.R, data []byte, what string) *ggfnt.Font {
	d := drawDelivery(r, len(data))
	var font *ggfnt.Font
	var err error
	if r.Bool(1, 5) {
		fs := &simFS{r: r, data: map[string][]byte{"f": data}, plan: fsPlan{d: d}}
		font, err = ggfnt.ParseFromFS(fs, "f")
	} else {
		font, err = ggfnt.Parse(newReader(r, data, d))
	}
	if err != nil {
		r.Failf("stored font refused", "%s (delivered %v): %v", what, d, err)
	}
	return font
}

type savedVersion struct {
	data []byte
	spec *Spec
}

// save exports the author's font if it's in an exportable state.
func (a *author) save(what string) *savedVersion {
	r := a.r
	s, why := a.spec()
	if why == "rune sets" { // encoding them is a declared limitation
		return nil
	}
	w := newWriter(r)
	err := a.b.Export(w)
	r.Logf("export: %v (%s)", err == nil, why)
	if s == nil {
		if err == nil {
			r.Failf("inconsistent contents exported", "%s: contents with %s were exported", what, why)
		}
		return nil
	}
	if err != nil && a.closeCall {
		r.Probe("refused around the limit of the data size")
		return nil
	}
	if err != nil {
		r.Failf("valid contents not exported", "%s: %v", what, err)
	}
	return &savedVersion{append([]byte(nil), w.buf...), s}
}

type historyPlan struct {
	weights  []int // by kind of edit
	sections int
	focus    []int // kinds of edits that make a case non-trivial
	maxSteps int
	minGlyph int
}

// How often a history gets to the limits of the format (each takes seconds).
const hugeOdds = 400

// runHistory edits, saves, crashes and reloads.
func runHistory(r *core.R, p historyPlan) {
	if r.N(5) == 4 {
		runForeign(r, p.sections)
		return
	}
	disk := newDisk(r)
	var versions []*savedVersion
	reloaded, focus := 0, 0
	for life := 1 + r.Small(2); life > 0; life-- {
		a := newAuthor(r)
		if p.minGlyph > 0 {
			a.fill(1 + r.Small(p.minGlyph))
			if r.N(25) == 24 {
				a.fill(200 + r.N(150))
				r.Probe("more than 200 glyphs")
			}
		}
		if r.N(30) == 29 {
			kind := 1 + r.N(numEdits-1)
			if r.Bool(2, 3) {
				kind = p.focus[r.N(len(p.focus))]
			}
			a.bulk(kind)
			focus += 2
		}
		steps := p.maxSteps
		if r.N(hugeOdds) == hugeOdds-1 {
			kind := p.focus[r.N(len(p.focus))]
			steps = 3
			if r.N(3) == 2 { // what refers to glyphs refers to any of many
				kind, steps = edGlyphs, 20
			}
			a.huge(kind, steps == 3)
			focus += 2
		}
		if a.heavy { // (takes long enough)
			steps = 0
		}
		crashed := false
		for n := r.Small(steps); n > 0 && !crashed; n-- {
			k := r.Pick(p.weights...)
			before := a.accepted
			a.step(k)
			for _, f := range p.focus {
				if f == k && a.accepted > before {
					focus++
				}
			}
			switch r.N(24) {
			case 22:
				a.check("while editing")
			case 23:
				if v := a.save("save while editing"); v != nil {
					versions = append(versions, v)
					disk.put("font", v.data, r.Bool(1, 2))
				}
			case 21:
				crashed = r.Bool(1, 3)
			}
			if a.dead() {
				break
			}
		}
		a.check("at the end")
		if !crashed {
			if a.heavy || r.N(6) == 5 {
				if _, why := a.spec(); why != "" {
					a.save("save of inconsistent contents")
				}
			}
			if s := a.repair(); s != nil {
				if r.N(5) == 4 {
					a.align()
				}
				if v := a.save("final save"); v != nil {
					versions = append(versions, v)
					disk.put("font", v.data, r.Bool(3, 4))
				}
			}
		}
		if crashed || r.Bool(1, 2) {
			disk.crash() // the builder's process is gone, too
		}
		f := disk.files["font"]
		if f == nil {
			continue
		}
		data := f.durable
		if f.dirty {
			data = f.volatile
		}
		known := false
		for i, v := range versions {
			if string(v.data) != string(data) {
				continue
			}
			what := fmt.Sprintf("version %d of the font", i+1)
			font := reload(r, data, what)
			compare(r, font, v.spec, p.sections, what)
			if len(data) < 4<<20 && r.Bool(1, 3) { // second generation
				again := exportBytes(r, font, what)
				font = reload(r, again, what+" exported again")
				compare(r, font, v.spec, p.sections, what+" exported again")
				r.Probe("second generation reload")
			}
			known = true
			reloaded++
			break
		}
		if !known {
			// what the crash left isn't something that was ever saved
			font, err := ggfnt.Parse(newReader(r, data, drawDelivery(r, len(data))))
			if err == nil {
				a, fresh := dump(font, &probeSet{}), false
				for _, v := range versions {
					if other, err := ggfnt.Parse(newReader(r, v.data, plainDelivery())); err == nil && dump(other, &probeSet{}) == a {
						fresh = true
					}
				}
				if !fresh {
					r.Failf("damaged file accepted", "a torn file of %d bytes was loaded as a font that was never saved", len(data))
				}
			}
			r.Probe("torn file left by crash")
		}
	}
	if reloaded > 0 && focus >= 2 {
		r.Nontrivial()
	}
}

// runForeign reloads fonts made by another producer that follows the format specification.
func runForeign(r *core.R, sections int) {
	s := genSpec(r)
	if r.N(hugeOdds/5) == hugeOdds/5-1 {
		s.grow(r, true)
	}
	data := wrap(fontSig, s.Encode(), r.N(10))
	font := reload(r, data, "font written after the specification")
	compare(r, font, s, sections, "font written after the specification")
	again := exportBytes(r, font, "font written after the specification")
	font = reload(r, again, "exported font")
	compare(r, font, s, sections, "exported font")
	r.Probe("font of another producer")
	r.Nontrivial()
}

var historyFaults = []string{"crash", "lost writes", "torn write", "reordered or lost sectors", "short read", "empty read", "eof with data"}

func init() {
	common := func(id string, runs int, what string, plan historyPlan, faults ...string) {
		core.Register(&core.World{
			ID: id, QuickRuns: runs, StepBudget: 3_000_000_000,
			Rule:      "one seeded history of builder edits over up to three process lives, with saves to a simulated disk, crashes and reloads; non-trivial if at least two accepted edits " + what + " were followed by a reload that was compared, or a complete font of another producer was reloaded",
			Faults:    append(append([]string(nil), historyFaults...), faults...),
			MustProbe: []string{"second generation reload", "torn file left by crash", "font of another producer"},
			Real:      []string{"builder", "Font.Export", "Parse", "ParseFromFS", "font accessors", "mask encoder and rasterizer"},
			Stub:      []string{"writers, readers, file system and disk (simulated)", "clock", "entropy source", "map iteration order"},
			Measure:   "distinct traces (hash of every edit, fault and outcome)",
			Assumptions: []string{"contents with rune sets are not exported (declared unimplemented)",
				"generated identifiers don't collide across glyphs and sets (documented assumption)"},
			Run: func(r *core.R) { runHistory(r, plan) },
		})
	}
	//                 header metrics glyphs colors settings mapping rewrites kerning edition
	common("C07", 40000, "of header, metrics or glyphs", historyPlan{[]int{8, 6, 8, 1, 1, 1, 1, 1, 1}, secHeader | secMetrics | secGlyphs, []int{edHeader, edMetrics, edGlyphs}, 60, 0},
		"clock jump", "clock at the edge of a day", "clock going backwards")
	common("C08", 30000, "of colors or settings", historyPlan{[]int{1, 1, 1, 8, 8, 1, 0, 0, 0}, secColors | secSettings, []int{edColors, edSettings}, 60, 3})
	common("C09", 25000, "of mapping or settings", historyPlan{[]int{0, 0, 2, 0, 3, 10, 0, 0, 0}, secMapping, []int{edSettings, edMapping}, 60, 24})
	common("C10", 25000, "of kerning", historyPlan{[]int{0, 0, 1, 0, 0, 0, 0, 8, 3}, secKerning, []int{edKerning, edEdition}, 80, 16})
	common("C11", 40000, "of rewrite rules or sets", historyPlan{[]int{0, 0, 1, 0, 1, 0, 10, 0, 0}, secRewrites, []int{edRewrites}, 60, 16})
}
