package world

import (
	"bytes"
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"

	"verif.local/sim/core"
)

// ---- C12: deterministic and isolated builds ----

// built is a font that was built, with what it was when it was built.
type built struct {
	font  *ggfnt.Font
	bytes []byte
	dump  string
	spec  *Spec
	at    int
}

func runBuilds(r *core.R) {
	a := newAuthor(r)
	a.fill(1 + r.Small(10))
	var snaps []*built
	var last []byte // exported bytes of the current contents, if known
	same := func(data []byte, what string) {
		if last != nil && !bytes.Equal(last, data) {
			r.Failf("same contents, different bytes", "%s: %s", what, payloadDiff(last, data))
		}
		last = data
	}
	verify := func(s *built, what string) {
		if got := exportBytes(r, s.font, what); !bytes.Equal(got, s.bytes) {
			r.Failf("built font changed", "font built at step %d, %s: %s", s.at, what, payloadDiff(s.bytes, got))
		}
		if got := dump(s.font, s.spec.probes(r, 2)); s.dump != "" && got != s.dump {
			r.Failf("built font changed", "font built at step %d, %s: %s", s.at, what, firstDiff(s.dump, got))
		}
	}
	export := func(b *builder.Font, what string) []byte {
		var buf bytes.Buffer
		if err := b.Export(&buf); err != nil {
			r.Failf("valid contents not exported", "%s: %v", what, err)
		}
		return buf.Bytes()
	}
	builds := 0
	hot := -1 // most edits may be of one kind
	if r.Bool(1, 3) {
		hot = r.N(numEdits)
	}
	steps := 1 + r.Small(30)
	switch r.Pick(36, 3, 1) {
	case 1:
		steps = 1 + r.Small(150)
	case 2:
		kind := 1 + r.N(numEdits-1)
		a.bulk(kind)
		r.Probe("much of a kind")
		steps = min(steps, 6)
	}
	for step := steps; step > 0; step-- {
		r.Op(func() {
			s, why := a.spec()
			switch r.Pick(8, 4, 2, 1, 1) {
			case 0:
				if r.N(100) == 99 { // as many edits as some counter could count
					n := 256<<(8*r.Pick(6, 1)) - r.N(3)
					was := a.m.Ascent
					for k := 1; k < n; k++ {
						a.b.SetAscent(was)
					}
					r.Probe("many edits in a row")
					r.Logf("ascent set %d times", n)
				}
				kind := r.N(numEdits)
				if hot >= 0 && r.Bool(2, 3) {
					kind = hot
				}
				a.step(kind)
				last = nil
				return
			case 1: // build
				if why == "rune sets" {
					return
				}
				before := a.observe()
				font, err := a.b.Build()
				if after := a.observe(); after != before {
					r.Failf("building changes the builder", "%s", firstDiff(before, after))
				}
				if s == nil {
					if err == nil {
						r.Failf("inconsistent contents built", "contents with %s were built", why)
					}
					return
				}
				if err != nil {
					r.Failf("valid contents not built", "%v", err)
				}
				data := exportBytes(r, font, "built font")
				same(data, "built again")
				snap := &built{font: font, bytes: data, spec: s, at: step}
				if r.Bool(1, 2) {
					snap.dump = dump(font, s.probes(r, 2))
				}
				snaps = append(snaps, snap)
				builds++
			case 2: // export
				if s == nil {
					return
				}
				before := a.observe()
				same(export(a.b, "export"), "exported again")
				if after := a.observe(); after != before {
					r.Failf("exporting changes the builder", "%s", firstDiff(before, after))
				}
				builds++
			case 3: // another builder with the same contents
				if s == nil {
					return
				}
				other := a.replicate()
				same(export(other, "other builder"), "exported by another builder that went through the same edits")
				if again := export(a.b, "export"); r.Bool(1, 2) {
					same(again, "exported again after another builder did")
				}
				r.Probe("replicated builder")
				builds++
			case 4: // two builders on two threads, while a third one uses an older font
				if s == nil {
					return
				}
				other := a.replicate()
				var x, y []byte
				jobs := []func(){func() { x = export(a.b, "export") }, func() { y = export(other, "other builder") }}
				if len(snaps) > 0 {
					old := snaps[r.N(len(snaps))]
					jobs = append(jobs, func() { verify(old, "during concurrent builds") })
				}
				r.Parallel(jobs...)
				same(x, "exported during another builder's export")
				same(y, "exported concurrently by another builder that went through the same edits")
				r.Probe("concurrent builds")
				builds++
			}
		})
		if a.dead() {
			break
		}
		if len(snaps) > 0 && r.N(4) == 3 {
			verify(snaps[r.N(len(snaps))], "after later edits")
		}
	}
	a.check("at the end")
	for _, s := range snaps {
		verify(s, "at the end")
		compare(r, s.font, s.spec, secAll, "font built before later edits")
		if r.Bool(1, 3) {
			compare(r, reload(r, s.bytes, "built font"), s.spec, secAll, "built and reloaded font")
		}
	}
	if builds >= 2 {
		r.Nontrivial()
	}
}

func payloadDiff(a, b []byte) string {
	p, ok1 := unwrap(a)
	q, ok2 := unwrap(b)
	if !ok1 || !ok2 {
		return fmt.Sprintf("%d and %d bytes, valid: %v, %v", len(a), len(b), ok1, ok2)
	}
	for i := range p {
		if i >= len(q) || p[i] != q[i] {
			return fmt.Sprintf("data differs at byte %d of %d and %d", i, len(p), len(q))
		}
	}
	return fmt.Sprintf("data of %d and %d bytes, files of %d and %d bytes", len(p), len(q), len(a), len(b))
}

// ---- C13: refused edits ----

// state is everything that can be observed of the builder.
func (a *author) state() string {
	s := a.observe()
	if len(a.rsets) > 0 { // can't be exported
		return s
	}
	var buf bytes.Buffer
	err := a.b.Export(&buf)
	return s + fmt.Sprintf("export failed: %v\n", err != nil) + buf.String()
}

func runRefusals(r *core.R) {
	a := newAuthor(r)
	a.fill(1 + r.Small(6))
	focus := r.N(2)
	steps := 1 + r.Small(40)
	if r.N(60) == 59 {
		a.bulk(1 + r.N(numEdits-1))
		r.Probe("much of a kind")
		steps = min(steps, 8)
	}
	kinds := []int{edHeader, edMetrics, edGlyphs, edColors, edSettings, edMapping, edRewrites, edKerning}
	refused := 0
	a.beforeEdit = func() string { return a.state() }
	a.afterEdit = func(what, before string, err error) {
		if err == nil {
			return
		}
		refused++
		if after := a.state(); after != before {
			r.Failf("refused edit has effects", "%s (%v): %s", what, err, firstDiff(before, after))
		}
	}
	for n := steps; n > 0; n-- {
		if r.Bool(1, 3) {
			a.entropy = nil
			kind := 1 + r.N(4)
			for k := 1 + r.Small(5); k > 0; k-- {
				if r.N(4) == 3 {
					a.entropy = append(a.entropy, r.N(5))
				} else {
					a.entropy = append(a.entropy, kind)
				}
			}
		}
		k := kinds[r.N(len(kinds))]
		if focus == 1 && r.Bool(1, 2) {
			k = []int{edGlyphs, edRewrites}[r.N(2)]
		}
		a.step(k)
		a.entropy = nil
		if a.dead() {
			break
		}
		if r.N(16) == 15 {
			a.check("while editing")
		}
	}
	a.beforeEdit, a.afterEdit = nil, nil
	a.check("at the end")
	if s := a.repair(); s != nil {
		v := a.save("save after refused edits")
		compare(r, reload(r, v.data, "font saved after refused edits"), s, secAll, "font saved after refused edits")
		if refused > 0 {
			r.Nontrivial()
		}
	}
}

// ---- C14: edition data ----

// decodeEdition reads edition data according to the specification; ok tells if
// it's valid for a font with the given ID and number of glyphs.
func decodeEdition(d []byte, id uint64, glyphs int) (e *editionSpec, ok bool) {
	e = &editionSpec{}
	ok = true
	take := func(n int) int {
		if len(d) < n {
			ok = false
			d = nil
			return 0
		}
		v := 0
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | int(d[i])
		}
		d = d[n:]
		return v
	}
	str := func() string {
		n := take(1)
		if n > len(d) {
			ok = false
			return ""
		}
		s := string(d[:n])
		d = d[n:]
		if n < 1 || n > 32 {
			ok = false
		}
		for i := range s {
			c := s[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == ' ') {
				ok = false
			}
		}
		return s
	}
	lo := take(4)
	e.ID = uint64(lo) | uint64(take(4))<<32
	if e.ID != id {
		ok = false
	}
	n := take(1)
	for i := 0; i < n && ok; i++ {
		e.Cats = append(e.Cats, str())
	}
	for i := 0; i < n && ok; i++ {
		e.Sizes = append(e.Sizes, take(2))
	}
	n = take(2)
	for i := 0; i < n && ok; i++ {
		e.Names = append(e.Names, str())
	}
	for i := 0; i < n && ok; i++ {
		e.Values = append(e.Values, int8(take(1)))
	}
	for _, list := range []*[]editionPair{&e.H, &e.V} {
		n := take(3)
		for i := 0; i < n && ok; i++ {
			p := editionPair{take(2), take(2), take(2)}
			if p.a >= glyphs || p.b >= glyphs || p.class == 0 || p.class > len(e.Names) {
				ok = false
			}
			*list = append(*list, p)
		}
	}
	if take(1) != 0 || len(d) != 0 { // the builder defines no rewrite conditions
		ok = false
	}
	return e, ok
}

func runEdition(r *core.R) {
	a, _ := drawAuthor(r, 12, 20)
	faults, compared := 0, 0
	verify := func(what string) {
		if r.Bool(1, 2) {
			return
		}
		s, why := a.spec()
		if s == nil {
			if why == "rune sets" {
				return
			}
			if err := a.b.Export(&bytes.Buffer{}); err == nil {
				r.Failf("inconsistent contents exported", "%s: contents with %s were exported", what, why)
			}
			return
		}
		var buf bytes.Buffer
		if err := a.b.Export(&buf); err != nil {
			r.Failf("valid contents not exported", "%s: %v", what, err)
		}
		font, err := parsePlain(buf.Bytes())
		if err != nil {
			r.Failf("stored font refused", "%s: %v", what, err)
		}
		sections := secKerning
		if r.Bool(1, 4) {
			sections = secAll
		}
		compare(r, font, s, sections, what)
		a.check(what)
		compared++
	}
	// load delivers a file that may be damaged, with failures.
	load := func(file []byte, d delivery, want *editionSpec, what string) {
		a.clearEdition()
		rd := newReader(r, file, d)
		err := a.b.ParseEditionData(rd)
		r.Logf("%s: %v", what, err != nil)
		if err != nil {
			a.hist = append(a.hist, histItem{r.Now(), func(e env) error { e.b.ClearEditionData(); return nil }})
		} else {
			a.hist = append(a.hist, histItem{r.Now(), func(e env) error { return e.b.ParseEditionData(bytes.NewReader(file)) }})
		}
		if want != nil && err != nil {
			r.Failf("valid edition data refused", "%s: %v", what, err)
		}
		if want == nil && err == nil {
			r.Failf("invalid edition data accepted", "%s was loaded", what)
		}
		if err == nil {
			a.applyEdition(want)
		}
		verify("after " + what)
	}
	var pending []byte // a file whose load failed, to be retried
	var pendingSpec *editionSpec
	for n := 1 + r.Small(16); n > 0; n-- {
		r.Op(func() {
			switch r.Pick(3, 3, 3, 2, 2, 2, 1) {
			case 0: // edit something else
				if r.N(8) == 7 {
					a.addGlyph(genMask(r, 0, -3, 5, 1))
				} else {
					a.kerning()
				}
			case 1: // valid or invalid data, healthy stream
				ed := a.genEdition(r.Bool(1, 2))
				file := wrap(editionSig, ed.Encode(), r.N(10))
				a.loadEdition(file, ed, drawDelivery(r, len(file)))
				if ed.invalid != "" {
					r.Fault("invalid edition data")
					faults++
				}
				verify("after loading edition data")
			case 2: // valid data, failing stream
				ed := a.genEdition(false)
				file := wrap(editionSig, ed.Encode(), r.N(10))
				d := drawDelivery(r, len(file))
				cut := drawFailure(r, &d, len(file))
				load(file[:cut], d, nil, fmt.Sprintf("failed load (%v, %d of %d bytes)", d, cut, len(file)))
				pending, pendingSpec = file, ed
				faults++
			case 3: // damaged file
				ed := a.genEdition(false)
				file := wrap(editionSig, ed.Encode(), r.N(10))
				old := a.genEdition(false)
				bad := corrupt(r, file, wrap(editionSig, old.Encode(), r.N(10)))
				d := drawDelivery(r, len(bad))
				var want *editionSpec // what it decodes to decides what is expected
				if p, ok := unwrapEdition(bad); ok {
					if got, ok := decodeEdition(p, a.m.ID, len(a.uids)); ok {
						want = got
						r.Probe("harmless damage")
					}
				}
				load(bad, d, want, "damaged edition data")
				faults++
			case 4: // damaged data with valid checksum
				ed := a.genEdition(r.Bool(1, 4))
				p := corruptPayload(r, ed.Encode())
				file := wrap(editionSig, p, r.N(10))
				d := drawDelivery(r, len(file))
				if got, ok := decodeEdition(p, a.m.ID, len(a.uids)); ok {
					r.Probe("accepted payload")
					load(file, d, got, "damaged but valid edition data")
				} else {
					load(file, d, nil, "damaged edition data with a valid checksum")
				}
				faults++
			case 5: // retry
				if pending == nil {
					return
				}
				if _, ok := decodeEdition(pendingSpec.Encode(), a.m.ID, len(a.uids)); !ok {
					return
				}
				load(pending, drawDelivery(r, len(pending)), pendingSpec, "retried load")
				r.Probe("retry")
			case 6:
				a.edit(true, "ClearEditionData", func(e env) error { e.b.ClearEditionData(); return nil })
				a.clearEdition()
				verify("after clearing edition data")
			}
		})
	}
	a.check("at the end")
	if s, _ := a.spec(); s != nil {
		if v := a.save("final save"); v != nil {
			compare(r, reload(r, v.data, "final font"), v.spec, secAll, "final font")
			compared++
		}
	}
	if faults > 0 && compared > 0 {
		r.Nontrivial()
	}
}

// unwrapEdition gives the payload of an edition data file that is valid as file.
func unwrapEdition(file []byte) ([]byte, bool) {
	if len(file) < 6 || string(file[:6]) != editionSig {
		return nil, false
	}
	return unwrap(file)
}

func init() {
	stub := []string{"clock", "entropy source", "map iteration order", "readers and writers"}
	core.Register(&core.World{ID: "C12", QuickRuns: 15000, Run: runBuilds,
		Rule:      "one seeded history of edits mixed with builds and exports of one or two builders (some concurrent), each map iteration in a drawn order; non-trivial with at least two builds or exports",
		Faults:    nil,
		MustProbe: []string{"replicated builder", "concurrent builds", "many edits in a row"},
		Real:      []string{"builder", "Font.Export", "Parse", "font accessors"}, Stub: stub, Measure: "distinct traces",
		Assumptions: []string{"the two compared builders take identifiers from different entropy, but the same font ID"},
	})
	core.Register(&core.World{ID: "C13", QuickRuns: 15000, Run: runRefusals,
		Rule:      "one seeded history of valid and invalid edits with entropy failures, the builder's whole observable state (getters and exported file) compared around each refused edit; non-trivial if an edit was refused and the resulting font compared with the model",
		Faults:    []string{"repeated entropy", "reserved value from entropy source", "entropy failure"},
		MustProbe: nil,
		Real:      []string{"builder", "Parse", "font accessors"}, Stub: stub, Measure: "distinct traces",
		Assumptions: []string{"contents with rune sets are compared through getters only (exporting them is declared unimplemented)"},
	})
	core.Register(&core.World{ID: "C14", QuickRuns: 20000, Run: runEdition,
		Rule:      "one seeded history of edition data loads (healthy, failing, damaged, invalid), clears, retries and kerning edits; non-trivial if a load met a fault and the builder's contents were compared with the model afterwards",
		Faults:    []string{"invalid edition data", "read error", "read error with data", "truncated stream", "stalled reader", "flipped bits", "torn file", "damaged payload with valid checksum"},
		MustProbe: []string{"retry", "accepted payload"},
		Real:      []string{"builder", "ParsingBuffer", "Parse", "font accessors"}, Stub: stub, Measure: "distinct traces",
		Assumptions: []string{"categories can't be observed (the builder has no getters for them)"},
	})
}
