package world

import (
	"bytes"
	"fmt"
	"maps"
	"slices"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"

	"verif.local/sim/core"
)

// ---- C15: shared fonts ----

// job is something that a thread does with no state of its own but what the
// job brings: same results whenever it runs.
type job struct {
	name string
	run  func() string
}

// useMappings looks code points up through caches of its own.
func useMappings(font *ggfnt.Font, p *probeSet, size int) string {
	var sb strings.Builder
	sc := ggfnt.NewSettingsCache(font)
	mc := ggfnt.NewMappingCache(font, size)
	for _, combo := range p.combos {
		for k, v := range combo {
			if m, _ := sc.Set(ggfnt.SettingKey(k), v); m {
				mc.Drop()
			}
		}
		for _, cp := range p.cps {
			g, ok := mc.Get(cp, sc)
			fmt.Fprintf(&sb, "%d %v %s\n", cp, combo, groupString(g, ok))
		}
	}
	return sb.String()
}

// useRewrites runs the font's own rules.
func useRewrites(r *core.R, font *ggfnt.Font, combo []uint8, in []uint32, runes bool) string {
	var sb strings.Builder
	t := newTester(runes)
	rw := font.Rewrites()
	if runes {
		for i := 0; i < int(rw.NumUTF8Rules()); i++ {
			fmt.Fprintln(&sb, t.add(rw.GetUtf8Rule(uint16(i)).Data))
		}
	} else {
		for i := 0; i < int(rw.NumGlyphRules()); i++ {
			fmt.Fprintln(&sb, t.add(rw.GetGlyphRule(uint16(i)).Data))
		}
	}
	sc := ggfnt.NewSettingsCache(font)
	for k, v := range combo {
		sc.Set(ggfnt.SettingKey(k), v)
	}
	if err := t.BeginSequence(font, sc); err != nil {
		return sb.String() + err.Error()
	}
	fn := func(v uint32) { fmt.Fprintf(&sb, "%d ", v) }
	for _, v := range in {
		if err := t.feed(v, fn); err != nil {
			fmt.Fprintln(&sb, err)
		}
	}
	t.finish(fn)
	return sb.String()
}

func sharedJob(r *core.R, s *Spec, font *ggfnt.Font) job {
	switch r.Pick(4, 2, 2, 3, 1) {
	case 1:
		return job{"export", func() string {
			var buf bytes.Buffer
			err := font.Export(&buf)
			return fmt.Sprint(err, buf.Bytes())
		}}
	case 2:
		p := s.probes(r, 2)
		size := 1 + r.Small(40)
		return job{"mappings", func() string { return useMappings(font, p, size) }}
	case 3:
		runes := r.Bool(1, 2)
		e := &rewriteEnv{r: r, spec: s, runes: runes, sets: s.GlyphSets, alpha: []uint32{0}}
		rules := s.GRules
		if runes {
			e.alpha, e.sets, rules = []uint32{'a'}, s.RuneSets, s.URules
		}
		var in []uint32
		for n := 1 + r.Small(5); n > 0; n-- {
			in = append(in, e.drawInput(rules)...)
		}
		combo := s.combos(r, 4)
		c := combo[r.N(len(combo))]
		return job{"rewrites", func() string { return useRewrites(r, font, c, in, runes) }}
	case 4:
		return job{"validate", func() string {
			return fmt.Sprint(font.Validate(ggfnt.FmtDefault), font.RawSize())
		}}
	}
	p := s.probes(r, 1)
	return job{"queries", func() string { return dump(font, p) }}
}

func otherJob(r *core.R) job {
	switch r.N(3) {
	case 0: // load another font, and query it
		s := genSmallSpec(r)
		file := wrap(fontSig, s.Encode(), 1+r.N(9))
		d := drawDelivery(r, len(file))
		if r.Bool(1, 3) {
			file = file[:r.N(len(file))]
			r.Probe("concurrent failing load")
		}
		p := s.probes(r, 1)
		seed := d
		return job{"load", func() string {
			font, err := ggfnt.Parse(newReader(r, file, seed))
			if err != nil {
				return "error: " + err.Error()
			}
			return dump(font, p)
		}}
	case 1: // build another font
		spec := genSmallSpec(r)
		return job{"build", func() string { return buildAnother(spec) }}
	}
	s := genSmallSpec(r)
	font := loadSpec(r, s)
	return job{"export another", func() string {
		var buf bytes.Buffer
		err := font.Export(&buf)
		return fmt.Sprint(err, buf.Bytes())
	}}
}

// buildAnother builds a font with a builder and describes the resulting file
// (without the random font identifier).
func buildAnother(spec *Spec) string {
	var sb strings.Builder
	b := builder.New()
	fmt.Fprintln(&sb, b.SetName(spec.Name), b.SetFamily(spec.Family), b.SetAuthor(spec.Author), b.SetAbout(spec.About))
	b.SetVersion(1, 2)
	date := ggfnt.Date{Month: 1, Day: 2, Year: 2020}
	fmt.Fprintln(&sb, b.SetFirstVerDate(date), b.SetMajorVerDate(date), b.SetMinorVerDate(date))
	for _, d := range spec.Dyes {
		fmt.Fprintln(&sb, b.AddDye(d.Name, d.Alphas...))
	}
	for _, p := range spec.Pals {
		fmt.Fprintln(&sb, b.AddPalette(p.Name, p.Colors...))
	}
	for _, st := range spec.Settings {
		key, err := b.AddSetting(st.Name, st.Options...)
		fmt.Fprintln(&sb, key, err)
	}
	for _, sw := range spec.Switches {
		var keys []ggfnt.SettingKey
		for _, k := range sw {
			keys = append(keys, ggfnt.SettingKey(k))
		}
		key, err := b.AddSwitch(keys...)
		fmt.Fprintln(&sb, key, err)
	}
	uids := map[uint32]uint64{}
	for i, g := range spec.Glyphs {
		uid, err := b.AddGlyph(cloneMask(g.Mask))
		fmt.Fprintln(&sb, err)
		if err != nil {
			continue
		}
		uids[uint32(i)] = uid
		fmt.Fprintln(&sb, b.SetGlyphPlacement(uid, ggfnt.GlyphPlacement{Advance: 3}), b.Map(rune('a'+i), uid))
		if g.Name != "" {
			fmt.Fprintln(&sb, b.SetGlyphName(uid, g.Name))
		}
	}
	for _, cp := range slices.Sorted(maps.Keys(spec.Maps)) {
		m := spec.Maps[cp]
		var groups [][]uint64
		var flags []ggfnt.AnimationFlags
		ok := true
		for _, g := range m.Groups {
			var group []uint64
			for _, x := range g.Glyphs {
				uid, found := uids[uint32(x)]
				ok = ok && found
				group = append(group, uid)
			}
			ok = ok && len(group) > 0
			groups = append(groups, group)
			if len(group) > 1 {
				flags = append(flags, g.Flags)
			}
		}
		switch {
		case !ok:
		case m.Switch == 255 && len(groups[0]) == 1:
			fmt.Fprintln(&sb, cp, b.Map(cp, groups[0][0]))
		case m.Switch >= 254:
			fmt.Fprintln(&sb, cp, b.MapGroup(cp, m.Groups[0].Flags, groups[0]...))
		default:
			fmt.Fprintln(&sb, cp, b.MapWithSwitch(cp, m.Switch, groups, flags))
		}
	}
	pairs := slices.SortedFunc(maps.Keys(spec.HKern), func(a, b [2]uint16) int { return slices.Compare(a[:], b[:]) })
	for _, pair := range pairs {
		first, ok := uids[uint32(pair[0])]
		second, ok2 := uids[uint32(pair[1])]
		if ok && ok2 {
			b.SetKerningPair(first, second, spec.HKern[pair])
		}
	}
	for _, ru := range spec.GRules {
		var in, out []uint64
		ok := true
		for _, part := range [][]elem{ru.Head, ru.Body, ru.Tail} {
			for _, e := range part {
				uid, found := uids[e.V]
				ok = ok && found && !e.Set
				in = append(in, uid)
			}
		}
		for _, x := range ru.Out {
			uid, found := uids[x]
			ok = ok && found
			out = append(out, uid)
		}
		if ok {
			fmt.Fprintln(&sb, b.AddGlyphRewriteRule(uint8(len(ru.Head)), uint8(len(ru.Body)), uint8(len(ru.Tail)), in, out...))
		}
	}
	var file bytes.Buffer
	fmt.Fprintln(&sb, b.Export(&file))
	payload, ok := unwrap(file.Bytes())
	if ok && len(payload) > 12 {
		clear(payload[4:12])
	}
	fmt.Fprintln(&sb, ok, payload)
	return sb.String()
}

func runSharedFont(r *core.R) {
	s := genSmallSpec(r)
	file := wrap(fontSig, s.Encode(), 1+r.N(9))
	font, err := ggfnt.Parse(newReader(r, file, plainDelivery()))
	if err != nil {
		r.Harnessf("generated font refused: %v", err)
	}
	before := exportBytes(r, font, "shared font")
	n := 2 + r.N(3)
	threads := make([][]job, n)
	shared := 0
	own := r.N(7) == 6 // every thread builds fonts of its own
	for i := range threads {
		if own {
			for k := 1 + r.Small(2); k > 0; k-- {
				spec := genSmallSpec(r)
				threads[i] = append(threads[i], job{"build", func() string { return buildAnother(spec) }})
			}
			continue
		}
		for k := 1 + r.Small(3); k > 0; k-- {
			if i > 1 && r.Bool(1, 2) {
				threads[i] = append(threads[i], otherJob(r))
			} else {
				threads[i] = append(threads[i], sharedJob(r, s, font))
				shared++
			}
		}
	}
	solo := make([][]string, n)
	alone := func() {
		for i := range threads {
			for _, j := range threads[i] {
				solo[i] = append(solo[i], j.run())
			}
		}
	}
	first := r.Bool(1, 2)
	if first {
		alone()
	}
	got := make([][]string, n)
	var fs []func()
	for i := range threads {
		fs = append(fs, func() {
			for _, j := range threads[i] {
				r.Logf("start %s", j.name)
				got[i] = append(got[i], j.run())
				r.Logf("done %s", j.name)
			}
		})
	}
	r.Parallel(fs...)
	if !first {
		alone()
	}
	for i := range threads {
		for k, j := range threads[i] {
			if got[i][k] != solo[i][k] {
				r.Failf("answer depends on other threads", "thread %d, %s: %s", i, j.name, firstDiff(solo[i][k], got[i][k]))
			}
			r.Mix([]byte(got[i][k]))
		}
	}
	if after := exportBytes(r, font, "shared font"); !bytes.Equal(before, after) {
		r.Failf("font changed by readers", "%s", payloadDiff(before, after))
	}
	compare(r, font, s, secAll, "after concurrent use")
	if own {
		r.Probe("concurrent builders")
	}
	if shared > 1 || own {
		r.Nontrivial()
	}
}

// genSmallSpec draws a complete font that takes few steps to look at.
func genSmallSpec(r *core.R) *Spec {
	for {
		s := genSpec(r)
		if len(s.Glyphs) <= 31 && len(s.About) <= 300 {
			return s
		}
	}
}

func init() {
	core.Register(&core.World{ID: "C15", QuickRuns: 8000, Run: runSharedFont,
		Rule:      "one seeded font shared by 2 to 4 threads that query it, look mappings up, run its rules and export it, while others load, build and export other fonts, interleaved at statement granularity by the seeded scheduler; answers compared with those of the same jobs alone, the font with the model and its bytes afterwards; non-trivial with several jobs on the shared font",
		Faults:    nil,
		MustProbe: []string{"concurrent failing load"},
		Real:      []string{"Font accessors", "Parse, Export and builder", "rewrite testers, mapping and settings caches", "mask rasterizer"},
		Stub:      []string{"thread scheduler (decides at every statement which thread runs)"},
		Measure:   "distinct traces (with schedules)",
	})
}
