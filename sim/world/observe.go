package world

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"strings"

	"github.com/tinne26/ggfnt"

	"verif.local/sim/core"
)

const maxList = 70 // items looked at per list when dumping arbitrary fonts

// probeSet is what gets asked to a font when dumping it.
type probeSet struct {
	cps    []rune
	names  []string
	combos [][]uint8
}

// combos gives up to max setting combinations (all of them when they fit).
func (s *Spec) combos(r *core.R, max int) [][]uint8 {
	total := 1
	for _, st := range s.Settings {
		total *= len(st.Options)
		if total > max {
			break
		}
	}
	var out [][]uint8
	cur := make([]uint8, len(s.Settings))
	if total <= max {
		for {
			out = append(out, append([]uint8(nil), cur...))
			i := len(cur) - 1
			for i >= 0 {
				cur[i]++
				if int(cur[i]) < len(s.Settings[i].Options) {
					break
				}
				cur[i] = 0
				i--
			}
			if i < 0 {
				return out
			}
		}
	}
	sub := r.Sub()
	for k := 0; k < max; k++ {
		for i := range cur {
			cur[i] = uint8(sub.N(len(s.Settings[i].Options)))
			if k == 0 {
				cur[i] = 0
			} else if k == 1 {
				cur[i] = uint8(len(s.Settings[i].Options) - 1)
			}
		}
		out = append(out, append([]uint8(nil), cur...))
	}
	return out
}

func (s *Spec) probes(r *core.R, max int) *probeSet {
	p := &probeSet{combos: s.combos(r, max)}
	seen := map[rune]bool{}
	add := func(cp rune) {
		if !seen[cp] {
			seen[cp] = true
			p.cps = append(p.cps, cp)
		}
	}
	for _, cp := range s.codePoints() {
		add(cp)
		add(cp - 1)
		add(cp + 1)
	}
	for _, cp := range []rune{' ', 'a', 'z', 0, 0x10FFFF, -1} {
		add(cp)
	}
	for _, g := range s.Glyphs {
		if g.Name != "" {
			p.names = append(p.names, g.Name, g.Name+"0", g.Name[:len(g.Name)-1])
		}
	}
	p.names = append(p.names, "zzzz", "0", "")
	return p
}

// dump describes everything the font reports.
func dump(font *ggfnt.Font, p *probeSet) string {
	var sb strings.Builder
	part := func(name string, f func()) {
		fmt.Fprintf(&sb, "[%s]\n", name)
		if msg := core.Try(f); msg != "" {
			fmt.Fprintf(&sb, "%s\n", msg)
		}
	}
	w := func(format string, args ...any) { fmt.Fprintf(&sb, format+"\n", args...) }
	if font == nil {
		return "nil"
	}
	// what the caller keeps is looked at last, and then changed
	var pal color.Palette
	var first *image.Alpha
	var texts []string
	part("kept", func() {
		h := font.Header()
		texts = []string{h.Name(), h.Family(), h.Author(), h.About()}
		pal = font.Color().GoColorPalette()
		font.Color().EachPalette(func(_ ggfnt.PaletteKey, name string) { texts = append(texts, name) })
		first = font.Glyphs().RasterizeMask(0)
	})
	part("header", func() {
		h := font.Header()
		w("%d %d %d.%d %v %v %v", h.FormatVersion(), h.ID(), h.VersionMajor(), h.VersionMinor(), h.FirstVersionDate(), h.MajorVersionDate(), h.MinorVersionDate())
		w("%q %q %q %q", h.Name(), h.Family(), h.Author(), h.About())
	})
	part("metrics", func() {
		m := font.Metrics()
		w("%d %v %v %d %d %d %d %d %d %d %d %d %d %d %d", m.NumGlyphs(), m.HasVertLayout(), m.Monospaced(), m.MonoWidth(), m.Ascent(), m.ExtraAscent(), m.Descent(), m.ExtraDescent(),
			m.UppercaseAscent(), m.MidlineAscent(), m.HorzInterspacing(), m.VertInterspacing(), m.LineGap(), m.VertLineWidth(), m.VertLineGap())
		w("%d %d", m.LineHeight(), m.VertLineFullWidth())
	})
	part("dyes", func() {
		c := font.Color()
		w("%d %d", c.NumDyes(), c.NumDyeIndices())
		c.EachDye(func(k ggfnt.DyeKey, name string) {
			w("%d %q %d", k, name, c.NumDyeAlphas(k))
			c.EachDyeAlpha(k, func(a uint8) { w(" %d", a) })
		})
	})
	part("palettes", func() {
		c := font.Color()
		w("%d %d %d", c.NumPalettes(), c.NumPaletteIndices(), c.Count())
		c.EachPalette(func(k ggfnt.PaletteKey, name string) {
			w("%d %q %d", k, name, c.NumPaletteColors(k))
			c.EachPaletteColor(k, func(a color.RGBA) { w(" %v", a) })
		})
		w("%v", c.GoColorPalette())
	})
	part("names", func() {
		g := font.Glyphs()
		w("%d %d", g.Count(), g.NamedCount())
		for _, n := range p.names {
			w("%q %d", n, g.FindIndexByName(n))
		}
	})
	n := 0
	part("glyphs", func() { n = min(maxList, int(font.Glyphs().Count())) })
	// a mask is the caller's: it is looked at only after the next one was made,
	// and then drawn over.
	var held *image.Alpha
	for i := 0; i <= n; i++ {
		part("glyph", func() {
			g := font.Glyphs()
			prev := held
			held = nil
			if i < n {
				held = g.RasterizeMask(ggfnt.GlyphIndex(i))
				w("%d %d %v", i, g.Advance(ggfnt.GlyphIndex(i)), g.Placement(ggfnt.GlyphIndex(i)))
			}
			if i > 0 {
				w("%d: %s", i-1, maskString(prev))
				scribble(prev)
			}
		})
	}
	part("settings", func() {
		s := font.Settings()
		w("%d %d", s.NumWords(), s.Count())
		for i := 0; i < 256; i++ {
			w("%q", s.GetWord(uint8(i)))
		}
		s.Each(func(k ggfnt.SettingKey, name string) {
			no := s.GetNumOptions(k)
			w("%d %q %d", k, name, no)
			for i := 0; i < int(no); i++ {
				w(" %q", s.GetOptionName(k, uint8(i)))
			}
		})
	})
	part("mapping", func() {
		m := font.Mapping()
		w("%d %d", m.NumSwitchTypes(), m.NumEntries())
	})
	for _, combo := range p.combos {
		for _, cp := range p.cps {
			part("map", func() {
				g, ok := font.Mapping().Utf8(cp, combo)
				w("%d %v %s", cp, combo, groupString(g, ok))
			})
		}
		part("conditions", func() {
			rw := font.Rewrites()
			for i := 0; i < int(rw.NumConditions()); i++ {
				w("%d %v %v", i, combo, rw.EvaluateCondition(uint8(i), combo))
			}
		})
	}
	part("rewrite sets", func() {
		rw := font.Rewrites()
		w("%d %d %d", rw.NumConditions(), rw.NumGlyphSets(), rw.NumUTF8Sets())
		for i := 0; i < int(rw.NumGlyphSets()); i++ {
			set := rw.GetGlyphSet(uint8(i))
			_ = set.EachRange(func(g ggfnt.GlyphRange) error { w("%d-%d", g.First, g.Last); return nil })
			_ = set.EachListGlyph(func(g ggfnt.GlyphIndex) error { w("%d", g); return nil })
		}
		for i := 0; i < int(rw.NumUTF8Sets()); i++ {
			set := rw.GetUtf8Set(uint8(i))
			_ = set.EachRange(func(a, b rune) error { w("%d-%d", a, b); return nil })
			_ = set.EachListRune(func(c rune) error { w("%d", c); return nil })
		}
	})
	part("rules", func() {
		rw := font.Rewrites()
		w("%d %d", rw.NumGlyphRules(), rw.NumUTF8Rules())
		for i := 0; i < min(maxList, int(rw.NumGlyphRules())); i++ {
			ru := rw.GetGlyphRule(uint16(i))
			w("%v", ru.Data)
		}
		for i := 0; i < min(maxList, int(rw.NumUTF8Rules())); i++ {
			ru := rw.GetUtf8Rule(uint16(i))
			w("%v", ru.Data)
		}
	})
	part("kerning", func() {
		k := font.Kerning()
		w("%d %d", k.NumPairs(), k.NumVertPairs())
		n := min(n, 12)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				h, v := k.Get(ggfnt.GlyphIndex(i), ggfnt.GlyphIndex(j)), k.GetVert(ggfnt.GlyphIndex(i), ggfnt.GlyphIndex(j))
				if h != 0 || v != 0 {
					w("%d %d %d %d", i, j, h, v)
				}
			}
		}
	})
	part("kept", func() {
		w("%q %v %s", texts, pal, maskString(first))
		clear(pal)
		scribble(first)
	})
	return sb.String()
}

func maskString(m *image.Alpha) string {
	if m == nil {
		return "nil"
	}
	return fmt.Sprintf("%v %x", m.Rect, m.Pix)
}

func groupString(g ggfnt.GlyphMappingGroup, ok bool) string {
	if !ok {
		return "none"
	}
	s := fmt.Sprintf("%d %d %d:", g.CaseBranch(), g.AnimationFlags(), g.Size())
	for i := 0; i < int(g.Size()); i++ {
		s += fmt.Sprintf(" %d", g.Select(uint8(i)))
	}
	return s
}

// firstDiff describes where two dumps differ.
func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	part := ""
	for i := 0; i < len(la) && i < len(lb); i++ {
		if la[i] != lb[i] {
			return fmt.Sprintf("%s %.160q vs %.160q", part, la[i], lb[i])
		}
		if strings.HasPrefix(la[i], "[") {
			part = la[i]
		}
	}
	return fmt.Sprintf("%d vs %d lines", len(la), len(lb))
}

// exportBytes exports a font in memory.
func exportBytes(r *core.R, font *ggfnt.Font, what string) []byte {
	var buf bytes.Buffer
	if err := font.Export(&buf); err != nil {
		r.Failf("export to healthy writer failed", "%s: %v", what, err)
	}
	return buf.Bytes()
}

// Sections of a font, for compare.
const (
	secHeader = 1 << iota
	secMetrics
	secGlyphs
	secColors
	secSettings
	secMapping
	secRewrites
	secKerning
	secAll = 1<<iota - 1
)

// compare checks that the font reports exactly what the model says.
func compare(r *core.R, font *ggfnt.Font, s *Spec, sections int, what string) {
	section := func(bit int, name string, f func(eq func(field string, got, want any))) {
		if sections&bit == 0 {
			return
		}
		eq := func(field string, got, want any) {
			if got != want {
				r.Failf(name+" mismatch", "%s: %s is %v, expected %v", what, field, got, want)
			}
		}
		if msg := core.Try(func() { f(eq) }); msg != "" {
			r.Failf(name+" query panics", "%s: %s", what, msg)
		}
	}
	section(secHeader, "header", func(eq func(string, any, any)) {
		h := font.Header()
		eq("format version", h.FormatVersion(), uint32(2))
		eq("font id", h.ID(), s.ID)
		eq("major version", h.VersionMajor(), s.Major)
		eq("minor version", h.VersionMinor(), s.Minor)
		eq("first version date", h.FirstVersionDate(), s.FirstDate)
		eq("major version date", h.MajorVersionDate(), s.MajDate)
		eq("minor version date", h.MinorVersionDate(), s.MinDate)
		eq("name", h.Name(), s.Name)
		eq("family", h.Family(), s.Family)
		eq("author", h.Author(), s.Author)
		eq("about", h.About(), s.About)
		eq("validation error", h.Validate(ggfnt.FmtDefault), nil)
	})
	section(secMetrics, "metrics", func(eq func(string, any, any)) {
		m := font.Metrics()
		eq("glyph count", int(m.NumGlyphs()), len(s.Glyphs))
		eq("vert layout", m.HasVertLayout(), s.Vert)
		eq("mono width", m.MonoWidth(), s.Mono)
		eq("monospaced", m.Monospaced(), s.Mono != 0)
		eq("ascent", m.Ascent(), s.Ascent)
		eq("extra ascent", m.ExtraAscent(), s.ExtraAscent)
		eq("descent", m.Descent(), s.Descent)
		eq("extra descent", m.ExtraDescent(), s.ExtraDescent)
		eq("uppercase ascent", m.UppercaseAscent(), s.Upper)
		eq("midline ascent", m.MidlineAscent(), s.Mid)
		eq("horz interspacing", m.HorzInterspacing(), s.HorzInter)
		eq("vert interspacing", m.VertInterspacing(), s.VertInter)
		eq("line gap", m.LineGap(), s.LineGap)
		eq("vert line width", m.VertLineWidth(), s.VertW)
		eq("vert line gap", m.VertLineGap(), s.VertGap)
		eq("line height", m.LineHeight(), int(s.Ascent)+int(s.Descent)+int(s.LineGap))
		eq("vert line full width", m.VertLineFullWidth(), int(s.VertW)+int(s.VertGap))
	})
	section(secGlyphs, "glyphs", func(eq func(string, any, any)) {
		g := font.Glyphs()
		eq("glyph count", int(g.Count()), len(s.Glyphs))
		named := 0
		names := map[string]bool{}
		var held *image.Alpha // a mask is the caller's to keep and to change
		at := -1
		for i, gl := range s.Glyphs {
			if gl.Name != "" {
				named++
				names[gl.Name] = true
				eq("index of glyph "+gl.Name, g.FindIndexByName(gl.Name), ggfnt.GlyphIndex(i))
			}
			want := gl.P
			if !s.Vert {
				want = ggfnt.GlyphPlacement{Advance: gl.P.Advance}
			}
			eq(fmt.Sprintf("placement of glyph %d", i), g.Placement(ggfnt.GlyphIndex(i)), want)
			eq(fmt.Sprintf("advance of glyph %d", i), g.Advance(ggfnt.GlyphIndex(i)), want.Advance)
			if i < 40 || i%16 == 0 || i >= len(s.Glyphs)-2 {
				got := g.RasterizeMask(ggfnt.GlyphIndex(i))
				if diff := maskDiff(got, gl.Mask); diff != "" {
					r.Failf("glyphs mismatch", "%s: pixels of glyph %d: %s", what, i, diff)
				}
				if at >= 0 {
					if diff := maskDiff(held, s.Glyphs[at].Mask); diff != "" {
						r.Failf("glyphs mismatch", "%s: pixels of glyph %d after rasterizing glyph %d: %s", what, at, i, diff)
					}
					scribble(held)
				}
				held, at = got, i
			}
		}
		scribble(held)
		eq("named glyph count", int(g.NamedCount()), named)
		for _, gl := range s.Glyphs {
			if gl.Name == "" {
				continue
			}
			for _, other := range []string{gl.Name + "0", gl.Name[:len(gl.Name)-1], "0" + gl.Name, "zz" + gl.Name} {
				if !names[other] {
					eq("index of undefined glyph name "+other, g.FindIndexByName(other), ggfnt.GlyphMissing)
				}
			}
		}
		if !names["nope"] {
			eq("index of undefined glyph name", g.FindIndexByName("nope"), ggfnt.GlyphMissing)
		}
	})
	section(secColors, "colors", func(eq func(string, any, any)) {
		c := font.Color()
		dyes := s.Dyes
		eq("number of dyes", int(c.NumDyes()), len(dyes))
		eq("number of palettes", int(c.NumPalettes()), len(s.Pals))
		var want []color.Color
		want = append(want, color.RGBA{})
		nd, np := 0, 0
		i := 0
		c.EachDye(func(k ggfnt.DyeKey, name string) {
			eq("dye key", int(k), i)
			if i < len(dyes) {
				eq("dye name", name, dyes[i].Name)
				eq("number of dye alphas", int(c.NumDyeAlphas(k)), len(dyes[i].Alphas))
				j := 0
				c.EachDyeAlpha(k, func(a uint8) {
					if j < len(dyes[i].Alphas) {
						eq(fmt.Sprintf("alpha %d of dye %q", j, name), a, dyes[i].Alphas[j])
					}
					j++
				})
				eq("number of reported dye alphas", j, len(dyes[i].Alphas))
			}
			i++
		})
		eq("number of reported dyes", i, len(dyes))
		for _, y := range dyes {
			nd += len(y.Alphas)
			for _, a := range y.Alphas {
				want = append(want, color.RGBA{a, a, a, a})
			}
		}
		i = 0
		c.EachPalette(func(k ggfnt.PaletteKey, name string) {
			eq("palette key", int(k), i)
			if i < len(s.Pals) {
				eq("palette name", name, s.Pals[i].Name)
				eq("number of palette colors", int(c.NumPaletteColors(k)), len(s.Pals[i].Colors))
				j := 0
				c.EachPaletteColor(k, func(a color.RGBA) {
					if j < len(s.Pals[i].Colors) {
						eq(fmt.Sprintf("color %d of palette %q", j, name), a, s.Pals[i].Colors[j])
					}
					j++
				})
				eq("number of reported palette colors", j, len(s.Pals[i].Colors))
			}
			i++
		})
		eq("number of reported palettes", i, len(s.Pals))
		for _, p := range s.Pals {
			np += len(p.Colors)
			for _, x := range p.Colors {
				want = append(want, x)
			}
		}
		eq("dye indices", int(c.NumDyeIndices()), nd)
		eq("palette indices", int(c.NumPaletteIndices()), np)
		eq("color count", int(c.Count()), nd+np)
		pal, other := c.GoColorPalette(), c.GoColorPalette()
		clear(other) // the caller's
		eq("color palette size", len(pal), len(want))
		for i := range want {
			eq(fmt.Sprintf("color index %d", i), pal[i], want[i])
		}
	})
	section(secSettings, "settings", func(eq func(string, any, any)) {
		st := font.Settings()
		eq("number of settings", int(st.Count()), len(s.Settings))
		i := 0
		st.Each(func(k ggfnt.SettingKey, name string) {
			eq("setting key", int(k), i)
			if i < len(s.Settings) {
				eq("setting name", name, s.Settings[i].Name)
			}
			i++
		})
		eq("number of reported settings", i, len(s.Settings))
		for i, x := range s.Settings {
			eq("number of options of "+x.Name, int(st.GetNumOptions(ggfnt.SettingKey(i))), len(x.Options))
			for j, o := range x.Options {
				eq(fmt.Sprintf("option %d of %s", j, x.Name), st.GetOptionName(ggfnt.SettingKey(i), uint8(j)), o)
			}
		}
		if len(s.Settings) < 255 {
			eq("options of undefined setting", st.GetNumOptions(ggfnt.SettingKey(len(s.Settings))), uint8(0))
		}
	})
	section(secMapping, "mapping", func(eq func(string, any, any)) {
		m := font.Mapping()
		eq("number of switches", int(m.NumSwitchTypes()), len(s.Switches))
		eq("number of mapping entries", int(m.NumEntries()), len(s.Maps))
		max := 40
		if len(s.Maps) > 200 {
			max = 4
		}
		p := s.probes(r, max)
		for _, combo := range p.combos {
			cache := ggfnt.NewSettingsCache(font)
			for k, v := range combo {
				cache.Set(ggfnt.SettingKey(k), v)
			}
			for i, sw := range s.Switches {
				eq(fmt.Sprintf("case of switch %d with settings %v", i, combo), int(m.EvaluateSwitch(uint8(i), combo)), s.switchCase(sw, combo))
			}
			for _, cp := range p.cps {
				want := s.lookup(cp, combo)
				g, ok := m.Utf8(cp, combo)
				eq(fmt.Sprintf("Utf8(%d) with settings %v", cp, combo), groupString(g, ok), want)
				g, ok = m.Utf8WithCache(cp, cache)
				eq(fmt.Sprintf("Utf8WithCache(%d) with settings %v", cp, combo), groupString(g, ok), want)
				if cp >= 0 && cp < 128 {
					g, ok = m.Ascii(byte(cp), combo)
					eq(fmt.Sprintf("Ascii(%d) with settings %v", cp, combo), groupString(g, ok), want)
				}
			}
		}
	})
	section(secRewrites, "rewrites", func(eq func(string, any, any)) {
		rw := font.Rewrites()
		eq("number of conditions", int(rw.NumConditions()), len(s.Conds))
		eq("number of utf8 sets", int(rw.NumUTF8Sets()), len(s.RuneSets))
		eq("number of glyph sets", int(rw.NumGlyphSets()), len(s.GlyphSets))
		eq("number of utf8 rules", int(rw.NumUTF8Rules()), len(s.URules))
		eq("number of glyph rules", int(rw.NumGlyphRules()), len(s.GRules))
		if len(s.Conds) > 0 {
			max := 60
			if len(s.Conds) > 20 {
				max = 10
			}
			for _, combo := range s.combos(r, max) {
				for i, c := range s.Conds {
					eq(fmt.Sprintf("condition %d with settings %v", i, combo), rw.EvaluateCondition(uint8(i), combo), c.eval(combo))
				}
			}
		}
		for i, st := range s.RuneSets {
			set := rw.GetUtf8Set(uint8(i))
			var got setSpec
			_ = set.EachRange(func(a, b rune) error { got.Ranges = append(got.Ranges, rangeSpec{uint32(a), uint32(b)}); return nil })
			_ = set.EachListRune(func(c rune) error { got.List = append(got.List, uint32(c)); return nil })
			eq(fmt.Sprintf("utf8 set %d", i), fmt.Sprint(got), fmt.Sprint(st))
		}
		for i, st := range s.GlyphSets {
			set := rw.GetGlyphSet(uint8(i))
			var got setSpec
			_ = set.EachRange(func(g ggfnt.GlyphRange) error {
				got.Ranges = append(got.Ranges, rangeSpec{uint32(g.First), uint32(g.Last)})
				return nil
			})
			_ = set.EachListGlyph(func(g ggfnt.GlyphIndex) error { got.List = append(got.List, uint32(g)); return nil })
			eq(fmt.Sprintf("glyph set %d", i), fmt.Sprint(got), fmt.Sprint(st))
		}
		for i, ru := range s.URules {
			x := rw.GetUtf8Rule(uint16(i))
			var out []uint32
			x.EachOut(func(c rune) { out = append(out, uint32(c)) })
			checkRule(r, what, fmt.Sprintf("utf8 rule %d", i), ru, []int{int(x.Condition()), int(x.HeadLen()), int(x.BodyLen()), int(x.TailLen()), int(x.InLen()), int(x.OutLen())}, out, x.Data, true)
			eq("rule equality", x.Equals(rw.GetUtf8Rule(uint16(i))), true)
		}
		for i, ru := range s.GRules {
			x := rw.GetGlyphRule(uint16(i))
			var out []uint32
			x.EachOut(func(c ggfnt.GlyphIndex) { out = append(out, uint32(c)) })
			checkRule(r, what, fmt.Sprintf("glyph rule %d", i), ru, []int{int(x.Condition()), int(x.HeadLen()), int(x.BodyLen()), int(x.TailLen()), int(x.InLen()), int(x.OutLen())}, out, x.Data, false)
			eq("rule equality", x.Equals(rw.GetGlyphRule(uint16(i))), true)
		}
	})
	section(secKerning, "kerning", func(eq func(string, any, any)) {
		k := font.Kerning()
		eq("number of pairs", int(k.NumPairs()), len(s.HKern))
		eq("number of vert pairs", int(k.NumVertPairs()), len(s.VKern))
		check := func(a, b uint16) {
			eq(fmt.Sprintf("kerning of %d, %d", a, b), k.Get(ggfnt.GlyphIndex(a), ggfnt.GlyphIndex(b)), s.HKern[[2]uint16{a, b}])
			eq(fmt.Sprintf("vert kerning of %d, %d", a, b), k.GetVert(ggfnt.GlyphIndex(a), ggfnt.GlyphIndex(b)), s.VKern[[2]uint16{a, b}])
		}
		n := len(s.Glyphs)
		if n <= 24 {
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					check(uint16(a), uint16(b))
				}
			}
		}
		for _, m := range []map[[2]uint16]int8{s.HKern, s.VKern} {
			for _, p := range sortedPairs(m) {
				check(p[0], p[1])
				check(p[1], p[0])
				check(p[0], p[1]+1)
				check(p[0]+1, p[1])
			}
		}
		check(0, 0)
		check(uint16(n-1), uint16(n-1))
		check(0xFFFF, 0xFFFF)
	})
}

// checkRule decodes the rule's data independently and compares.
func checkRule(r *core.R, what, name string, ru ruleSpec, head []int, out []uint32, data []byte, runes bool) {
	want := []int{int(ru.Cond), len(ru.Head), len(ru.Body), len(ru.Tail), len(ru.Head) + len(ru.Body) + len(ru.Tail), len(ru.Out)}
	if fmt.Sprint(head) != fmt.Sprint(want) {
		r.Failf("rewrites mismatch", "%s: %s has condition/head/body/tail/in/out %v, expected %v", what, name, head, want)
	}
	if fmt.Sprint(out) != fmt.Sprint(ru.Out) {
		r.Failf("rewrites mismatch", "%s: %s has output %v, expected %v", what, name, out, ru.Out)
	}
	got, ok := decodeRule(data, runes)
	if !ok || fmt.Sprint(got) != fmt.Sprint(ru) {
		r.Failf("rewrites mismatch", "%s: %s is stored as %v (valid: %v), expected %v", what, name, got, ok, ru)
	}
}

// decodeRule reads a rule according to the specification.
func decodeRule(d []byte, runes bool) (ru ruleSpec, ok bool) {
	if len(d) < 5 {
		return ru, false
	}
	size := 2
	if runes {
		size = 4
	}
	ru.Cond = d[0]
	lens := []int{int(d[1]), int(d[2]), int(d[3])}
	nout := int(d[4])
	d = d[5:]
	val := func() (v uint32, ok bool) {
		if len(d) < size {
			return 0, false
		}
		for i := 0; i < size; i++ {
			v |= uint32(d[i]) << (8 * i)
		}
		d = d[size:]
		return v, true
	}
	for i := 0; i < nout; i++ {
		v, ok := val()
		if !ok {
			return ru, false
		}
		ru.Out = append(ru.Out, v)
	}
	blocks := []*[]elem{&ru.Head, &ru.Body, &ru.Tail}
	for i, b := range blocks {
		if lens[i] == 0 {
			if len(d) == 0 || d[0] != 0 {
				return ru, false
			}
			d = d[1:]
			continue
		}
		for len(*b) < lens[i] {
			if len(d) == 0 {
				return ru, false
			}
			ns, ne := int(d[0]>>4), int(d[0]&15)
			if ns+ne == 0 {
				return ru, false
			}
			d = d[1:]
			for ; ns > 0; ns-- {
				if len(d) == 0 {
					return ru, false
				}
				*b = append(*b, elem{true, uint32(d[0])})
				d = d[1:]
			}
			for ; ne > 0; ne-- {
				v, ok := val()
				if !ok {
					return ru, false
				}
				*b = append(*b, elem{false, v})
			}
		}
		if len(*b) > lens[i] {
			return ru, false
		}
	}
	return ru, len(d) == 0
}

func (s *Spec) switchCase(sw []uint8, settings []uint8) int {
	c := 0
	for _, k := range sw {
		c = c*len(s.Settings[k].Options) + int(settings[k])
	}
	return c
}

// lookup is the reference mapping result.
func (s *Spec) lookup(cp rune, settings []uint8) string {
	m, ok := s.Maps[cp]
	if !ok {
		return "none"
	}
	c := 0
	if m.Switch < 254 {
		c = s.switchCase(s.Switches[m.Switch], settings)
	}
	g := m.Groups[c]
	fl := g.Flags
	if len(g.Glyphs) == 1 {
		fl = 0
	}
	out := fmt.Sprintf("%d %d %d:", c, fl, len(g.Glyphs))
	for _, x := range g.Glyphs {
		out += fmt.Sprintf(" %d", x)
	}
	return out
}

// scribble draws over a mask.
func scribble(m *image.Alpha) {
	if m != nil {
		for i := range m.Pix {
			m.Pix[i] = ^m.Pix[i]
		}
	}
}

func maskDiff(got, want *image.Alpha) string {
	var rect image.Rectangle
	if got != nil {
		rect = got.Rect
	}
	if want != nil {
		rect = rect.Union(want.Rect)
	}
	for y := rect.Min.Y; y < rect.Max.Y; y++ {
		for x := rect.Min.X; x < rect.Max.X; x++ {
			var a, b uint8
			if got != nil {
				a = got.AlphaAt(x, y).A
			}
			if want != nil {
				b = want.AlphaAt(x, y).A
			}
			if a != b {
				return fmt.Sprintf("value %d at (%d, %d), expected %d", a, x, y, b)
			}
		}
	}
	return ""
}

func cloneMask(m *image.Alpha) *image.Alpha {
	c := *m
	c.Pix = append([]byte(nil), m.Pix...)
	return &c
}
