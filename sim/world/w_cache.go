package world

import (
	"bytes"
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/rerules"

	"verif.local/sim/core"
)

// ---- C20: mapping and settings caches ----

// cacheFont is a font with settings caches for it.
type cacheFont struct {
	spec  *Spec
	font  *ggfnt.Font
	cps   []rune
	users []*cacheUser
}

// cacheUser is a settings cache with the settings it must have.
type cacheUser struct {
	f        *cacheFont
	name     string
	sc       *ggfnt.SettingsCache
	settings []uint8
}

// mapUser is a mapping cache and the settings cache it is used with.
type mapUser struct {
	mc   *ggfnt.MappingCache
	u    *cacheUser
	size int
}

// genCacheSpec draws a font for which caching matters.
func genCacheSpec(r *core.R) *Spec {
	var s *Spec
	if r.Bool(1, 4) {
		s = genSpec(r)
		if len(s.Glyphs) == 0 {
			s = plainSpec(r, 4)
		}
	} else {
		s = plainSpec(r, 1+r.Small(40))
	}
	if len(s.Settings) == 0 && r.Bool(9, 10) {
		genSettings(r, s, 1+r.Small(12))
		if r.Bool(1, 40) {
			genSettings(r, s, 200)
		}
		genSwitches(r, s)
	}
	if len(s.Maps) < 3 {
		s.Maps = map[rune]mapSpec{}
		genMaps(r, s, 1+r.Small(30))
	}
	if len(s.Conds) == 0 && len(s.Settings) > 0 {
		for n := r.Small(10); n > 0; n-- {
			s.Conds = append(s.Conds, genCond(r, len(s.Settings), 2))
		}
	}
	if r.Bool(1, 3) { // the zero code point
		for _, cp := range s.codePoints() {
			s.Maps[0] = s.Maps[cp]
			break
		}
	}
	return s
}

func (u *cacheUser) sees(r *core.R, cp rune, name string, g ggfnt.GlyphMappingGroup, ok bool) {
	want := u.f.spec.lookup(cp, u.settings)
	if got := groupString(g, ok); got != want {
		r.Failf("wrong mapping", "%s, code point %d, settings %v: got %s, expected %s", name, cp, u.settings, got, want)
	}
}

func runCaches(r *core.R) {
	var fonts []*cacheFont
	for n := 1 + r.Pick(3, 1); n > 0; n-- {
		f := &cacheFont{spec: genCacheSpec(r)}
		f.font = loadSpec(r, f.spec)
		f.cps = append(f.spec.codePoints(), -1, 0, 0x10FFFF, genCodePoint(r))
		for k := 1 + r.Pick(3, 1); k > 0; k-- {
			f.users = append(f.users, &cacheUser{f: f, name: fmt.Sprintf("font %d settings %d", len(fonts), len(f.users)),
				sc: ggfnt.NewSettingsCache(f.font), settings: make([]uint8, len(f.spec.Settings))})
		}
		fonts = append(fonts, f)
	}
	drawUser := func() *cacheUser {
		f := fonts[r.N(len(fonts))]
		return f.users[r.N(len(f.users))]
	}
	before := make([][]byte, len(fonts))
	for i, f := range fonts {
		before[i] = exportBytes(r, f.font, "font")
	}
	var maps []*mapUser
	newMap := func() {
		u := drawUser()
		size := 1 + r.Small(6)
		switch r.N(6) {
		case 0:
			size = 192
		case 1:
			size = len(u.f.cps)
		case 2:
			if r.Bool(1, 50) {
				size = 65000
			}
		}
		maps = append(maps, &mapUser{ggfnt.NewMappingCache(u.f.font, size), u, size})
		r.Logf("mapping cache %d: size %d, %s", len(maps)-1, size, u.name)
	}
	newMap()
	evicted, stale := false, false
	get := func(m *mapUser, cp rune) {
		g, ok := m.mc.Get(cp, m.u.sc)
		r.Logf("get %d: %s", cp, groupString(g, ok))
		m.u.sees(r, cp, "mapping cache", g, ok)
		if r.Bool(1, 3) {
			g, ok = m.u.f.font.Mapping().Utf8(cp, m.u.settings)
			m.u.sees(r, cp, "no cache", g, ok)
			g, ok = m.u.f.font.Mapping().Utf8WithCache(cp, m.u.sc)
			m.u.sees(r, cp, "settings cache", g, ok)
			if cp >= 0 && cp < 128 {
				g, ok = m.u.f.font.Mapping().Ascii(byte(cp), m.u.settings)
				m.u.sees(r, cp, "ascii", g, ok)
			}
		}
	}
	conds := func(u *cacheUser, i int) {
		got, cached := u.sc.GetRewriteCondition(uint8(i))
		want := true
		if i < 255 {
			want = u.f.spec.Conds[i].eval(u.settings)
			if direct := u.f.font.Rewrites().EvaluateCondition(uint8(i), u.settings); direct != want {
				r.Failf("wrong condition", "%s, condition %d, settings %v: evaluated to %v, expected %v", u.name, i, u.settings, direct, want)
			}
		} else if !cached {
			r.Failf("wrong condition", "the default condition is not cached")
		}
		if cached && got != want {
			r.Failf("wrong condition", "%s, condition %d, settings %v: cached as %v, expected %v", u.name, i, u.settings, got, want)
		}
		if cached {
			r.Probe("cached condition used")
		} else {
			u.sc.CacheRewriteCondition(uint8(i), want)
			if got, cached = u.sc.GetRewriteCondition(uint8(i)); !cached || got != want {
				r.Failf("wrong condition", "%s, condition %d cached as %v, but obtained %v %v", u.name, i, want, got, cached)
			}
		}
		r.Logf("condition %d: %v %v", i, got, cached)
	}
	cases := func(u *cacheUser, i int) {
		want := u.f.spec.switchCase(u.f.spec.Switches[i], u.settings)
		if got := int(u.f.font.Mapping().EvaluateSwitch(uint8(i), u.settings)); got != want {
			r.Failf("wrong switch case", "%s, switch %d, settings %v: evaluated to %d, expected %d", u.name, i, u.settings, got, want)
		}
		got, cached := u.sc.GetMappingCase(uint8(i))
		if cached && int(got) != want {
			r.Failf("wrong switch case", "%s, switch %d, settings %v: cached as %d, expected %d", u.name, i, u.settings, got, want)
		}
		if !cached && r.Bool(1, 2) {
			u.sc.CacheMappingCase(uint8(i), uint8(want))
			if got, cached = u.sc.GetMappingCase(uint8(i)); !cached || int(got) != want {
				r.Failf("wrong switch case", "%s, switch %d cached as %d, but obtained %d %v", u.name, i, want, got, cached)
			}
		}
		r.Logf("switch %d: %d", i, want)
	}
	drop := func(u *cacheUser) {
		for _, m := range maps {
			if m.u == u {
				m.mc.Drop()
			}
		}
	}
	ops := 3 + r.Small(60)
	if r.Bool(1, 200) {
		ops = 3000
		r.Probe("long history")
	}
	hot := drawUser()
	for ; ops > 0; ops-- {
		m := maps[r.N(len(maps))]
		switch r.Pick(40, 12, 5, 3, 6, 4, 4, 3) {
		case 0: // lookups
			for n := 1 + r.Small(2*min(m.size, 40)); n > 0; n-- {
				get(m, m.u.f.cps[r.N(len(m.u.f.cps))])
			}
			if len(m.u.f.spec.Maps) > m.size {
				evicted = true
			}
		case 1: // a setting changes
			u := drawUser()
			if r.Bool(1, 2) {
				u = hot
			}
			if len(u.settings) == 0 {
				break
			}
			k := r.N(len(u.settings))
			option := uint8(r.N(len(u.f.spec.Settings[k].Options)))
			// what it must have an effect on
			old := u.settings[k]
			changes := func() (mapping, cond bool) {
				for _, sw := range u.f.spec.Switches {
					u.settings[k] = old
					a := u.f.spec.switchCase(sw, u.settings)
					u.settings[k] = option
					mapping = mapping || a != u.f.spec.switchCase(sw, u.settings)
				}
				for _, c := range u.f.spec.Conds {
					u.settings[k] = old
					a := c.eval(u.settings)
					u.settings[k] = option
					cond = cond || a != c.eval(u.settings)
				}
				return
			}
			needM, needC := changes()
			u.settings[k] = option
			gotM, gotC := u.sc.Set(ggfnt.SettingKey(k), option)
			r.Logf("%s: setting %d = %d: %v %v", u.name, k, option, gotM, gotC)
			if needM && !gotM {
				r.Failf("effect not reported", "%s: setting %d changed from %d to %d, which changes switches, but mappings reported as unaffected", u.name, k, old, option)
			}
			if needC && !gotC {
				r.Failf("effect not reported", "%s: setting %d changed from %d to %d, which changes conditions, but they were reported as unaffected", u.name, k, old, option)
			}
			if gotM {
				drop(u)
				stale = true
			}
			if r.Bool(1, 40) { // as many times as some counter could count
				n := 256<<(8*r.Pick(4, 1)) - r.Pick(4, 1)
				again := r.N(3)
				all := len(u.f.spec.Settings[k].Options)
				for k2 := 1; k2 < n; k2++ {
					if again > 0 {
						o := option
						if again == 2 {
							o = uint8((int(option) + n - 1 - k2) % all)
						}
						m, _ := u.sc.Set(ggfnt.SettingKey(k), o)
						gotM = gotM || m
					}
					if gotM {
						drop(u)
					}
				}
				r.Probe("many changes in a row")
				r.Logf("%d times (%d)", n, again)
			}
		case 2: // drops that weren't needed
			m.mc.Drop()
			r.Fault("spurious drop")
		case 3: // another font, or the same
			m.u = drawUser()
			m.mc.Reset(m.u.f.font)
			r.Logf("reset for %s", m.u.name)
			r.Fault("cache reset")
		case 4: // conditions
			u := drawUser()
			if n := len(u.f.spec.Conds); n > 0 {
				for k := 1 + r.N(4); k > 0; k-- {
					conds(u, r.N(n))
				}
			}
			conds(u, 255)
		case 5: // switches
			u := drawUser()
			if n := len(u.f.spec.Switches); n > 0 {
				for k := 1 + r.N(4); k > 0; k-- {
					cases(u, r.N(n))
				}
			}
			for _, i := range []uint8{254, 255} {
				if c, cached := u.sc.GetMappingCase(i); c != 0 || !cached {
					r.Failf("wrong switch case", "switch %d: %d %v", i, c, cached)
				}
			}
		case 6: // a tester with the same settings
			u := drawUser()
			if len(u.f.spec.GRules) == 0 {
				break
			}
			var t rerules.GlyphTester
			rw := u.f.font.Rewrites()
			for i := 0; i < min(254, int(rw.NumGlyphRules())); i++ {
				if err := t.AddRule(rw.GetGlyphRule(uint16(i))); err != nil {
					r.Failf("rule refused", "%v", err)
				}
			}
			if err := t.BeginSequence(u.f.font, u.sc); err == nil {
				t.FinishSequence(func(ggfnt.GlyphIndex) {})
			}
			r.Probe("tester with the same settings")
		case 7: // another mapping cache, or the same cache with another user of the font
			if len(maps) < 4 && r.Bool(1, 2) {
				newMap()
				break
			}
			m.u = m.u.f.users[r.N(len(m.u.f.users))]
			m.mc.Drop()
			r.Logf("now with %s", m.u.name)
			r.Fault("settings cache replaced")
		}
	}
	// everything at the end
	for _, f := range fonts {
		for _, u := range f.users {
			if !bytes.Equal(u.sc.UnsafeSlice(), u.settings) {
				r.Failf("wrong settings", "%s: %v, expected %v", u.name, u.sc.UnsafeSlice(), u.settings)
			}
			for k, v := range u.settings {
				if got := u.sc.Get(ggfnt.SettingKey(k)); got != v {
					r.Failf("wrong settings", "%s: setting %d is %d, expected %d", u.name, k, got, v)
				}
			}
			if k := len(u.settings); k < 256 {
				if got := u.sc.Get(ggfnt.SettingKey(k)); got != 0 {
					r.Failf("wrong settings", "%s: undefined setting %d is %d", u.name, k, got)
				}
			}
			for i := range f.spec.Conds {
				conds(u, i)
			}
			for i := range f.spec.Switches {
				cases(u, i)
			}
		}
	}
	for _, m := range maps {
		for _, cp := range m.u.f.cps {
			get(m, cp)
		}
	}
	for i, f := range fonts {
		if after := exportBytes(r, f.font, "font"); !bytes.Equal(before[i], after) {
			r.Failf("font changed by caches", "%s", payloadDiff(before[i], after))
		}
	}
	if evicted {
		r.Probe("more code points than entries")
	}
	if stale {
		r.Nontrivial()
	}
}

func init() {
	core.Register(&core.World{ID: "C20", QuickRuns: 60000, Run: runCaches,
		Rule:        "one seeded history of lookups, setting changes, drops, resets and evaluations on one or two fonts with one or two settings caches each and up to four mapping caches of any size, each answer compared with the model and the uncached font; non-trivial if settings changed under a mapping cache",
		Faults:      []string{"spurious drop", "cache reset", "settings cache replaced"},
		MustProbe:   []string{"more code points than entries", "cached condition used", "long history", "tester with the same settings", "many changes in a row"},
		Real:        []string{"MappingCache", "SettingsCache", "FontMapping, FontRewrites and FontSettings accessors", "Parse"},
		Stub:        []string{"none (no clock, entropy or I/O takes part)"},
		Measure:     "distinct traces",
		Assumptions: []string{"mapping caches are dropped whenever Set reports that mappings are affected, and reset with settings of the same font"},
	})
}
