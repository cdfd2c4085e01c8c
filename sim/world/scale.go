package world

import (
	"fmt"
	"image"
	"image/color"
	"slices"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/mask"

	"verif.local/sim/core"
)

// Big tables: the format has counts and offsets of 8, 16 and 24 bits, so its
// edges are only reached by fonts with hundreds or thousands of entries. All of
// this derives from a few draws, to keep tapes short.

func bulkSize(r *core.R) int { return []int{130, 260, 700, 2300, 6000}[r.Pick(4, 4, 3, 3, 1)] }

var fontLimit = map[int]int{edGlyphs: 7000, edMapping: 12000, edKerning: 80000, edRewrites: 3000}

// bulkMasks gives a few small masks that fit the metrics.
func (a *author) bulkMasks(sub *core.Sub) []*image.Alpha {
	var out []*image.Alpha
	for k := 0; k < 3; k++ {
		m := image.NewAlpha(image.Rect(0, 0, 1, 1))
		if up := int(a.m.Ascent) + int(a.m.ExtraAscent); up >= 3 && (a.m.Mono == 0 || a.m.Mono >= 3) {
			m = image.NewAlpha(image.Rect(0, -3, 3, 0))
			for i := range m.Pix {
				m.Pix[i] = uint8(255 * sub.N(2))
			}
		}
		out = append(out, m)
	}
	return out
}

func bulkName(sub *core.Sub, prefix string, i int) string {
	name := fmt.Sprintf("%s%d", prefix, i)
	if sub.N(2) == 0 {
		return name
	}
	return name + "-abcdefghijklmnopqrstuvwxyz"[:min(26, 32-len(name)-sub.N(8))-1] + "z"
}

// bulk makes many edits of one kind at once.
func (a *author) bulk(kind int) {
	r, m := a.r, &a.m
	a.entropy = nil
	n := bulkSize(r)
	sub := r.Sub()
	switch kind {
	case edGlyphs:
		n = min(n, fontLimit[edGlyphs]-len(a.uids))
		if n <= 0 {
			return
		}
		masks := a.bulkMasks(sub)
		named := 1 + sub.N(3)
		base := len(m.Glyphs)
		var names []string
		for i := 0; i < n; i++ {
			name := ""
			if sub.N(named) == 0 {
				name = bulkName(sub, "G", base+i)
			}
			names = append(names, name)
		}
		var uids []uint64
		if !a.edit(true, fmt.Sprintf("add %d glyphs", n), func(e env) error {
			uids = uids[:0]
			for i, name := range names {
				uid, err := e.b.AddGlyph(cloneMask(masks[i%3]))
				if err != nil {
					return err
				}
				e.made(uid)
				if e.b == a.b {
					uids = append(uids, uid)
				}
				if name != "" {
					if err := e.b.SetGlyphName(uid, name); err != nil {
						return err
					}
				}
			}
			return nil
		}) {
			return
		}
		for i, uid := range uids {
			if _, dup := a.index[uid]; dup {
				r.Failf("identifier is not unique", "AddGlyph returned %d, which is already in use", uid)
			}
			a.index[uid] = len(a.uids)
			a.uids = append(a.uids, uid)
			dx := masks[i%3].Rect.Dx()
			m.Glyphs = append(m.Glyphs, glyphSpec{Name: names[i], P: ggfnt.GlyphPlacement{Advance: uint8(dx), TopAdvance: m.Ascent, BottomAdvance: m.Descent, HorzCenter: uint8(dx / 2)}, Mask: masks[i%3]})
		}
		r.Probe("hundreds of glyphs")
	case edColors:
		total := 0
		for _, y := range m.Dyes {
			total += len(y.Alphas)
		}
		for _, p := range m.Pals {
			total += len(p.Colors)
		}
		each := 1 + sub.N(5)
		pals := sub.N(3) // only dyes, only palettes, or both
		for i := 0; total+each <= 255; i++ {
			name := bulkName(sub, "C", i)
			used := slices.ContainsFunc(m.Dyes, func(y dyeSpec) bool { return y.Name == name }) || slices.ContainsFunc(m.Pals, func(p palSpec) bool { return p.Name == name })
			if used {
				continue
			}
			if pals == 1 || pals == 2 && i%2 == 0 {
				var c []color.RGBA
				for k := 0; k < each; k++ {
					v := sub.U64()
					c = append(c, color.RGBA{uint8(v), uint8(v >> 8), uint8(v >> 16), uint8(v >> 24)})
				}
				if a.edit(true, fmt.Sprintf("AddPalette(%q, %d colors)", name, each), func(e env) error { return e.b.AddPalette(name, slices.Clone(c)...) }) {
					m.Pals = append(m.Pals, palSpec{name, c})
				}
			} else {
				var c []uint8
				for k := 0; k < each; k++ {
					c = append(c, uint8(sub.U64()))
				}
				if a.edit(true, fmt.Sprintf("AddDye(%q, %d alphas)", name, each), func(e env) error { return e.b.AddDye(name, slices.Clone(c)...) }) {
					m.Dyes = append(m.Dyes, dyeSpec{name, c})
				}
			}
			total += each
		}
		r.Probe("all color indices in use")
	case edSettings:
		a.bulkSettings(sub, min(255, len(m.Settings)+n), sub.N(3) == 0)
		a.bulkSwitches(sub)
	case edMapping:
		if len(a.uids) == 0 {
			return
		}
		if len(m.Settings) < 130 && sub.N(2) == 0 {
			a.bulkSettings(sub, 130+sub.N(126), false)
		}
		a.bulkSwitches(sub)
		n = min(n*2, fontLimit[edMapping]-len(m.Maps))
		if n <= 0 {
			return
		}
		first := rune([]int{' ', 0x3000, 0x10FFFF - n}[sub.N(3)])
		maps := map[rune]mapSpec{}
		var order []rune
		for i := 0; i < n; i++ {
			cp := first + rune(i)*rune(1+sub.N(2))
			if cp > 0x10FFFF {
				continue
			}
			ms := mapSpec{Switch: 255, Groups: []groupSpec{bulkGroup(sub, len(a.uids), 1)}}
			switch {
			case sub.N(3) == 0 && len(m.Switches) > 0:
				sw := sub.N(len(m.Switches))
				if c := m.cases(m.Switches[sw]); c < 30 {
					ms.Switch, ms.Groups = uint8(sw), nil
					for k := 0; k < c; k++ {
						ms.Groups = append(ms.Groups, bulkGroup(sub, len(a.uids), 1+sub.N(3)))
					}
				}
			case sub.N(3) == 0:
				ms.Switch, ms.Groups[0] = 254, bulkGroup(sub, len(a.uids), 2+sub.N(12))
			}
			if _, dup := maps[cp]; !dup {
				order = append(order, cp)
			}
			maps[cp] = ms
		}
		if a.edit(true, fmt.Sprintf("map %d code points", len(order)), func(e env) error {
			for _, cp := range order {
				ms := maps[cp]
				var gs [][]uint64
				var fls []ggfnt.AnimationFlags
				for _, g := range ms.Groups {
					var ids []uint64
					for _, x := range g.Glyphs {
						ids = append(ids, e.tr(a.uids[x]))
					}
					gs = append(gs, ids)
					if len(ids) > 1 {
						fls = append(fls, g.Flags)
					}
				}
				var err error
				switch ms.Switch {
				case 255:
					err = e.b.Map(cp, gs[0][0])
				case 254:
					err = e.b.MapGroup(cp, fls[0], gs[0]...)
				default:
					err = e.b.MapWithSwitch(cp, ms.Switch, gs, fls)
				}
				if err != nil {
					return err
				}
			}
			return nil
		}) {
			for cp, ms := range maps {
				m.Maps[cp] = ms
			}
		}
		r.Probe("hundreds of mappings")
	case edRewrites:
		if len(a.uids) == 0 {
			return
		}
		for len(a.sets) < 200 && sub.N(150) != 0 {
			a.bulkSet(sub)
		}
		n = min(n, fontLimit[edRewrites]-len(a.rules))
		long := 1 + sub.N(60)
		for i := 0; i < n; i++ {
			ru := authorRule{head: sub.N(3), body: 1 + sub.N(long), tail: sub.N(3)}
			for k := ru.head + ru.body + ru.tail; k > 0; k-- {
				if len(a.sets) > 0 && sub.N(4) == 0 {
					ru.in = append(ru.in, a.sets[sub.N(len(a.sets))].uid)
				} else {
					ru.in = append(ru.in, a.uids[sub.N(len(a.uids))])
				}
			}
			for k := 1 + sub.N(ru.body); k > 0; k-- {
				ru.out = append(ru.out, uint16(sub.N(len(a.uids))))
			}
			if err := a.do(func(e env) error {
				in := make([]uint64, len(ru.in))
				for i, uid := range ru.in {
					in[i] = e.tr(uid)
				}
				out := make([]uint64, len(ru.out))
				for i, g := range ru.out {
					out[i] = e.tr(a.uids[g])
				}
				return e.b.AddGlyphRewriteRule(uint8(ru.head), uint8(ru.body), uint8(ru.tail), in, out...)
			}); err != nil {
				r.Failf("valid edit refused", "AddGlyphRewriteRule(%d, %d, %d): %v", ru.head, ru.body, ru.tail, err)
			}
			a.rules = append(a.rules, ru)
			if sub.N(3) == 0 {
				seq := make([]rune, 1+sub.N(long))
				rs := ruleSpec{Cond: 255, Out: []uint32{uint32(' ' + sub.N(0x10000))}}
				for i := range seq {
					seq[i] = rune(' ' + sub.N(0x10000))
					rs.Body = append(rs.Body, elem{false, uint32(seq[i])})
				}
				if err := a.do(func(e env) error { return e.b.AddSimpleUtf8RewriteRule(rune(rs.Out[0]), slices.Clone(seq)...) }); err != nil {
					r.Failf("valid edit refused", "AddSimpleUtf8RewriteRule: %v", err)
				}
				m.URules = append(m.URules, rs)
			}
		}
		a.accepted += n
		r.Logf("add %d rules", n)
		r.Probe("hundreds of rewrite rules")
	case edKerning:
		if len(a.uids) < 40 {
			a.bulk(edGlyphs)
		}
		if sub.N(12) == 0 {
			n = 70000
		}
		g := len(a.uids)
		pairs := map[[2]int]bool{}
		var order [][2]int
		var vals []int8
		for i := 0; i < min(n, g*g/2); i++ {
			p := [2]int{sub.N(g), sub.N(g)}
			v := int8(sub.N(256) - 128)
			if !pairs[p] && v != 0 {
				pairs[p] = true
				order = append(order, p)
				vals = append(vals, v)
			}
		}
		a.edit(true, fmt.Sprintf("set %d kerning pairs", len(order)), func(e env) error {
			for i, p := range order {
				e.b.SetKerningPair(e.tr(a.uids[p[0]]), e.tr(a.uids[p[1]]), vals[i])
			}
			return nil
		})
		for i, p := range order {
			a.hk[[2]uint64{a.uids[p[0]], a.uids[p[1]]}] = kern{vals[i], 0}
		}
		r.Probe("hundreds of kerning pairs")
	case edEdition:
		if len(a.uids) < 40 {
			a.bulk(edGlyphs)
		}
		ed := &editionSpec{ID: m.ID}
		nc := n
		if sub.N(6) == 0 {
			nc = 65535
		}
		for i := 0; i < nc; i++ {
			ed.Names = append(ed.Names, "c")
			ed.Values = append(ed.Values, int8(sub.N(256)))
		}
		for i := 0; i < n; i++ {
			for _, list := range []*[]editionPair{&ed.H, &ed.V} {
				*list = append(*list, editionPair{sub.N(len(a.uids)), sub.N(len(a.uids)), 1 + sub.N(nc)})
			}
		}
		file := wrap(editionSig, ed.Encode(), 1+sub.N(9))
		a.loadEdition(file, ed, drawDelivery(r, len(file)))
		r.Probe("hundreds of kerning classes")
	}
}

func bulkGroup(sub *core.Sub, glyphs, n int) (g groupSpec) {
	if sub.N(40) == 0 && n > 1 {
		n = 126 + sub.N(2)
	}
	if n > 1 {
		g.Flags = ggfnt.AnimationFlags(sub.N(256))
	}
	base := sub.N(glyphs)
	consecutive := base+n <= glyphs && sub.N(2) == 0
	for i := 0; i < n; i++ {
		x := base + i
		if !consecutive {
			x = sub.N(glyphs)
		}
		g.Glyphs = append(g.Glyphs, uint16(x))
	}
	return g
}

// bulkSettings adds settings up to a count; with big, most of them with so
// many options that the offsets of the option lists pass 32767.
func (a *author) bulkSettings(sub *core.Sub, upTo int, big bool) {
	m := &a.m
	for i := 0; len(m.Settings) < upTo && i < 600; i++ {
		st := settingSpec{Name: bulkName(sub, "S", i)}
		if slices.ContainsFunc(m.Settings, func(s settingSpec) bool { return s.Name == st.Name }) {
			continue
		}
		options := 1 + sub.N(5)
		if big && sub.N(8) > 0 {
			options = 255 - sub.N(20)
		}
		for k := options; k > 0; k-- {
			st.Options = append(st.Options, genWords[sub.N(len(genWords))])
		}
		if a.edit(true, fmt.Sprintf("AddSetting(%q)", st.Name), func(e env) error {
			_, err := e.b.AddSetting(st.Name, slices.Clone(st.Options)...)
			return err
		}) {
			m.Settings = append(m.Settings, st)
		}
	}
	if len(m.Settings) >= 128 {
		a.r.Probe("over 127 settings")
	}
	total := 0
	for _, st := range m.Settings {
		total += len(st.Options)
	}
	if total > 0x7FFF {
		a.r.Probe("over 32767 setting options")
	}
}

func (a *author) bulkSwitches(sub *core.Sub) {
	m := &a.m
	if len(m.Settings) == 0 {
		return
	}
	upTo := 128 + sub.N(127)
	for i := 0; len(m.Switches) < upTo && i < 2000; i++ {
		var sw []uint8
		for k := 1 + sub.N(4); k > 0; k-- {
			x := uint8(sub.N(len(m.Settings)))
			if !slices.Contains(sw, x) && len(m.Settings[x].Options) < 200 {
				sw = append(sw, x)
			}
		}
		if len(sw) == 0 || m.cases(sw) > 254 {
			continue
		}
		if a.edit(true, fmt.Sprintf("AddSwitch(%v)", sw), func(e env) error {
			var keys []ggfnt.SettingKey
			for _, k := range sw {
				keys = append(keys, ggfnt.SettingKey(k))
			}
			_, err := e.b.AddSwitch(keys...)
			return err
		}) {
			m.Switches = append(m.Switches, sw)
		}
	}
	if len(m.Switches) >= 128 {
		a.r.Probe("over 127 switches")
	}
}

func (a *author) bulkSet(sub *core.Sub) {
	n := len(a.sets)
	a.createSet()
	if len(a.sets) == n {
		return
	}
	st := &a.sets[n]
	for k := 1 + sub.N(12); k > 0; k-- {
		g := a.uids[sub.N(len(a.uids))]
		if slices.Contains(st.list, g) {
			continue
		}
		if a.edit(true, "AddGlyphSetListGlyph", func(e env) error { return e.b.AddGlyphSetListGlyph(e.tr(st.uid), e.tr(g)) }) {
			st.list = append(st.list, g)
		}
	}
}

// align pads the description so that some part of the font data ends up at the
// edge of the chunks that parsing proceeds by.
func (a *author) align() {
	s, _ := a.spec()
	if s == nil {
		return
	}
	if text, ok := s.padding(a.r); ok {
		if a.edit(true, fmt.Sprintf("SetAbout(%d bytes)", len(text)), func(e env) error { return e.b.SetAbout(text) }) {
			a.m.About = text
		}
	}
}

// padding gives a description that moves one part of the data to a chunk edge.
func (s *Spec) padding(r *core.R) (string, bool) {
	s.Encode()
	if len(s.marks) == 0 {
		return "", false
	}
	at := s.marks[r.N(len(s.marks))]
	chunk := 1024
	delta := r.N(18) - 8
	if r.N(8) == 7 { // (what decompressors give at once)
		chunk = 32768
		at = s.marks[len(s.marks)-1]
		if r.Bool(1, 2) {
			delta = 0
		}
	}
	pad := ((chunk-(at+delta)%chunk)%chunk + chunk) % chunk
	if len(s.About)+pad > 60000 {
		return "", false
	}
	b := []byte(s.About)
	for i := 0; i < pad; i++ {
		b = append(b, 'a'+byte(i%26))
	}
	r.Probe("part of the data at the edge of a chunk")
	return string(b), true
}

// grow makes one kind of table of the font big.
func (s *Spec) grow(r *core.R, toLimit bool) {
	n := bulkSize(r)
	kind := r.N(6)
	if toLimit {
		n = 65535
		r.Probe("table of another producer filled up to its limit")
		if kind != 0 && r.N(3) == 2 { // what refers to glyphs refers to any of many
			s.growKind(r, 0, n)
		}
	}
	s.growKind(r, kind, n)
	if kind == 0 {
		genMaps(r, s, 1+r.Small(30))
		genRewrites(r, s, 0, 1+r.Small(20))
		ng := len(s.Glyphs)
		sub := r.Sub()
		for i := 5 + sub.N(100); i > 0; i-- {
			s.HKern[[2]uint16{uint16(sub.N(ng)), uint16(sub.N(ng))}] = int8(sub.N(256))
			s.VKern[[2]uint16{uint16(sub.N(ng)), uint16(sub.N(ng))}] = int8(sub.N(256))
		}
	}
	r.Probe("big table")
}

func (s *Spec) growKind(r *core.R, kind, n int) {
	sub := r.Sub()
	ng := len(s.Glyphs)
	switch kind {
	case 0:
		named := 1 + sub.N(3)
		base := s.Glyphs[0]
		if base.Mask.Rect.Dx()*base.Mask.Rect.Dy() > 64 {
			base.Mask = image.NewAlpha(image.Rect(0, -1, 1, 0))
		}
		for i := ng; i < min(n, ggfnt.MaxGlyphs); i++ {
			g := base
			g.Name = ""
			g.P.Advance = uint8(sub.N(256))
			if sub.N(named) == 0 {
				g.Name = bulkName(sub, "G", i)
			}
			s.Glyphs = append(s.Glyphs, g)
		}
	case 1:
		for i := 0; len(s.Settings) < min(n, 255); i++ {
			st := settingSpec{Name: bulkName(sub, "S-", i)}
			for k := 1 + sub.N(5); k > 0; k-- {
				st.Options = append(st.Options, genWords[sub.N(len(genWords))])
			}
			s.Settings = append(s.Settings, st)
		}
		for i := 0; i < 2000 && len(s.Switches) < min(n, 254); i++ {
			var sw []uint8
			for k := 1 + sub.N(4); k > 0; k-- {
				x := uint8(sub.N(len(s.Settings)))
				if !slices.Contains(sw, x) {
					sw = append(sw, x)
				}
			}
			if s.cases(sw) <= 254 {
				s.Switches = append(s.Switches, sw)
			}
		}
		genMaps(r, s, 10)
	case 2:
		for i := 0; len(s.Maps) < n; i++ {
			cp := rune(0x4000 + i)
			s.Maps[cp] = mapSpec{255, []groupSpec{{Glyphs: []uint16{uint16(sub.N(ng))}}}}
			if sub.N(2) == 0 {
				s.Maps[cp] = mapSpec{254, []groupSpec{bulkGroup(sub, ng, 2+sub.N(min(40, 100000/n)))}}
			}
		}
	case 3:
		for i := 0; i < min(n, ng*ng/2); i++ {
			k := s.HKern
			if sub.N(2) == 0 {
				k = s.VKern
			}
			k[[2]uint16{uint16(sub.N(ng)), uint16(sub.N(ng))}] = int8(sub.N(256))
		}
	case 4:
		for len(s.Conds) < min(n, 254) && len(s.Settings) > 0 {
			c := &condSpec{Op: sub.N(2)}
			for k := 2 + sub.N(6); k > 0; k-- {
				c.Terms = append(c.Terms, &condSpec{Op: 3 + sub.N(5), A: uint8(sub.N(len(s.Settings))), B: uint8(sub.N(6))})
			}
			if c.Terms[0].Op == 3 {
				c.Terms[0].Cmp = sub.N(6)
			}
			s.Conds = append(s.Conds, c)
		}
		for len(s.GlyphSets) < min(n, 255) {
			var st setSpec
			for k := 1 + sub.N(30); k > 0; k-- {
				st.List = append(st.List, uint32(sub.N(ng)))
			}
			s.GlyphSets = append(s.GlyphSets, st)
		}
		for len(s.RuneSets) < min(n, 255) {
			var st setSpec
			for k := 1 + sub.N(20); k > 0; k-- {
				st.List = append(st.List, uint32(' '+sub.N(0x10000)))
			}
			s.RuneSets = append(s.RuneSets, st)
		}
	case 5:
		long := 1 + sub.N(60)
		block := func(k, sets, vals, base int) (b []elem) {
			for ; k > 0; k-- {
				if sets > 0 && sub.N(4) == 0 {
					b = append(b, elem{true, uint32(sub.N(sets))})
				} else {
					b = append(b, elem{false, uint32(base + sub.N(vals))})
				}
			}
			return b
		}
		most := 2500
		if n == 65535 {
			most, long = n, 1+sub.N(3)
		}
		for i := 0; max(len(s.GRules), len(s.URules)) < min(n, most); i++ {
			cond := uint8(255)
			if len(s.Conds) > 0 && sub.N(2) == 0 {
				cond = uint8(sub.N(len(s.Conds)))
			}
			ru := ruleSpec{Cond: cond}
			sets, vals, base := len(s.GlyphSets), ng, 0
			runes := sub.N(2) == 0
			if runes {
				sets, vals, base = len(s.RuneSets), 0x10000, ' '
			}
			ru.Head, ru.Body, ru.Tail = block(sub.N(4), sets, vals, base), block(1+sub.N(long), sets, vals, base), block(sub.N(4), sets, vals, base)
			for k := 1 + sub.N(len(ru.Body)); k > 0; k-- {
				ru.Out = append(ru.Out, uint32(base+sub.N(vals)))
			}
			if runes {
				s.URules = append(s.URules, ru)
			} else {
				s.GRules = append(s.GRules, ru)
			}
		}
	}
}

// huge fills one kind of table up to the limits of the format, and tries to go beyond.
func (a *author) huge(kind int, heavy bool) {
	r, m := a.r, &a.m
	a.entropy = nil
	sub := r.Sub()
	// the edits of each table stop being accepted at the limit
	fill := func(what string, have, limit int, add func(e env, i int) error) int {
		n := limit - have - []int{0, 0, 1, 300}[r.N(4)]
		if n < 0 {
			return 0
		}
		a.edit(true, fmt.Sprintf("%s until there are %d", what, have+n), func(e env) error {
			for i := 0; i < n; i++ {
				if err := add(e, i); err != nil {
					return fmt.Errorf("%d of %d: %w", i, n, err)
				}
			}
			return nil
		})
		r.Probe("table filled up to its limit")
		if have+n == limit {
			a.edit(false, fmt.Sprintf("%s beyond %d", what, limit), func(e env) error { return add(e, n) })
			r.Probe("edit beyond the limit of a table")
		}
		return n
	}
	switch kind {
	case edGlyphs:
		if heavy && r.N(3) == 2 {
			a.heavyMasks(sub)
			if r.N(3) == 2 {
				a.heavyRules(sub, true)
				r.Probe("data around 32 MiB")
			}
			return
		}
		masks := a.bulkMasks(sub)
		base := len(m.Glyphs)
		named := 1 + sub.N(9)
		name := func(i int) string {
			if i%named != 0 {
				return ""
			}
			return fmt.Sprintf("H%d", base+i)
		}
		var uids []uint64
		n := fill("AddGlyph", base, ggfnt.MaxGlyphs, func(e env, i int) error {
			uid, err := e.b.AddGlyph(cloneMask(masks[i%3]))
			if err != nil {
				return err
			}
			e.made(uid)
			if e.b == a.b {
				uids = append(uids[:i], uid)
			}
			if name := name(i); name != "" {
				return e.b.SetGlyphName(uid, name)
			}
			return nil
		})
		if a.b.GetNumGlyphs() != base+n {
			r.Failf("builder reports wrong contents", "%d glyphs after adding %d to %d", a.b.GetNumGlyphs(), n, base)
		}
		for i, uid := range uids[:n] {
			if _, dup := a.index[uid]; dup {
				r.Failf("identifier is not unique", "AddGlyph returned %d, which is already in use", uid)
			}
			a.index[uid] = len(a.uids)
			a.uids = append(a.uids, uid)
			dx := masks[i%3].Rect.Dx()
			m.Glyphs = append(m.Glyphs, glyphSpec{Name: name(i), P: ggfnt.GlyphPlacement{Advance: uint8(dx), TopAdvance: m.Ascent, BottomAdvance: m.Descent, HorzCenter: uint8(dx / 2)}, Mask: masks[i%3]})
		}
	case edMapping:
		if len(a.uids) == 0 {
			return
		}
		if r.N(3) == 2 {
			a.heavyMaps(sub)
			return
		}
		first := rune(0x20000)
		spec := func(i int) mapSpec {
			if i%7 == 3 && len(a.uids) > 1 {
				return mapSpec{254, []groupSpec{{Glyphs: []uint16{uint16(i % len(a.uids)), uint16(i / 7 % len(a.uids))}, Flags: ggfnt.AnimationFlags(i)}}}
			}
			return mapSpec{255, []groupSpec{{Glyphs: []uint16{uint16(i % len(a.uids))}}}}
		}
		do := func(e env, cp rune, ms mapSpec) error {
			g := ms.Groups[0]
			if ms.Switch == 255 {
				return e.b.Map(cp, e.tr(a.uids[g.Glyphs[0]]))
			}
			return e.b.MapGroup(cp, g.Flags, e.tr(a.uids[g.Glyphs[0]]), e.tr(a.uids[g.Glyphs[1]]))
		}
		have := len(m.Maps)
		for cp := range m.Maps {
			if cp >= first && cp < first+70000 {
				return
			}
		}
		n := fill("map code points", have, ggfnt.MaxGlyphs, func(e env, i int) error { return do(e, first+rune(i), spec(i)) })
		for i := 0; i < n; i++ {
			m.Maps[first+rune(i)] = spec(i)
		}
		if n > 0 { // mapped code points can still be changed
			cp, ms := first+rune(sub.N(n)), spec(sub.N(n))
			if a.edit(true, fmt.Sprintf("Map(%#x) again", cp), func(e env) error { return do(e, cp, ms) }) {
				m.Maps[cp] = ms
			}
		}
	case edRewrites:
		if len(a.uids) == 0 {
			return
		}
		switch r.N(8) {
		case 7:
			runes := r.N(2) == 0
			a.heavyRules(sub, runes)
			if r.N(3) == 2 {
				a.heavyRules(sub, !runes)
				r.Probe("data around 32 MiB")
			}
			return
		case 5, 6:
			a.heavySets(sub)
			return
		}
		if r.Bool(1, 2) {
			seq := func(i int) (rune, []rune) { return rune(' ' + i%5000), []rune{rune(' ' + i), rune('a' + i%26)}[:1+i%2] }
			n := fill("AddSimpleUtf8RewriteRule", len(m.URules), 65535, func(e env, i int) error { out, in := seq(i); return e.b.AddSimpleUtf8RewriteRule(out, in...) })
			for i := 0; i < n; i++ {
				out, in := seq(i)
				rs := ruleSpec{Cond: 255, Out: []uint32{uint32(out)}}
				for _, x := range in {
					rs.Body = append(rs.Body, elem{false, uint32(x)})
				}
				m.URules = append(m.URules, rs)
			}
			return
		}
		rule := func(i int) authorRule {
			ru := authorRule{head: i % 2, body: 1 + i%3, tail: i / 2 % 2}
			for k := 0; k < ru.head+ru.body+ru.tail; k++ {
				ru.in = append(ru.in, a.uids[(i+k*k)%len(a.uids)])
			}
			ru.out = []uint16{uint16(i % len(a.uids))}
			return ru
		}
		n := fill("AddGlyphRewriteRule", len(a.rules), 65535, func(e env, i int) error {
			ru := rule(i)
			in := make([]uint64, len(ru.in))
			for k, uid := range ru.in {
				in[k] = e.tr(uid)
			}
			return e.b.AddGlyphRewriteRule(uint8(ru.head), uint8(ru.body), uint8(ru.tail), in, e.tr(a.uids[ru.out[0]]))
		})
		for i := 0; i < n; i++ {
			a.rules = append(a.rules, rule(i))
		}
	default:
		a.bulk(kind)
	}
}

// heavyMaps maps code points to so many glyphs that the format can't hold them, or almost.
func (a *author) heavyMaps(sub *core.Sub) {
	r, m := a.r, &a.m
	if len(m.Switches) == 0 {
		a.bulkSettings(sub, 20, false)
		a.bulkSwitches(sub)
	}
	sw, cases := -1, 0
	for i, s := range m.Switches {
		if c := m.cases(s); c > cases {
			sw, cases = i, c
		}
	}
	if cases < 12 || len(a.uids) < 2 {
		return
	}
	each := 1 + cases*(2+256)
	n := maxBlock/each + 1 - r.N(3)
	n -= min(n, len(m.Maps)) / 2
	first := rune(0x30000)
	groups := func(i, c int) groupSpec {
		g := groupSpec{Flags: ggfnt.AnimationFlags(i + c)}
		x := (i*31 + c*7) % len(a.uids)
		for k := 0; k < 128; k++ { // not consecutive
			g.Glyphs = append(g.Glyphs, uint16(x))
			if k%3 != 0 {
				x = (x + len(a.uids) - 1) % len(a.uids)
			}
		}
		return g
	}
	if !a.edit(true, fmt.Sprintf("map %d code points to %d groups of 128 glyphs", n, cases), func(e env) error {
		for i := 0; i < n; i++ {
			var ids [][]uint64
			var flags []ggfnt.AnimationFlags
			for c := 0; c < cases; c++ {
				g := groups(i, c)
				list := make([]uint64, 128)
				for k, x := range g.Glyphs {
					list[k] = e.tr(a.uids[x])
				}
				ids, flags = append(ids, list), append(flags, g.Flags)
			}
			if err := e.b.MapWithSwitch(first+rune(i), uint8(sw), ids, flags); err != nil {
				return err
			}
		}
		return nil
	}) {
		return
	}
	for i := 0; i < n; i++ {
		ms := mapSpec{Switch: uint8(sw)}
		for c := 0; c < cases; c++ {
			ms.Groups = append(ms.Groups, groups(i, c))
		}
		m.Maps[first+rune(i)] = ms
	}
	a.heavy = true
	r.Probe("mapping data around 16 MiB")
}

// Most of what is delimited by 24 bit offsets.
const maxBlock = 1<<24 - 1

// heavyMasks adds so many big glyphs that the format can't hold them, or almost.
func (a *author) heavyMasks(sub *core.Sub) {
	r, m := a.r, &a.m
	var masks []*image.Alpha
	kinds := 1 + sub.N(3)
	up, down := int(m.Ascent)+int(m.ExtraAscent), int(m.Descent)+int(m.ExtraDescent)
	for k := 0; k <= kinds; k++ {
		w := 250 - 60*k
		if m.Mono != 0 {
			w = min(w, int(m.Mono))
		}
		img := image.NewAlpha(image.Rect(0, -up, w, down))
		vals := 12 + sub.N(243) // few equal neighbours, as long runs compress too well
		for i := range img.Pix {
			img.Pix[i] = uint8(1 + sub.N(vals))
		}
		if k == kinds { // nothing drawn
			img = image.NewAlpha(image.Rect(0, 0, 1, 1))
		}
		masks = append(masks, img)
	}
	each := 1
	if m.Vert {
		each = 4
	}
	left := maxBlock
	for _, g := range m.Glyphs {
		left -= each + a.encodedSize(g.Mask)
	}
	var list []int
	area := 0
	for len(m.Glyphs)+len(list) < 55000 && left > 40_000 && area < 24_000_000 {
		k := sub.N(kinds)
		area += len(masks[k].Pix)
		if n := each + a.encodedSize(masks[k]); n <= left {
			list = append(list, k)
			left -= n
		} else {
			break
		}
	}
	left += []int{-1000, -1, 0, 1, 4, 8000}[r.N(6)]
	for len(m.Glyphs)+len(list) < ggfnt.MaxGlyphs {
		if left -= each + a.encodedSize(masks[kinds]); left < 0 {
			break
		}
		list = append(list, kinds)
	}
	var uids []uint64
	if !a.edit(true, fmt.Sprintf("add %d big glyphs", len(list)), func(e env) error {
		uids = uids[:0]
		for _, k := range list {
			uid, err := e.b.AddGlyph(cloneMask(masks[k]))
			if err != nil {
				return err
			}
			e.made(uid)
			uids = append(uids, uid)
		}
		return nil
	}) {
		return
	}
	for i, uid := range uids {
		if _, dup := a.index[uid]; dup {
			r.Failf("identifier is not unique", "AddGlyph returned %d, which is already in use", uid)
		}
		a.index[uid] = len(a.uids)
		a.uids = append(a.uids, uid)
		img := masks[list[i]]
		dx := img.Rect.Dx()
		m.Glyphs = append(m.Glyphs, glyphSpec{P: ggfnt.GlyphPlacement{Advance: uint8(dx), TopAdvance: m.Ascent, BottomAdvance: m.Descent, HorzCenter: uint8(dx / 2)}, Mask: img})
	}
	a.heavy = true
	r.Probe("mask data around 16 MiB")
}

// encodedSize is the size of a mask as the builder encodes it.
func (a *author) encodedSize(m *image.Alpha) int {
	if m == nil {
		return 0
	}
	n, ok := a.maskSize[m]
	if !ok {
		var enc mask.Encoder
		n = len(enc.AppendRasterOps(nil, cloneMask(m)))
		if a.maskSize == nil {
			a.maskSize = map[*image.Alpha]int{}
		}
		a.maskSize[m] = n
	}
	return n
}

// heavyRules adds so many rewrite rules that the format can't hold them, or almost.
func (a *author) heavyRules(sub *core.Sub, runes bool) {
	r, m := a.r, &a.m
	n, limit := 0, maxBlock
	if runes {
		for i := range m.URules {
			limit -= len(m.URules[i].encode(true))
		}
		n = 65535 - len(m.URules)
	} else {
		n = 65535 - len(a.rules) // (as if all of them were as big as they can be)
		limit -= len(a.rules) * 700
	}
	n = min(n, 17000+sub.N(50000))
	if n < 1 || limit < 1<<20 {
		return
	}
	width := 2
	if runes {
		width = 4
	}
	// length of each rule's input
	size := func(k int) int { return 5 + width + 2 + (k+14)/15 + width*k }
	k := 1
	for k < 255 && size(k)*n < limit {
		k++
	}
	left := limit - n*size(k)
	lens := make([]int, n)
	for i := range lens {
		lens[i] = k
		if left < 0 && lens[i] > 1 {
			lens[i]--
			left += size(k) - size(lens[i])
		}
	}
	for over := r.N(4); over > 0; over-- { // a bit more than that
		if j := sub.N(n); lens[j] < 255 {
			lens[j]++
		}
	}
	input := func(i int) []int {
		seq := make([]int, lens[i])
		for j := range seq {
			seq[j] = i/(j%3+1) + j*j
		}
		return seq
	}
	if runes {
		rule := func(i int) (rune, []rune) {
			var seq []rune
			for _, x := range input(i) {
				seq = append(seq, rune(' '+x))
			}
			return rune('a' + i%26), seq
		}
		if !a.edit(true, fmt.Sprintf("add %d big utf8 rules", n), func(e env) error {
			for i := 0; i < n; i++ {
				out, in := rule(i)
				if err := e.b.AddSimpleUtf8RewriteRule(out, in...); err != nil {
					return err
				}
			}
			return nil
		}) {
			return
		}
		for i := 0; i < n; i++ {
			out, in := rule(i)
			rs := ruleSpec{Cond: 255, Out: []uint32{uint32(out)}}
			for _, x := range in {
				rs.Body = append(rs.Body, elem{false, uint32(x)})
			}
			m.URules = append(m.URules, rs)
		}
	} else {
		rule := func(i int) authorRule {
			ru := authorRule{body: lens[i]}
			for _, x := range input(i) {
				ru.in = append(ru.in, a.uids[x%len(a.uids)])
			}
			ru.out = []uint16{uint16(i % len(a.uids))}
			return ru
		}
		if !a.edit(true, fmt.Sprintf("add %d big glyph rules", n), func(e env) error {
			for i := 0; i < n; i++ {
				ru := rule(i)
				in := make([]uint64, len(ru.in))
				for k, uid := range ru.in {
					in[k] = e.tr(uid)
				}
				if err := e.b.AddGlyphRewriteRule(0, uint8(ru.body), 0, in, e.tr(a.uids[ru.out[0]])); err != nil {
					return err
				}
			}
			return nil
		}) {
			return
		}
		for i := 0; i < n; i++ {
			a.rules = append(a.rules, rule(i))
		}
	}
	a.heavy = true
	r.Probe("rule data around 16 MiB")
}

// heavySets fills the table of sets, and their data up to its limit.
func (a *author) heavySets(sub *core.Sub) {
	r := a.r
	if len(a.uids) < 300 {
		a.fill(300 - len(a.uids))
	}
	size := 0
	for _, st := range a.sets {
		size += 2 + 3*len(st.ranges) + 2*len(st.list)
	}
	limit := 65535 + []int{-30, 0, 0, 1, 2, 300}[r.N(6)]
	rounds := 255 - len(a.sets) - r.N(2)
	for i := 0; i < rounds; i++ {
		if size+2*(rounds-i) > limit {
			break
		}
		n := len(a.sets)
		a.entropy = nil
		a.createSet()
		if len(a.sets) == n {
			return
		}
		st := &a.sets[n]
		size += 2
		share := (limit - size - 2*(rounds-i)) / (rounds - i)
		if i == rounds-1 {
			share = limit - size
		}
		var ranges [][2]uint64
		var list []uint64
		nr := min(255, sub.N(share/3+1))
		if i == rounds-1 && (share-3*nr)%2 != 0 {
			nr = max(nr-1, 1)
		}
		for ; nr > 0 && share >= 3; nr-- {
			x := sub.N(len(a.uids))
			y := min(x+sub.N(256), len(a.uids)-1)
			rg := [2]uint64{a.uids[x], a.uids[y]}
			if !slices.Contains(ranges, rg) {
				ranges = append(ranges, rg)
				share -= 3
				size += 3
			}
		}
		first := sub.N(len(a.uids))
		for k := 0; k < min(255, len(a.uids)) && share >= 2; k++ {
			list = append(list, a.uids[(first+k)%len(a.uids)])
			share -= 2
			size += 2
		}
		uid := st.uid
		if a.edit(true, fmt.Sprintf("add %d ranges and %d glyphs to a set", len(ranges), len(list)), func(e env) error {
			for _, rg := range ranges {
				if err := e.b.AddGlyphSetRange(e.tr(uid), e.tr(rg[0]), e.tr(rg[1])); err != nil {
					return err
				}
			}
			for _, g := range list {
				if err := e.b.AddGlyphSetListGlyph(e.tr(uid), e.tr(g)); err != nil {
					return err
				}
			}
			return nil
		}) {
			st.ranges, st.list = ranges, list
		}
	}
	a.createSet() // may be beyond the limit
	r.Probe("set data around 64 KiB")
}

// tooBig tells which part of the contents is too big for the format.
func (a *author) tooBig(s *Spec) string {
	a.closeCall = false
	rest := *s
	masks, urules, grules := 0, 0, 0
	rest.Glyphs = slices.Clone(s.Glyphs)
	for i, g := range s.Glyphs {
		masks += a.encodedSize(g.Mask)
		rest.Glyphs[i].Mask = nil
	}
	each := 1
	if s.Vert {
		each = 4
	}
	if masks+each*len(s.Glyphs) > maxBlock {
		return "too much mask data"
	}
	for i := range s.URules {
		urules += len(s.URules[i].encode(true))
	}
	for i := range s.GRules {
		grules += len(s.GRules[i].encode(false))
	}
	if urules > maxBlock || grules > maxBlock {
		return "too much rule data"
	}
	maps := 7*len(s.Maps) + s.mappingSize()
	rest.Maps, rest.URules, rest.GRules = nil, nil, nil
	total := len(rest.Encode()) + masks + maps + urules + 3*len(s.URules) + grules + 3*len(s.GRules)
	const tolerance = 1000
	if total > ggfnt.MaxFontDataSize+tolerance {
		return "too much data"
	}
	a.closeCall = total > ggfnt.MaxFontDataSize-tolerance
	return ""
}

// mappingSize is the size of the mapping data as the builder encodes it.
func (s *Spec) mappingSize() (size int) {
	for _, ms := range s.Maps {
		size++
		if ms.Switch == 255 {
			size += 2
			continue
		}
		for _, g := range ms.Groups {
			n := len(g.Glyphs)
			cont := n > 1
			for k := 1; k < n; k++ {
				cont = cont && g.Glyphs[k] == g.Glyphs[k-1]+1
			}
			switch {
			case n == 1:
				size += 3
			case cont:
				size += 4
			default:
				size += 2 + 2*n
			}
		}
	}
	return size
}

func (a *author) mapped() (cps []rune) {
	for cp := range a.m.Maps {
		cps = append(cps, cp)
	}
	slices.Sort(cps)
	return cps
}
