package world

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"slices"
	"strings"
	"time"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"

	"verif.local/sim/core"
)

// Edit groups, used to give more weight to what a property is about.
const (
	edHeader = iota
	edMetrics
	edGlyphs
	edColors
	edSettings
	edMapping
	edRewrites
	edKerning
	edEdition
	numEdits
)

// env is where a recorded edit takes place (the author's builder or a replica).
type env struct {
	b    *builder.Font
	tr   func(uint64) uint64 // identifier translation
	made func(uint64)        // called with each new identifier
}

type histItem struct {
	clock time.Time
	f     func(e env) error
}

type kern struct {
	value int8
	class int
}

type authorSet struct {
	uid    uint64
	ranges [][2]uint64
	list   []uint64
}
type runeSet struct {
	uid    uint64
	ranges [][2]rune
	list   []rune
}
type authorRule struct {
	head, body, tail int
	in               []uint64
	out              []uint16
}

// author edits a font through the builder, with a model of what the edits mean.
type author struct {
	r         *core.R
	b         *builder.Font
	heavy     bool // some part of the contents may be too big for the format
	area      int  // pixels of big glyphs
	maskSize  map[*image.Alpha]int
	closeCall bool // the contents are about as big as they can be
	m         Spec // everything but sets, glyph rules and kerning
	uids      []uint64
	index     map[uint64]int
	sets      []authorSet
	rsets     []runeSet
	rules     []authorRule
	hk, vk    map[[2]uint64]kern
	classes   []int8
	hist      []histItem
	made      []uint64
	idBytes   []byte
	removed   []uint64 // identifiers of removed sets

	entropy          []int // plan of the next entropy reads: 0 good, 1 repeated, 2 reserved value, 3 failure, 4 all further reads fail
	hurt             bool  // entropy trouble during the current edit
	accepted, denied int

	beforeEdit func() string // observer of the state before and after each edit
	afterEdit  func(what, before string, err error)
}

func newAuthor(r *core.R) *author {
	a := &author{r: r, index: map[uint64]int{}, hk: map[[2]uint64]kern{}, vk: map[[2]uint64]kern{}}
	a.m.Maps = map[rune]mapSpec{}
	r.SetEntropy(func(p []byte) (int, error) {
		n, err := r.GoodEntropy(p)
		a.idBytes = append(a.idBytes, p...)
		return n, err
	})
	lo := dateOf(r.Now())
	a.b = builder.New()
	hi := dateOf(r.Now())
	r.SetEntropy(a.rand)
	m := &a.m
	m.ID = a.b.GetFontID()
	m.Minor = 1
	m.FirstDate, m.MajDate, m.MinDate = a.b.GetFirstVerDate(), a.b.GetMajorVerDate(), a.b.GetMinorVerDate()
	for _, d := range []ggfnt.Date{m.FirstDate, m.MajDate, m.MinDate} {
		if d != lo && d != hi {
			r.Failf("wrong date", "new builder has date %v, but it's %v", d, lo)
		}
	}
	m.Name, m.Family, m.Author, m.About = "Unnamed", "Unnamed", "Authorless", "No information available."
	m.Ascent, m.Descent, m.Upper, m.Mid, m.HorzInter, m.LineGap = 9, 5, 9, 5, 1, 1
	return a
}

func dateOf(t time.Time) ggfnt.Date {
	y, mo, d := t.Date()
	return ggfnt.Date{Year: uint16(y), Month: uint8(mo), Day: uint8(d)}
}

// rand is the entropy source during edits.
func (a *author) rand(p []byte) (int, error) {
	put := func(v uint64) (int, error) {
		for i := range p {
			p[i] = byte(v >> (8 * i))
		}
		return len(p), nil
	}
	if len(a.entropy) > 0 {
		kind := a.entropy[0]
		if kind != 4 {
			a.entropy = a.entropy[1:]
		}
		switch kind {
		case 1:
			ids := a.uids
			for _, s := range a.sets {
				ids = append(ids[:len(ids):len(ids)], s.uid)
			}
			for _, s := range a.rsets {
				ids = append(ids[:len(ids):len(ids)], s.uid)
			}
			if len(ids) > 0 {
				a.hurt = true
				a.r.Fault("repeated entropy")
				return put(ids[a.r.N(len(ids))])
			}
		case 2:
			a.hurt = true
			a.r.Fault("reserved value from entropy source")
			return put(uint64(ggfnt.GlyphMissing))
		case 3, 4:
			a.hurt = true
			a.r.Fault("entropy failure")
			for i := range p {
				p[i] = 0xA5
			}
			return 0, errInjected
		}
	}
	return a.r.GoodEntropy(p)
}

// do applies an edit and records it.
func (a *author) do(f func(e env) error) error {
	a.hurt = false
	item := histItem{a.r.Now(), f}
	n := len(a.made)
	err := f(env{a.b, func(id uint64) uint64 { return id }, func(id uint64) { a.made = append(a.made, id) }})
	if err != nil {
		a.made = a.made[:n]
	}
	if err == nil { // failed edits must not matter
		a.hist = append(a.hist, item)
	}
	return err
}

// edit applies an edit that is expected to be accepted or refused.
func (a *author) edit(valid bool, what string, f func(e env) error) bool {
	before := ""
	if a.beforeEdit != nil {
		before = a.beforeEdit()
	}
	err := a.do(f)
	if a.afterEdit != nil {
		a.afterEdit(what, before, err)
	}
	if err == nil {
		a.r.Logf("%s", what)
		a.accepted++
	} else {
		a.r.Logf("%s: refused", what)
		a.denied++
	}
	if a.hurt {
		return err == nil
	}
	if valid && err != nil {
		a.r.Failf("valid edit refused", "%s: %v", what, err)
	}
	if !valid && err == nil {
		a.r.Failf("invalid edit accepted", "%s", what)
	}
	return err == nil
}

// replicate applies the same accepted edits to a new builder.
func (a *author) replicate() *builder.Font {
	r := a.r
	now := r.Now()
	defer r.SetEntropy(a.rand)
	defer r.SetClock(now)
	pos := 0
	r.SetEntropy(func(p []byte) (int, error) {
		pos += copy(p, a.idBytes[pos:])
		return len(p), nil
	})
	first := now
	if len(a.hist) > 0 {
		first = a.hist[0].clock
	}
	r.SetClock(first)
	b := builder.New()
	r.SetEntropy(nil)
	ids := map[uint64]uint64{}
	k := 0
	e := env{b, func(id uint64) uint64 {
		if v, ok := ids[id]; ok {
			return v
		}
		return id
	}, func(id uint64) {
		ids[a.made[k]] = id
		k++
	}}
	_ = b.SetFirstVerDate(a.m.FirstDate)
	for _, h := range a.hist {
		r.SetClock(h.clock)
		if err := h.f(e); err != nil {
			r.Failf("same edits, different outcome", "edit accepted by a builder is refused by another with the same contents: %v", err)
		}
	}
	_ = b.SetFirstVerDate(a.m.FirstDate)
	_ = b.SetMajorVerDate(a.m.MajDate)
	_ = b.SetMinorVerDate(a.m.MinDate)
	return b
}

// fill adds n glyphs without much ado.
func (a *author) fill(n int) {
	for i := 0; i < n; i++ {
		a.addGlyph(genMask(a.r, -10, -int(a.m.Ascent), 40, max(1, int(a.m.Descent))))
	}
}

// step performs one edit of the given kind.
func (a *author) step(kind int) {
	a.r.Op(func() {
		switch kind {
		case edHeader:
			a.header()
		case edMetrics:
			a.metrics()
		case edGlyphs:
			a.glyphs()
		case edColors:
			a.colors()
		case edSettings:
			a.settings()
		case edMapping:
			a.mapping()
		case edRewrites:
			a.rewrites()
		case edKerning:
			a.kerning()
		case edEdition:
			a.edition()
		}
	})
}

// --- header ---

func (a *author) passTime() {
	r := a.r
	switch r.Pick(3, 2, 2, 1, 1) {
	case 0:
		r.Advance(time.Duration(r.Small(1<<30)) * time.Second)
	case 1: // to the edge of the day
		now := r.Now()
		end := time.Date(now.Year(), now.Month(), now.Day(), 23, 59, 59, 999_999_000, time.UTC)
		r.Advance(end.Sub(now))
		r.Fault("clock at the edge of a day")
	case 2:
		r.SetClock(time.Date(r.Range(1, 9999), time.Month(r.Range(1, 12)), r.Range(1, 28), r.N(24), r.N(60), r.N(60), 0, time.UTC))
		r.Fault("clock jump")
	case 3:
		r.SetClock(time.Date([]int{2024, 2000, 1900, 2023, 1}[r.N(5)], 2, []int{28, 29}[r.N(2)], 12, 0, 0, 0, time.UTC))
		r.Fault("clock jump")
	case 4:
		r.SetClock(r.Now().Add(-time.Duration(r.Small(1<<30)) * time.Second))
		r.Fault("clock going backwards")
	}
	if y := r.Now().Year(); y < 1 || y > 9999 {
		r.SetClock(time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC))
	}
}

func validDate(d ggfnt.Date) bool {
	if d.Year == 0 {
		return d.Month == 0 && d.Day == 0
	}
	if d.Month == 0 || d.Day == 0 {
		return d.Month <= 12 && (d.Month != 0 || d.Day == 0)
	}
	t := time.Date(int(d.Year), time.Month(d.Month), int(d.Day), 0, 0, 0, 0, time.UTC)
	return d.Month <= 12 && t.Month() == time.Month(d.Month) && t.Day() == int(d.Day)
}

func genBadText(r *core.R, max int) string {
	switch r.N(4) {
	case 0:
		return genText(r, 20) + "\x1f"
	case 1:
		return "\n" + genText(r, 5)
	case 2:
		return genText(r, 10) + "\xff\xfe"
	}
	return strings.Repeat("y", max+1+r.Small(3))
}

func (a *author) header() {
	r, m := a.r, &a.m
	if r.Bool(1, 3) {
		a.passTime()
	}
	bad := r.N(5) == 4
	text := func(name string, max int, dst *string, set func(b *builder.Font, s string) error) {
		s := genText(r, max)
		if name == "SetName" && s == "" {
			s = "x"
		}
		if bad {
			s = genBadText(r, max)
			if name == "SetName" && r.N(3) == 2 {
				s = ""
			}
		}
		if a.edit(!bad, fmt.Sprintf("%s(%d bytes)", name, len(s)), func(e env) error { return set(e.b, s) }) {
			*dst = s
		}
	}
	date := func(name string, dst *ggfnt.Date, set func(b *builder.Font, d ggfnt.Date) error) {
		d := genDate(r)
		if bad {
			d = []ggfnt.Date{{Year: 2023, Month: 2, Day: 29}, {Month: 3}, {Day: 3}, {Year: 2020, Day: 8}, {Year: 2020, Month: 13}, {Year: 2020, Month: 4, Day: 31},
				{Year: 1900, Month: 2, Day: 29}, {Year: 2024, Month: 255, Day: 1}, {Year: 2024, Month: 12, Day: 32}, {Year: 7, Month: 200}}[r.N(10)]
		} else if r.N(4) == 3 {
			d = []ggfnt.Date{{Year: 2024, Month: 2, Day: 29}, {Year: 2000, Month: 2, Day: 29}, {Year: 65535, Month: 12, Day: 31}, {Year: 1, Month: 1, Day: 31}, {Year: 2023, Month: 11, Day: 30}}[r.N(5)]
		}
		if a.edit(validDate(d), fmt.Sprintf("%s(%v)", name, d), func(e env) error { return set(e.b, d) }) {
			*dst = d
		}
	}
	switch r.N(10) {
	case 0:
		text("SetName", 255, &m.Name, (*builder.Font).SetName)
	case 1:
		text("SetFamily", 255, &m.Family, (*builder.Font).SetFamily)
	case 2:
		text("SetAuthor", 255, &m.Author, (*builder.Font).SetAuthor)
	case 3:
		size := 600
		if bad || r.N(20) == 19 {
			size = 65535
		}
		text("SetAbout", size, &m.About, (*builder.Font).SetAbout)
	case 4:
		date("SetFirstVerDate", &m.FirstDate, (*builder.Font).SetFirstVerDate)
	case 5:
		date("SetMajorVerDate", &m.MajDate, (*builder.Font).SetMajorVerDate)
	case 6:
		date("SetMinorVerDate", &m.MinDate, (*builder.Font).SetMinorVerDate)
	default:
		k := r.N(3)
		major, minor := uint16(r.Small(65534)), uint16(r.Small(65534))
		if k == 0 && m.Major == 65535 || k == 1 && m.Minor == 65535 {
			k = 2
		}
		// time may pass while the edit takes place
		if r.Bool(1, 3) {
			r.SetTick(time.Duration(1+r.Small(1<<20)) * time.Microsecond)
			defer r.SetTick(0)
		}
		t0 := r.Now()
		a.edit(true, fmt.Sprintf("version edit %d (%d, %d)", k, major, minor), func(e env) error {
			switch k {
			case 0:
				e.b.RaiseMajorVersion()
			case 1:
				e.b.RaiseMinorVersion()
			case 2:
				e.b.SetVersion(major, minor)
			}
			return nil
		})
		t1 := r.Now()
		check := func(name string, got ggfnt.Date) ggfnt.Date {
			if got != dateOf(t0) && got != dateOf(t1) {
				r.Failf("wrong date", "%s is %v after a version edit between %v and %v", name, got, t0, t1)
			}
			return got
		}
		switch k {
		case 0:
			m.Major, m.Minor = m.Major+1, 0
			m.MajDate = check("major version date", a.b.GetMajorVerDate())
		case 1:
			m.Minor++
		case 2:
			m.Major, m.Minor = major, minor
			m.MajDate = check("major version date", a.b.GetMajorVerDate())
		}
		m.MinDate = check("minor version date", a.b.GetMinorVerDate())
	}
}

// --- metrics ---

func (a *author) metrics() {
	r, m := a.r, &a.m
	set := func(name string, dst *uint8, v int, f func(b *builder.Font, v uint8)) {
		a.edit(true, fmt.Sprintf("%s(%d)", name, v), func(e env) error { f(e.b, uint8(v)); return nil })
		*dst = uint8(v)
	}
	switch r.N(13) {
	case 0:
		v := r.Bool(1, 2)
		a.edit(true, fmt.Sprintf("SetVertLayoutUsed(%v)", v), func(e env) error { e.b.SetVertLayoutUsed(v); return nil })
		m.Vert = v
	case 1:
		v := 0
		if r.Bool(1, 2) {
			v = r.Small(255)
		}
		set("SetMonoWidth", &m.Mono, v, (*builder.Font).SetMonoWidth)
	case 2:
		set("SetAscent", &m.Ascent, r.Small(255), (*builder.Font).SetAscent)
	case 3:
		set("SetExtraAscent", &m.ExtraAscent, r.Small(255), (*builder.Font).SetExtraAscent)
	case 4:
		set("SetDescent", &m.Descent, r.Small(255), (*builder.Font).SetDescent)
	case 5:
		set("SetExtraDescent", &m.ExtraDescent, r.Small(255), (*builder.Font).SetExtraDescent)
	case 6:
		set("SetMidlineAscent", &m.Mid, r.Small(255), (*builder.Font).SetMidlineAscent)
	case 7:
		set("SetUppercaseAscent", &m.Upper, r.Small(255), (*builder.Font).SetUppercaseAscent)
	case 8:
		set("SetHorzInterspacing", &m.HorzInter, r.Small(255), (*builder.Font).SetHorzInterspacing)
	case 9:
		set("SetVertInterspacing", &m.VertInter, r.Small(255), (*builder.Font).SetVertInterspacing)
	case 10:
		set("SetLineGap", &m.LineGap, r.Small(255), (*builder.Font).SetLineGap)
	case 11:
		v := uint8(r.Small(255))
		if a.edit((v != 0) == m.Vert, fmt.Sprintf("SetVertLineWidth(%d)", v), func(e env) error { return e.b.SetVertLineWidth(v) }) {
			m.VertW = v
		}
	case 12:
		v := uint8(r.Small(255))
		if a.edit(v == 0 || m.Vert, fmt.Sprintf("SetVertLineGap(%d)", v), func(e env) error { return e.b.SetVertLineGap(v) }) {
			m.VertGap = v
		}
	}
}

func (m *Spec) metricsOK() bool {
	return m.Ascent > 0 && m.Ascent > m.ExtraAscent && m.Ascent >= m.Mid && m.Ascent >= m.Upper && m.Mid <= m.Upper && (m.VertInter == 0 || m.Vert)
}

// --- glyphs ---

func drawnRect(m *image.Alpha) (rect image.Rectangle) {
	for y := m.Rect.Min.Y; y < m.Rect.Max.Y; y++ {
		for x := m.Rect.Min.X; x < m.Rect.Max.X; x++ {
			if m.AlphaAt(x, y).A != 0 {
				rect = rect.Union(image.Rect(x, y, x+1, y+1))
			}
		}
	}
	return rect
}

// addGlyph gives the new glyph's index, or -1.
func (a *author) addGlyph(img *image.Alpha) int {
	r, m := a.r, &a.m
	if n := img.Rect.Dx() * img.Rect.Dy(); n > 2000 {
		if a.area+n > 3_000_000 { // the limit of 16 MiB of masks isn't what this is about
			return -1
		}
		a.area += n
	}
	rect := drawnRect(img)
	valid := rect.Empty() || -rect.Min.Y <= int(m.Ascent)+int(m.ExtraAscent) && rect.Max.Y <= int(m.Descent)+int(m.ExtraDescent) &&
		(m.Mono == 0 || rect.Min.X >= 0 && rect.Max.X <= int(m.Mono))
	valid = valid && len(a.uids) < ggfnt.MaxGlyphs
	given := cloneMask(img)
	orig := cloneMask(img)
	if len(img.Pix) > 0 && r.N(10) == 9 {
		given = subImage(orig, r.N(3), r.N(3), r.N(3), r.N(3))
		r.Probe("mask that is part of a bigger image")
	}
	sheet := slices.Clone(given.Pix)
	var uid uint64
	ok := a.edit(valid, fmt.Sprintf("AddGlyph(%v)", img.Rect), func(e env) error {
		copy(given.Pix, sheet)
		id, err := e.b.AddGlyph(given)
		if !bytes.Equal(given.Pix, sheet) {
			r.Failf("argument modified", "AddGlyph modified the given mask")
		}
		if err == nil {
			uid = id
			e.made(id)
		}
		for i := range given.Pix { // the caller reuses its image
			given.Pix[i] = uint8(i * 7)
		}
		return err
	})
	if !ok {
		return -1
	}
	if _, dup := a.index[uid]; dup || uid == uint64(ggfnt.GlyphMissing) {
		r.Failf("identifier is not unique", "AddGlyph returned %d, which is already in use or reserved", uid)
	}
	i := len(a.uids)
	a.index[uid] = i
	a.uids = append(a.uids, uid)
	dx := img.Rect.Dx()
	m.Glyphs = append(m.Glyphs, glyphSpec{P: ggfnt.GlyphPlacement{Advance: uint8(min(255, dx)), TopAdvance: m.Ascent, BottomAdvance: m.Descent, HorzCenter: uint8(min(255, dx/2))}, Mask: cloneMask(img)})
	return i
}

// unknownUID gives an identifier that was never handed out for a glyph.
func (a *author) unknownUID() uint64 {
	for v := a.r.U64(); ; v++ {
		if _, used := a.index[v]; used {
			continue
		}
		if !slices.ContainsFunc(a.sets, func(s authorSet) bool { return s.uid == v }) && !slices.ContainsFunc(a.rsets, func(s runeSet) bool { return s.uid == v }) {
			return v
		}
	}
}

// anyGlyph gives a glyph identifier, sometimes an undefined one.
func (a *author) anyGlyph(badIn int) (uid uint64, valid bool) {
	if len(a.uids) == 0 || badIn > 0 && a.r.N(badIn) == badIn-1 {
		switch k := a.r.N(4); {
		case k == 0 && len(a.sets) > 0:
			return a.sets[a.r.N(len(a.sets))].uid, false
		case k == 1:
			return uint64(ggfnt.GlyphMissing), false
		case k == 2 && len(a.uids) > 0: // glyph index instead of an identifier
			uid = uint64(a.r.N(len(a.uids)))
			_, valid = a.index[uid]
			return uid, valid
		}
		return a.unknownUID(), false
	}
	return a.uids[a.r.N(len(a.uids))], true
}

func genBadName(r *core.R) string {
	return []string{"", "-a", "a-", "a--b", "a b", "é", "abcdefghijklmnopqrstuvwxyz-012345", "a_b", "x\x00", "-", "a.b"}[r.N(11)]
}

func (a *author) glyphs() {
	r, m := a.r, &a.m
	switch r.Pick(10, 2, 6, 6, 2, 1) {
	case 5: // a glyph that is big in both directions
		if m.Ascent < 60 {
			v := uint8(60 + r.N(40))
			a.edit(true, fmt.Sprintf("SetAscent(%d)", v), func(e env) error { e.b.SetAscent(v); return nil })
			m.Ascent = v
		}
		maxX := 700
		if m.Mono != 0 {
			maxX = int(m.Mono)
		}
		a.addGlyph(genMask(r, 0, -int(m.Ascent)-int(m.ExtraAscent), maxX, max(1, int(m.Descent)+int(m.ExtraDescent))))
	case 0:
		up, down := int(m.Ascent)+int(m.ExtraAscent), int(m.Descent)+int(m.ExtraDescent)
		minX, maxX := -20, 60
		if m.Mono != 0 {
			minX, maxX = 0, int(m.Mono)
		}
		if r.N(8) == 7 && m.Mono == 0 { // far from the origin
			minX, maxX = -400, 400
		}
		a.addGlyph(genMask(r, minX, -up, maxX, max(1, down)))
	case 1: // likely out of bounds
		up, down := int(m.Ascent)+int(m.ExtraAscent), int(m.Descent)+int(m.ExtraDescent)
		a.addGlyph(genMask(r, -3, -min(60, up)-2, 12, min(60, down)+3))
	case 2:
		uid, known := a.anyGlyph(10)
		name := genName(r, "")
		bad := r.N(6) == 5
		if bad {
			name = genBadName(r)
		} else if r.N(8) == 7 && len(m.Glyphs) > 0 { // maybe repeated
			name = m.Glyphs[r.N(len(m.Glyphs))].Name
			bad = name == ""
		}
		if a.edit(known && !bad, fmt.Sprintf("SetGlyphName(%d, %q)", a.ref(uid), name), func(e env) error { return e.b.SetGlyphName(e.tr(uid), name) }) {
			m.Glyphs[a.index[uid]].Name = name
		}
	case 3:
		uid, known := a.anyGlyph(10)
		p := ggfnt.GlyphPlacement{Advance: uint8(r.Small(255)), TopAdvance: uint8(r.Small(255)), BottomAdvance: uint8(r.Small(255)), HorzCenter: uint8(r.Small(255))}
		if a.edit(known, fmt.Sprintf("SetGlyphPlacement(%d, %v)", a.ref(uid), p), func(e env) error { return e.b.SetGlyphPlacement(e.tr(uid), p) }) {
			m.Glyphs[a.index[uid]].P = p
		}
	case 4:
		m1 := genMask(r, 0, -1, 4, 1)
		for i := 1 + r.Small(6); i > 0; i-- {
			a.addGlyph(m1)
		}
	}
}

// ref gives a loggable reference to a glyph.
func (a *author) ref(uid uint64) int {
	if i, ok := a.index[uid]; ok {
		return i
	}
	return -1
}

// --- colors ---

func (a *author) colors() {
	r, m := a.r, &a.m
	name := genName(r, "")
	valid := true
	switch r.N(12) {
	case 11:
		name = genBadName(r)
		valid = false
	case 10:
		if len(m.Dyes) > 0 {
			name = m.Dyes[r.N(len(m.Dyes))].Name
		}
	case 9:
		if len(m.Pals) > 0 {
			name = m.Pals[r.N(len(m.Pals))].Name
		}
	}
	total := 0
	for _, y := range m.Dyes {
		total += len(y.Alphas)
		valid = valid && y.Name != name
	}
	for _, p := range m.Pals {
		total += len(p.Colors)
		valid = valid && p.Name != name
	}
	n := 1 + r.Small(8)
	switch r.N(10) {
	case 9:
		n = 1 + r.N(260)
	case 8:
		n = 255 - total + r.N(2)
	case 7:
		if r.Bool(1, 3) {
			n = 0
		}
	}
	valid = valid && n > 0 && total+n <= 255
	sub := r.Sub()
	if r.Bool(1, 2) {
		vals := make([]uint8, n)
		for i := range vals {
			vals[i] = uint8(255 - sub.N(256))
		}
		arg := make([]uint8, n)
		if a.edit(valid, fmt.Sprintf("AddDye(%q, %d alphas)", name, n), func(e env) error {
			copy(arg, vals)
			err := e.b.AddDye(name, arg...)
			clear(arg)
			return err
		}) {
			m.Dyes = append(m.Dyes, dyeSpec{name, vals})
		}
		return
	}
	vals := make([]color.RGBA, n)
	for i := range vals {
		v := uint32(sub.U64())
		vals[i] = color.RGBA{uint8(v), uint8(v >> 8), uint8(v >> 16), uint8(v >> 24)}
	}
	arg := make([]color.RGBA, n)
	if a.edit(valid, fmt.Sprintf("AddPalette(%q, %d colors)", name, n), func(e env) error {
		copy(arg, vals)
		err := e.b.AddPalette(name, arg...)
		clear(arg)
		return err
	}) {
		m.Pals = append(m.Pals, palSpec{name, vals})
	}
}

// --- settings ---

func (a *author) settings() {
	r, m := a.r, &a.m
	name := genName(r, "")
	valid := true
	switch r.N(12) {
	case 11:
		name, valid = genBadName(r), false
	case 10:
		if len(m.Settings) > 0 {
			name = m.Settings[r.N(len(m.Settings))].Name
		}
	}
	for _, s := range m.Settings {
		valid = valid && s.Name != name
	}
	n := 1 + r.Small(5)
	switch r.N(24) {
	case 23:
		n = 0
	case 22:
		n = 255
	case 21:
		n = 256
	}
	valid = valid && n > 0 && n <= 255 && len(m.Settings) < 255
	var opts []string
	for i := 0; i < min(n, 12); i++ {
		o := genOption(r)
		if !basicName(o) {
			o = "on"
		}
		opts = append(opts, o)
	}
	if len(opts) < n {
		sub := r.Sub()
		fresh := r.N(3) == 2
		for len(opts) < n {
			switch {
			case fresh:
				opts = append(opts, fmt.Sprintf("f%d", sub.N(400)))
			default:
				opts = append(opts, opts[sub.N(len(opts))])
			}
		}
	}
	if n > 0 && r.N(12) == 11 {
		opts[r.N(n)] = genBadName(r)
		valid = false
	}
	arg := make([]string, n)
	if a.edit(valid, fmt.Sprintf("AddSetting(%q, %d options)", name, n), func(e env) error {
		copy(arg, opts)
		key, err := e.b.AddSetting(name, arg...)
		if err == nil && int(key) != len(m.Settings) && e.b == a.b {
			r.Failf("wrong setting key", "AddSetting returned key %d for setting number %d", key, len(m.Settings))
		}
		clear(arg)
		return err
	}) {
		m.Settings = append(m.Settings, settingSpec{name, opts})
	}
}

// --- mapping ---

// canMap tells if there's room for the code point.
func (a *author) canMap(cp rune) bool {
	_, found := a.m.Maps[cp]
	return found || len(a.m.Maps) < ggfnt.MaxGlyphs
}

func (a *author) mapping() {
	r, m := a.r, &a.m
	if len(m.Settings) > 0 && r.N(6) == 5 || len(m.Switches) == 0 && len(m.Settings) > 0 && r.Bool(1, 3) {
		var keys []ggfnt.SettingKey
		var sw []uint8
		valid := true
		for i := 1 + r.Small(3); i > 0; i-- {
			k := r.N(len(m.Settings))
			if r.N(20) == 19 {
				k = min(255, len(m.Settings)+r.N(3))
			}
			if k >= len(m.Settings) || slices.Contains(sw, uint8(k)) {
				if r.Bool(2, 3) {
					continue
				}
				valid = false
			}
			sw = append(sw, uint8(k))
			keys = append(keys, ggfnt.SettingKey(k))
		}
		valid = valid && len(sw) > 0 && m.cases(sw) <= 254 && len(m.Switches) < 254
		if a.edit(valid, fmt.Sprintf("AddSwitch(%v)", sw), func(e env) error {
			arg := slices.Clone(keys)
			key, err := e.b.AddSwitch(arg...)
			if err == nil && int(key) != len(m.Switches) && e.b == a.b {
				r.Failf("wrong switch key", "AddSwitch returned key %d for switch number %d", key, len(m.Switches))
			}
			clear(arg)
			return err
		}) {
			m.Switches = append(m.Switches, sw)
		}
		return
	}

	cp := genCodePoint(r)
	if r.Bool(1, 4) && len(m.Maps) > 0 { // overwrite
		cps := m.codePoints()
		cp = cps[r.N(len(cps))]
	}
	valid := cp >= ' '
	if r.N(20) == 19 {
		cp, valid = rune(r.N(33)-1), false
	}
	flags := func() ggfnt.AnimationFlags { return ggfnt.AnimationFlags(r.N(256)) }
	gl := func() uint64 {
		uid, ok := a.anyGlyph(60)
		valid = valid && ok
		return uid
	}
	group := func(n int) []uint64 {
		g := make([]uint64, 0, n)
		if n > 1 && len(a.uids) > 1 && r.Bool(1, 2) { // consecutive glyphs, in either direction
			base := r.N(max(1, len(a.uids)-n))
			if r.Bool(1, 8) { // starting again from the first one
				base = r.N(len(a.uids))
			}
			for i := 0; i < n; i++ {
				g = append(g, a.uids[(base+i)%len(a.uids)])
			}
			switch r.Pick(4, 2, 2, 1) {
			case 1:
				slices.Reverse(g)
			case 2: // all but one
				k := n - 1
				if r.Bool(1, 2) {
					k = r.N(n)
				}
				g[k] = a.uids[r.N(len(a.uids))]
			case 3:
				k, l := r.N(n), r.N(n)
				g[k], g[l] = g[l], g[k]
			}
			return g
		}
		if n > 12 {
			first, sub := gl(), r.Sub()
			for i := 0; i < n; i++ {
				if len(a.uids) == 0 || i == 0 {
					g = append(g, first)
					continue
				}
				g = append(g, a.uids[sub.N(len(a.uids))])
			}
			return g
		}
		for i := 0; i < n; i++ {
			g = append(g, gl())
		}
		return g
	}
	toSpec := func(g []uint64, f ggfnt.AnimationFlags) (s groupSpec) {
		for _, uid := range g {
			s.Glyphs = append(s.Glyphs, uint16(a.index[uid]))
		}
		if len(g) > 1 {
			s.Flags = f
		}
		return s
	}
	trAll := func(e env, g []uint64) []uint64 {
		out := make([]uint64, len(g))
		for i, uid := range g {
			out[i] = e.tr(uid)
		}
		return out
	}
	kind := r.Pick(4, 3, 3, 5)
	if len(m.Switches) == 0 && r.N(20) != 19 {
		kind &= 1
	}
	switch kind {
	case 0:
		uid := gl()
		if a.edit(valid && a.canMap(cp), fmt.Sprintf("Map(%d, %d)", cp, a.ref(uid)), func(e env) error { return e.b.Map(cp, e.tr(uid)) }) {
			m.Maps[cp] = mapSpec{255, []groupSpec{toSpec([]uint64{uid}, 0)}}
		}
	case 1:
		n := 2 + r.Small(8)
		switch r.N(16) {
		case 15:
			n = r.N(2)
		case 14:
			n = 126 + r.N(3)
		}
		g, fl := group(n), flags()
		valid = valid && n >= 2 && n <= 127
		if a.edit(valid && a.canMap(cp), fmt.Sprintf("MapGroup(%d, %d, %d glyphs)", cp, fl, n), func(e env) error {
			arg := trAll(e, g)
			err := e.b.MapGroup(cp, fl, arg...)
			clear(arg)
			return err
		}) {
			m.Maps[cp] = mapSpec{254, []groupSpec{toSpec(g, fl)}}
		}
	default:
		sw := len(m.Switches)
		if sw > 0 && r.N(30) != 29 {
			sw = r.N(sw)
		}
		cases := 1
		if sw < len(m.Switches) {
			cases = m.cases(m.Switches[sw])
		} else {
			valid = false
		}
		if sw >= 254 {
			return
		}
		if r.N(20) == 19 {
			cases += 1 - 2*r.N(2)
			valid = false
		}
		if kind == 2 {
			g := group(cases)
			if a.edit(valid && a.canMap(cp), fmt.Sprintf("MapWithSwitchSingles(%d, %d, %d glyphs)", cp, sw, cases), func(e env) error {
				arg := trAll(e, g)
				err := e.b.MapWithSwitchSingles(cp, uint8(sw), arg...)
				clear(arg)
				return err
			}) {
				ms := mapSpec{Switch: uint8(sw)}
				for _, uid := range g {
					ms.Groups = append(ms.Groups, toSpec([]uint64{uid}, 0))
				}
				m.Maps[cp] = ms
			}
			return
		}
		var gs [][]uint64
		var fls []ggfnt.AnimationFlags
		ms := mapSpec{Switch: uint8(sw)}
		for i := 0; i < cases; i++ {
			n := 1
			if i < 20 && r.Bool(1, 2) {
				n += r.Small(5)
				if r.N(30) == 29 {
					n = 126 + r.N(4)
				}
			}
			valid = valid && n <= 128
			g := group(n)
			fl := ggfnt.AnimationFlags(0)
			if n > 1 {
				fl = flags()
				fls = append(fls, fl)
			}
			gs = append(gs, g)
			ms.Groups = append(ms.Groups, toSpec(g, fl))
		}
		if r.N(20) == 19 {
			valid = false
			if len(fls) > 0 && r.Bool(1, 2) {
				fls = fls[1:]
			} else {
				fls = append(fls, flags())
			}
		}
		if a.edit(valid && a.canMap(cp), fmt.Sprintf("MapWithSwitch(%d, %d, %d groups)", cp, sw, cases), func(e env) error {
			var arg [][]uint64
			for _, g := range gs {
				arg = append(arg, trAll(e, g))
			}
			farg := slices.Clone(fls)
			err := e.b.MapWithSwitch(cp, uint8(sw), arg, farg)
			for _, g := range arg {
				clear(g)
			}
			clear(farg)
			return err
		}) {
			m.Maps[cp] = ms
		}
	}
}

// --- rewrites ---

func (a *author) anySet(badIn int) (i int, uid uint64) {
	r := a.r
	if len(a.sets) == 0 || r.N(badIn) == badIn-1 {
		if len(a.removed) > 0 && r.Bool(1, 2) {
			uid = a.removed[r.N(len(a.removed))]
			if !slices.ContainsFunc(a.sets, func(s authorSet) bool { return s.uid == uid }) {
				return -1, uid
			}
		}
		return -1, a.unknownUID()
	}
	i = r.N(len(a.sets))
	return i, a.sets[i].uid
}

func (a *author) anyRuneSet(badIn int) (i int, uid uint64) {
	if len(a.rsets) == 0 || a.r.N(badIn) == badIn-1 {
		return -1, a.unknownUID()
	}
	i = a.r.N(len(a.rsets))
	return i, a.rsets[i].uid
}

func (a *author) boolEdit(want bool, what string, f func(e env) bool) bool {
	got := false
	_ = a.do(func(e env) error { got = f(e); return nil })
	a.r.Logf("%s: %v", what, got)
	if got != want {
		if want {
			a.r.Failf("valid edit refused", "%s returned false", what)
		}
		a.r.Failf("invalid edit accepted", "%s returned true", what)
	}
	if got {
		a.accepted++
	} else {
		a.denied++
	}
	return got
}

func (a *author) rewrites() {
	r := a.r
	switch r.Pick(3, 4, 4, 2, 6, 3, 1) {
	case 0:
		if len(a.sets) > 0 && r.Bool(1, 4) {
			i, uid := a.anySet(8)
			if a.boolEdit(i >= 0, "RemoveGlyphSet", func(e env) bool { return e.b.RemoveGlyphSet(e.tr(uid)) }) {
				a.sets = slices.Delete(slices.Clone(a.sets), i, i+1)
				a.removed = append(a.removed, uid)
			}
			return
		}
		a.createSet()
	case 1: // range
		i, uid := a.anySet(15)
		if i < 0 && r.Bool(3, 4) {
			a.createSet()
			return
		}
		first, ok1 := a.anyGlyph(30)
		last, ok2 := a.anyGlyph(30)
		if ok1 && ok2 {
			if x, y := a.index[first], a.index[last]; x > y && r.N(12) != 11 {
				first, last = last, first
			}
		}
		rg := [2]uint64{first, last}
		valid := i >= 0 && ok1 && ok2 && len(a.sets[i].ranges) < 255 && !slices.Contains(a.sets[i].ranges, rg)
		if i >= 0 && len(a.sets[i].ranges) > 0 && r.Bool(1, 4) {
			if r.Bool(3, 4) {
				rg = a.sets[i].ranges[r.N(len(a.sets[i].ranges))]
			}
			k := slices.Index(a.sets[i].ranges, rg)
			if a.boolEdit(k >= 0, "RemoveGlyphSetRange", func(e env) bool { return e.b.RemoveGlyphSetRange(e.tr(uid), e.tr(rg[0]), e.tr(rg[1])) }) {
				a.sets[i].ranges = slices.Delete(slices.Clone(a.sets[i].ranges), k, k+1)
			}
			return
		}
		if a.edit(valid, fmt.Sprintf("AddGlyphSetRange(%d, %d, %d)", i, a.ref(first), a.ref(last)), func(e env) error {
			return e.b.AddGlyphSetRange(e.tr(uid), e.tr(first), e.tr(last))
		}) {
			a.sets[i].ranges = append(a.sets[i].ranges, rg)
		}
	case 2: // list
		i, uid := a.anySet(15)
		if i < 0 && r.Bool(3, 4) {
			a.createSet()
			return
		}
		g, ok := a.anyGlyph(30)
		if i >= 0 && len(a.sets[i].list) > 0 && r.Bool(1, 4) {
			if r.Bool(3, 4) {
				g = a.sets[i].list[r.N(len(a.sets[i].list))]
			}
			k := slices.Index(a.sets[i].list, g)
			if a.boolEdit(k >= 0, "RemoveGlyphSetListGlyph", func(e env) bool { return e.b.RemoveGlyphSetListGlyph(e.tr(uid), e.tr(g)) }) {
				a.sets[i].list = slices.Delete(slices.Clone(a.sets[i].list), k, k+1)
			}
			return
		}
		valid := i >= 0 && ok && len(a.sets[i].list) < 255 && !slices.Contains(a.sets[i].list, g)
		if a.edit(valid, fmt.Sprintf("AddGlyphSetListGlyph(%d, %d)", i, a.ref(g)), func(e env) error { return e.b.AddGlyphSetListGlyph(e.tr(uid), e.tr(g)) }) {
			a.sets[i].list = append(a.sets[i].list, g)
		}
	case 3:
		a.runeSets()
	case 4:
		a.glyphRule()
	case 5:
		n := 1 + r.Small(6)
		switch r.N(20) {
		case 19:
			n = 0
		case 18:
			n = 254 + r.N(3)
		}
		out := genCodePoint(r)
		seq := make([]rune, n)
		sub := r.Sub()
		for i := range seq {
			if i < 8 {
				seq[i] = genCodePoint(r)
			} else {
				seq[i] = genCodePoints[sub.N(len(genCodePoints))]
			}
		}
		if a.edit(n > 0 && n <= 255 && len(a.m.URules) < 65535, fmt.Sprintf("AddSimpleUtf8RewriteRule(%d, %d runes)", out, n), func(e env) error {
			arg := slices.Clone(seq)
			err := e.b.AddSimpleUtf8RewriteRule(out, arg...)
			clear(arg)
			return err
		}) {
			ru := ruleSpec{Cond: 255, Out: []uint32{uint32(out)}}
			for _, c := range seq {
				ru.Body = append(ru.Body, elem{false, uint32(c)})
			}
			a.m.URules = append(a.m.URules, ru)
		}
	case 6: // big list
		i, uid := a.anySet(1 << 30)
		if i < 0 || len(a.uids) == 0 {
			return
		}
		for k := r.N(len(a.uids)); k < len(a.uids) && k < 300; k++ {
			g := a.uids[k]
			valid := len(a.sets[i].list) < 255 && !slices.Contains(a.sets[i].list, g)
			if a.edit(valid, fmt.Sprintf("AddGlyphSetListGlyph(%d, %d)", i, a.ref(g)), func(e env) error { return e.b.AddGlyphSetListGlyph(e.tr(uid), e.tr(g)) }) {
				a.sets[i].list = append(a.sets[i].list, g)
			}
		}
	}
}

func (a *author) createSet() {
	var uid uint64
	if a.edit(len(a.sets) < 255, "CreateGlyphSet", func(e env) error {
		id, err := e.b.CreateGlyphSet()
		if err == nil {
			uid = id
			e.made(id)
		}
		return err
	}) {
		if slices.ContainsFunc(a.sets, func(s authorSet) bool { return s.uid == uid }) {
			a.r.Failf("identifier is not unique", "CreateGlyphSet returned %d, which is already in use", uid)
		}
		a.sets = append(a.sets, authorSet{uid: uid})
	}
}

func (a *author) runeSets() {
	r := a.r
	switch r.N(6) {
	case 0, 1:
		var uid uint64
		if a.edit(len(a.rsets) < 255, "CreateRuneSet", func(e env) error {
			id, err := e.b.CreateRuneSet()
			if err == nil {
				uid = id
				e.made(id)
			}
			return err
		}) {
			if slices.ContainsFunc(a.rsets, func(s runeSet) bool { return s.uid == uid }) {
				r.Failf("identifier is not unique", "CreateRuneSet returned %d, which is already in use", uid)
			}
			a.rsets = append(a.rsets, runeSet{uid: uid})
		}
	case 2:
		i, uid := a.anyRuneSet(6)
		if a.boolEdit(i >= 0, "RemoveRuneSet", func(e env) bool { return e.b.RemoveRuneSet(e.tr(uid)) }) {
			a.rsets = slices.Delete(slices.Clone(a.rsets), i, i+1)
		}
	case 3:
		i, uid := a.anyRuneSet(10)
		rg := [2]rune{genCodePoint(r), genCodePoint(r)}
		if i >= 0 && len(a.rsets[i].ranges) > 0 && r.Bool(1, 3) {
			rg = a.rsets[i].ranges[r.N(len(a.rsets[i].ranges))]
		}
		valid := i >= 0 && rg[0] <= rg[1] && !slices.Contains(a.rsets[i].ranges, rg)
		if a.edit(valid, fmt.Sprintf("AddRuneSetRange(%d, %d, %d)", i, rg[0], rg[1]), func(e env) error { return e.b.AddRuneSetRange(e.tr(uid), rg[0], rg[1]) }) {
			a.rsets[i].ranges = append(a.rsets[i].ranges, rg)
		}
	case 4:
		i, uid := a.anyRuneSet(10)
		c := genCodePoint(r)
		valid := i >= 0 && !slices.Contains(a.rsets[i].list, c)
		if a.edit(valid, fmt.Sprintf("AddRuneSetListRune(%d, %d)", i, c), func(e env) error { return e.b.AddRuneSetListRune(e.tr(uid), c) }) {
			a.rsets[i].list = append(a.rsets[i].list, c)
		}
	case 5:
		i, uid := a.anyRuneSet(10)
		if r.Bool(1, 2) {
			c := genCodePoint(r)
			if i >= 0 && len(a.rsets[i].list) > 0 && r.Bool(2, 3) {
				c = a.rsets[i].list[r.N(len(a.rsets[i].list))]
			}
			k := -1
			if i >= 0 {
				k = slices.Index(a.rsets[i].list, c)
			}
			if a.boolEdit(k >= 0, "RemoveRuneSetListRune", func(e env) bool { return e.b.RemoveRuneSetListRune(e.tr(uid), c) }) {
				a.rsets[i].list = slices.Delete(slices.Clone(a.rsets[i].list), k, k+1)
			}
			return
		}
		rg := [2]rune{genCodePoint(r), genCodePoint(r)}
		if i >= 0 && len(a.rsets[i].ranges) > 0 && r.Bool(2, 3) {
			rg = a.rsets[i].ranges[r.N(len(a.rsets[i].ranges))]
		}
		k := -1
		if i >= 0 {
			k = slices.Index(a.rsets[i].ranges, rg)
		}
		if a.boolEdit(k >= 0, "RemoveRuneSetRange", func(e env) bool { return e.b.RemoveRuneSetRange(e.tr(uid), rg[0], rg[1]) }) {
			a.rsets[i].ranges = slices.Delete(slices.Clone(a.rsets[i].ranges), k, k+1)
		}
	}
}

func (a *author) glyphRule() {
	r := a.r
	ru := authorRule{head: r.Small(4), body: 1 + r.Small(6), tail: r.Small(4)}
	valid := true
	switch r.N(24) {
	case 23:
		ru.body, valid = 0, false
	case 22:
		ru.head, ru.body, ru.tail = r.N(90), 1+r.N(90), r.N(90)
	case 21:
		ru.body = 15 + r.N(40)
	case 20:
		ru.head, ru.body, ru.tail = 100, 100, 55+r.N(2)
	case 19:
		ru.head, ru.body, ru.tail = 200, 200, r.N(30)
	case 18:
		ru.head = 15 + r.N(20)
	case 17:
		ru.tail = 15 + r.N(20)
	}
	n := ru.head + ru.body + ru.tail
	valid = valid && n <= 255
	if r.N(30) == 29 {
		n += 1 - 2*r.N(2)
		valid = false
	}
	n = max(0, n)
	sub := r.Sub()
	pSet := 1 + r.N(4)
	for i := 0; i < n; i++ {
		if i < 12 {
			uid, ok := a.anyGlyph(0)
			if len(a.sets) > 0 && r.Bool(1, 1+pSet) {
				uid, ok = a.sets[r.N(len(a.sets))].uid, true
			}
			valid = valid && ok
			ru.in = append(ru.in, uid)
			continue
		}
		if len(a.sets) > 0 && sub.N(1+pSet) == 0 {
			ru.in = append(ru.in, a.sets[sub.N(len(a.sets))].uid)
		} else if len(a.uids) > 0 {
			ru.in = append(ru.in, a.uids[sub.N(len(a.uids))])
		} else {
			ru.in = append(ru.in, ru.in[0])
		}
	}
	if n > 0 && r.N(30) == 29 {
		ru.in[r.N(n)] = a.unknownUID()
		valid = false
	}
	nout := 1
	if ru.body > 1 {
		nout = 1 + r.N(ru.body)
	}
	switch r.N(30) {
	case 29:
		nout, valid = 0, false
	case 28:
		nout, valid = ru.body+1+r.N(3), false
	}
	var out []uint64
	for i := 0; i < nout; i++ {
		uid, ok := a.anyGlyph(0)
		if len(a.uids) > 0 && i > 8 {
			uid, ok = a.uids[sub.N(len(a.uids))], true
		}
		if r.N(120) == 119 {
			uid, ok = a.anyGlyph(1)
		}
		valid = valid && ok
		out = append(out, uid)
		ru.out = append(ru.out, uint16(max(0, a.ref(uid))))
	}
	if ru.head > 255 || ru.body > 255 || ru.tail > 255 {
		return
	}
	if a.edit(valid && len(a.rules) < 65535, fmt.Sprintf("AddGlyphRewriteRule(%d, %d, %d, %d in, %d out)", ru.head, ru.body, ru.tail, n, nout), func(e env) error {
		in := make([]uint64, len(ru.in))
		for i, uid := range ru.in {
			in[i] = e.tr(uid)
		}
		o := make([]uint64, len(out))
		for i, uid := range out {
			o[i] = e.tr(uid)
		}
		err := e.b.AddGlyphRewriteRule(uint8(ru.head), uint8(ru.body), uint8(ru.tail), in, o...)
		clear(in)
		clear(o)
		return err
	}) {
		a.rules = append(a.rules, ru)
	}
}

// --- kerning ---

func (a *author) kerning() {
	r := a.r
	p, _ := a.anyGlyph(200)
	q, _ := a.anyGlyph(200)
	if len(a.hk) > 0 && r.Bool(1, 3) {
		pairs := a.pairs(a.hk)
		k := pairs[r.N(len(pairs))]
		p, q = k[0], k[1]
	}
	v := int8(r.N(256) - 128)
	if r.N(4) == 3 {
		v = 0
	}
	a.setKern(p, q, v)
}

func (a *author) setKern(p, q uint64, v int8) {
	a.edit(true, fmt.Sprintf("SetKerningPair(%d, %d, %d)", a.ref(p), a.ref(q), v), func(e env) error { e.b.SetKerningPair(e.tr(p), e.tr(q), v); return nil })
	if v == 0 {
		delete(a.hk, [2]uint64{p, q})
	} else {
		a.hk[[2]uint64{p, q}] = kern{v, 0}
	}
}

// pairs gives the keys in an order that doesn't depend on map iteration.
func (a *author) pairs(k map[[2]uint64]kern) [][2]uint64 {
	var out [][2]uint64
	for p := range k {
		out = append(out, p)
	}
	slices.SortFunc(out, func(x, y [2]uint64) int {
		for i := range x {
			if rx, ry := a.ref(x[i]), a.ref(y[i]); rx != ry {
				return rx - ry
			}
			if x[i] != y[i] {
				if x[i] < y[i] {
					return -1
				}
				return 1
			}
		}
		return 0
	})
	return out
}

// --- edition data ---

type editionPair struct{ a, b, class int }

// editionSpec is the contents of an edition data file.
type editionSpec struct {
	ID      uint64
	Cats    []string
	Sizes   []int
	Names   []string
	Values  []int8
	H, V    []editionPair
	Conds   int
	invalid string // why it isn't valid
}

func genSpacedName(r *core.R) string {
	switch r.N(5) {
	case 0:
		return "a name -- with spaces"
	case 1:
		return strings.Repeat("n", 32)
	}
	return genName(r, "")
}

// genEdition draws edition data for the author's font; maybe invalid.
func (a *author) genEdition(mayFail bool) *editionSpec {
	r := a.r
	e := &editionSpec{ID: a.m.ID}
	for k := r.Small(4); k > 0; k-- {
		e.Cats = append(e.Cats, genSpacedName(r))
		e.Sizes = append(e.Sizes, r.Small(65535))
	}
	nc := r.Small(6)
	if r.N(20) == 19 {
		nc = 300
	}
	sub := r.Sub()
	for k := 0; k < nc; k++ {
		if k < 8 {
			e.Names = append(e.Names, genSpacedName(r))
			e.Values = append(e.Values, int8(r.N(256)-128))
			if r.N(6) == 5 {
				e.Values[k] = 0
			}
			continue
		}
		e.Names = append(e.Names, "c")
		e.Values = append(e.Values, int8(sub.N(256)))
	}
	if nc > 0 && len(a.uids) > 0 {
		for _, list := range []*[]editionPair{&e.H, &e.V} {
			for k := r.Small(20); k > 0; k-- {
				p := editionPair{r.N(len(a.uids)), r.N(len(a.uids)), 1 + r.N(nc)}
				if len(a.hk) > 0 && r.Bool(1, 3) { // pair that already has a value
					ps := a.pairs(a.hk)
					h := ps[r.N(len(ps))]
					if a.ref(h[0]) >= 0 && a.ref(h[1]) >= 0 {
						p.a, p.b = a.ref(h[0]), a.ref(h[1])
					}
				}
				*list = append(*list, p)
			}
		}
	}
	if !mayFail {
		return e
	}
	bad := func() *editionPair {
		list := &e.H
		if r.Bool(1, 2) {
			list = &e.V
		}
		p := editionPair{0, 0, 1}
		i := r.N(len(*list) + 1)
		*list = slices.Insert(*list, i, p)
		return &(*list)[i]
	}
	switch r.N(8) {
	case 0:
		e.ID ^= 1 << r.N(64)
		e.invalid = "other font"
	case 1:
		e.Cats = append(e.Cats, []string{"", "é", "a_b", strings.Repeat("n", 33)}[r.N(4)])
		e.Sizes = append(e.Sizes, 0)
		e.invalid = "bad category name"
	case 2:
		e.Names = append(e.Names, []string{"", "é", "a_b", strings.Repeat("n", 33)}[r.N(4)])
		e.Values = append(e.Values, 0)
		e.invalid = "bad class name"
	case 3:
		bad().class = 0
		e.invalid = "class zero"
	case 4:
		bad().class = len(e.Names) + 1 + r.Small(65535-len(e.Names)-1)
		e.invalid = "undefined class"
	case 5:
		if len(e.Names) == 0 {
			e.Names, e.Values = []string{"x"}, []int8{1}
		}
		bad().a = len(a.uids) + r.Small(65535-len(a.uids))
		e.invalid = "undefined glyph"
	case 6:
		if len(e.Names) == 0 {
			e.Names, e.Values = []string{"x"}, []int8{1}
		}
		bad().b = len(a.uids) + r.Small(65535-len(a.uids))
		e.invalid = "undefined glyph"
	case 7:
		e.Conds = 1 + r.N(255)
		e.invalid = "wrong number of conditions"
	}
	return e
}

func (e *editionSpec) Encode() []byte {
	var d []byte
	d = u64(d, e.ID)
	d = append(d, uint8(len(e.Cats)))
	for _, c := range e.Cats {
		d = shortStr(d, c)
	}
	for _, s := range e.Sizes {
		d = u16(d, s)
	}
	d = u16(d, len(e.Names))
	for _, c := range e.Names {
		d = shortStr(d, c)
	}
	for _, v := range e.Values {
		d = append(d, uint8(v))
	}
	for _, list := range [][]editionPair{e.H, e.V} {
		d = u24(d, len(list))
		for _, p := range list {
			d = u16(u16(u16(d, p.a), p.b), p.class)
		}
	}
	d = append(d, uint8(e.Conds))
	for i := 0; i < e.Conds; i++ {
		d = shortStr(d, "cond")
	}
	return d
}

// clearEdition is the model of ClearEditionData.
func (a *author) clearEdition() {
	a.classes = nil
	for _, m := range []map[[2]uint64]kern{a.hk, a.vk} {
		for p, k := range m {
			if k.value == 0 {
				delete(m, p)
			} else {
				m[p] = kern{k.value, 0}
			}
		}
	}
}

func (a *author) applyEdition(e *editionSpec) {
	a.classes = append([]int8(nil), e.Values...)
	for i, list := range [][]editionPair{e.H, e.V} {
		m := []map[[2]uint64]kern{a.hk, a.vk}[i]
		for _, p := range list {
			key := [2]uint64{a.uids[p.a], a.uids[p.b]}
			k := m[key]
			k.class = p.class
			m[key] = k
		}
	}
}

func (a *author) edition() {
	r := a.r
	if r.N(5) == 4 {
		a.edit(true, "ClearEditionData", func(e env) error { e.b.ClearEditionData(); return nil })
		a.clearEdition()
		return
	}
	ed := a.genEdition(r.N(4) == 3)
	file := wrap(editionSig, ed.Encode(), 1+r.N(9))
	a.loadEdition(file, ed, drawDelivery(r, len(file)))
}

// loadEdition loads edition data; the delivery must be free of faults.
func (a *author) loadEdition(file []byte, ed *editionSpec, d delivery) bool {
	a.clearEdition()
	ok := a.edit(ed.invalid == "", fmt.Sprintf("ParseEditionData(%d classes, %d+%d pairs, %q)", len(ed.Names), len(ed.H), len(ed.V), ed.invalid), func(e env) error {
		if e.b != a.b {
			return e.b.ParseEditionData(bytes.NewReader(file))
		}
		return e.b.ParseEditionData(newReader(a.r, file, d))
	})
	if ok {
		a.applyEdition(ed)
	} else {
		a.hist = append(a.hist, histItem{a.r.Now(), func(e env) error { e.b.ClearEditionData(); return nil }})
	}
	return ok
}

// --- model ---

// spec gives the font contents that the accepted edits stand for. If they can't
// be built yet, it says why.
func (a *author) spec() (*Spec, string) {
	s := a.m
	s.HKern, s.VKern = map[[2]uint16]int8{}, map[[2]uint16]int8{}
	s.Maps = map[rune]mapSpec{}
	for cp, m := range a.m.Maps {
		s.Maps[cp] = m
	}
	s.Glyphs = slices.Clone(s.Glyphs)
	s.Dyes, s.Pals, s.Settings, s.Switches, s.URules = slices.Clip(s.Dyes), slices.Clip(s.Pals), slices.Clip(s.Settings), slices.Clip(s.Switches), slices.Clip(s.URules)
	if len(s.Dyes)+len(s.Pals) == 0 {
		s.Dyes = []dyeSpec{{"main", []uint8{255}}}
	}
	if len(s.Glyphs) == 0 {
		return nil, "no glyphs"
	}
	if !s.metricsOK() {
		return nil, "inconsistent metrics"
	}
	names := map[string]bool{}
	for _, g := range s.Glyphs {
		if g.Name != "" && names[g.Name] {
			return nil, "repeated glyph name"
		}
		names[g.Name] = true
	}
	words := map[string]bool{}
	for _, st := range s.Settings {
		for _, o := range st.Options {
			words[o] = true
		}
	}
	if len(words) > 255 {
		return nil, "too many words"
	}
	if len(a.rsets) > 0 {
		return nil, "rune sets"
	}
	if a.heavy && s.mappingSize() > maxBlock {
		return nil, "too much mapping data"
	}
	setIndex := map[uint64]int{}
	for i, st := range a.sets {
		setIndex[st.uid] = i
		var sp setSpec
		for _, rg := range st.ranges {
			x, y := a.index[rg[0]], a.index[rg[1]]
			if x > y || y-x > 255 {
				return nil, "bad set range"
			}
			sp.Ranges = append(sp.Ranges, rangeSpec{uint32(x), uint32(y)})
		}
		for _, g := range st.list {
			sp.List = append(sp.List, uint32(a.index[g]))
		}
		s.GlyphSets = append(s.GlyphSets, sp)
	}
	size := 0
	for _, st := range s.GlyphSets {
		size += 2 + 3*len(st.Ranges) + 2*len(st.List)
	}
	if size > 65535 {
		return nil, "too much set data"
	}
	for _, ru := range a.rules {
		out := ruleSpec{Cond: 255}
		for i, uid := range ru.in {
			var e elem
			if g, ok := a.index[uid]; ok {
				e = elem{false, uint32(g)}
			} else if k, ok := setIndex[uid]; ok {
				e = elem{true, uint32(k)}
			} else {
				return nil, "rule with removed set"
			}
			switch {
			case i < ru.head:
				out.Head = append(out.Head, e)
			case i < ru.head+ru.body:
				out.Body = append(out.Body, e)
			default:
				out.Tail = append(out.Tail, e)
			}
		}
		for _, g := range ru.out {
			out.Out = append(out.Out, uint32(g))
		}
		s.GRules = append(s.GRules, out)
	}
	for i, m := range []map[[2]uint64]kern{a.hk, a.vk} {
		dst := []map[[2]uint16]int8{s.HKern, s.VKern}[i]
		for p, k := range m {
			x, ok1 := a.index[p[0]]
			y, ok2 := a.index[p[1]]
			if !ok1 || !ok2 {
				return nil, "kerning with undefined glyph"
			}
			v := k.value
			if k.class != 0 {
				v = a.classes[k.class-1]
			}
			dst[[2]uint16{uint16(x), uint16(y)}] = v
		}
	}
	if a.heavy {
		if why := a.tooBig(&s); why != "" {
			return nil, why
		}
	}
	return &s, ""
}

// repair makes further edits until the contents can be built.
func (a *author) repair() *Spec {
	r := a.r
	for i := 0; i < 600; i++ {
		s, why := a.spec()
		if s != nil {
			return s
		}
		m := &a.m
		switch why {
		case "no glyphs":
			a.addGlyph(image.NewAlpha(image.Rect(0, 0, 1, 1)))
		case "inconsistent metrics":
			fix := func(dst *uint8, v uint8, f func(b *builder.Font, v uint8)) {
				a.edit(true, "metrics fix", func(e env) error { f(e.b, v); return nil })
				*dst = v
			}
			if m.Ascent < 2 {
				fix(&m.Ascent, 9, (*builder.Font).SetAscent)
			}
			if m.ExtraAscent >= m.Ascent {
				fix(&m.ExtraAscent, m.Ascent-1, (*builder.Font).SetExtraAscent)
			}
			if m.Upper > m.Ascent {
				fix(&m.Upper, m.Ascent, (*builder.Font).SetUppercaseAscent)
			}
			if m.Mid > m.Upper {
				fix(&m.Mid, m.Upper, (*builder.Font).SetMidlineAscent)
			}
			if m.VertInter != 0 && !m.Vert {
				fix(&m.VertInter, 0, (*builder.Font).SetVertInterspacing)
			}
		case "repeated glyph name":
			names := map[string]bool{}
			for i, g := range m.Glyphs {
				if g.Name != "" && names[g.Name] {
					name, uid := fmt.Sprintf("fix%d", i), a.uids[i]
					a.edit(true, "name fix", func(e env) error { return e.b.SetGlyphName(e.tr(uid), name) })
					m.Glyphs[i].Name = name
				}
				names[g.Name] = true
			}
		case "rune sets":
			uid := a.rsets[0].uid
			a.boolEdit(true, "RemoveRuneSet", func(e env) bool { return e.b.RemoveRuneSet(e.tr(uid)) })
			a.rsets = slices.Clone(a.rsets[1:])
		case "bad set range":
			for i := range a.sets {
				uid := a.sets[i].uid
				a.sets[i].ranges = slices.DeleteFunc(slices.Clone(a.sets[i].ranges), func(rg [2]uint64) bool {
					x, y := a.index[rg[0]], a.index[rg[1]]
					if x <= y && y-x <= 255 {
						return false
					}
					return a.boolEdit(true, "RemoveGlyphSetRange", func(e env) bool { return e.b.RemoveGlyphSetRange(e.tr(uid), e.tr(rg[0]), e.tr(rg[1])) })
				})
			}
		case "too much mapping data": // map the last ones again to less
			cp := slices.Max(a.mapped())
			if a.edit(true, fmt.Sprintf("Map(%#x)", cp), func(e env) error { return e.b.Map(cp, e.tr(a.uids[0])) }) {
				m.Maps[cp] = mapSpec{255, []groupSpec{{Glyphs: []uint16{0}}}}
				if i > 20 {
					return nil
				}
			}
		case "kerning with undefined glyph":
			fixed := false
			for _, p := range a.pairs(a.hk) {
				if a.ref(p[0]) < 0 || a.ref(p[1]) < 0 {
					a.setKern(p[0], p[1], 0)
					fixed = true
				}
			}
			if !fixed {
				return nil
			}
		default: // can't be repaired
			return nil
		}
	}
	r.Harnessf("repair doesn't converge")
	return nil
}

// dead tells if the contents can't become exportable anymore.
func (a *author) dead() bool {
	_, why := a.spec()
	return why == "too many words" || why == "too much set data" || why == "too much mask data" || why == "too much rule data" || why == "rule with removed set"
}

// observe describes everything that the builder reports, short of building.
func (a *author) observe() string {
	var sb strings.Builder
	b := a.b
	w := func(format string, args ...any) { fmt.Fprintf(&sb, format+"\n", args...) }
	w("%d %s %d %d %s", b.GetFontID(), b.GetFontIDStr(), b.GetVersionMajor(), b.GetVersionMinor(), b.GetVersionStr())
	w("%v %v %v", b.GetFirstVerDate(), b.GetMajorVerDate(), b.GetMinorVerDate())
	w("%q %q %q %q", b.GetName(), b.GetFamily(), b.GetAuthor(), b.GetAbout())
	w("%d %d %d %d %d %d %d %d %d %d %d %d %d", b.GetNumGlyphs(), b.GetMonoWidth(), b.GetAscent(), b.GetExtraAscent(), b.GetDescent(), b.GetExtraDescent(), b.GetUppercaseAscent(),
		b.GetMidlineAscent(), b.GetHorzInterspacing(), b.GetVertInterspacing(), b.GetLineGap(), b.GetVertLineWidth(), b.GetVertLineGap())
	w("%v", b.GetMetricsStatus())
	for _, y := range a.m.Dyes {
		w("dye %q %v", y.Name, b.EachDyeAlpha(y.Name, func(v, i uint8) { w(" %d %d", v, i) }))
	}
	for _, p := range a.m.Pals {
		w("palette %q %v", p.Name, b.EachPaletteColor(p.Name, func(v color.RGBA, i uint8) { w(" %v %d", v, i) }))
	}
	for i, s := range a.sets {
		w("set %d", i)
		b.EachGlyphSetRange(s.uid, func(x, y uint64) { w(" %d-%d", a.ref(x), a.ref(y)) })
		b.EachGlyphSetListGlyph(s.uid, func(x uint64) { w(" %d", a.ref(x)) })
	}
	for i, s := range a.rsets {
		w("rune set %d", i)
		b.EachRuneSetRange(s.uid, func(x, y rune) { w(" %d-%d", x, y) })
		b.EachRuneSetListRune(s.uid, func(x rune) { w(" %d", x) })
	}
	return sb.String()
}

// model gives the expected result of observe.
func (a *author) model() string {
	var sb strings.Builder
	m := &a.m
	w := func(format string, args ...any) { fmt.Fprintf(&sb, format+"\n", args...) }
	w("%d %016X %d %d v%d.%02d", m.ID, m.ID, m.Major, m.Minor, m.Major, m.Minor)
	w("%v %v %v", m.FirstDate, m.MajDate, m.MinDate)
	w("%q %q %q %q", m.Name, m.Family, m.Author, m.About)
	w("%d %d %d %d %d %d %d %d %d %d %d %d %d", len(m.Glyphs), m.Mono, m.Ascent, m.ExtraAscent, m.Descent, m.ExtraDescent, m.Upper, m.Mid, m.HorzInter, m.VertInter, m.LineGap, m.VertW, m.VertGap)
	sb.WriteString("metrics\n")
	index := 255
	for _, y := range m.Dyes {
		for k, v := range y.Alphas {
			w(" %d %d", v, index-k)
		}
		w("dye %q %v", y.Name, nil)
		index -= len(y.Alphas)
	}
	for _, p := range m.Pals {
		for k, v := range p.Colors {
			w(" %v %d", v, index-k)
		}
		w("palette %q %v", p.Name, nil)
		index -= len(p.Colors)
	}
	for i, s := range a.sets {
		w("set %d", i)
		for _, rg := range s.ranges {
			w(" %d-%d", a.ref(rg[0]), a.ref(rg[1]))
		}
		for _, g := range s.list {
			w(" %d", a.ref(g))
		}
	}
	for i, s := range a.rsets {
		w("rune set %d", i)
		for _, rg := range s.ranges {
			w(" %d-%d", rg[0], rg[1])
		}
		for _, g := range s.list {
			w(" %d", g)
		}
	}
	return sb.String()
}

// check compares what the builder reports with the model.
func (a *author) check(what string) {
	got, want := a.observe(), a.model()
	lines := strings.Split(got, "\n")
	status := "<nil>"
	for i, l := range lines {
		if i == 4 { // metrics status: only whether there is an error is known
			status = l
			lines[i] = "metrics"
		}
	}
	got = strings.Join(lines, "\n")
	if got != want {
		a.r.Failf("builder reports wrong contents", "%s: %s", what, firstDiff(got, want))
	}
	if (status == "<nil>") != a.m.metricsOK() {
		a.r.Failf("wrong metrics status", "%s: metrics status is %q", what, status)
	}
}
