package world

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"image"
	"image/color"
	"io"
	"sort"

	"github.com/tinne26/ggfnt"

	"verif.local/sim/core"
)

// Spec is the reference model of a font's contents.
type Spec struct {
	ID                          uint64
	Major, Minor                uint16
	FirstDate, MajDate, MinDate ggfnt.Date
	Name, Family, Author, About string
	Vert                        bool
	Mono, Ascent, ExtraAscent   uint8
	Descent, ExtraDescent       uint8
	Upper, Mid                  uint8
	HorzInter, VertInter        uint8
	LineGap, VertW, VertGap     uint8
	Dyes                        []dyeSpec
	Pals                        []palSpec
	Glyphs                      []glyphSpec
	Settings                    []settingSpec
	Switches                    [][]uint8
	Maps                        map[rune]mapSpec
	Conds                       []*condSpec
	RuneSets, GlyphSets         []setSpec
	URules, GRules              []ruleSpec
	HKern, VKern                map[[2]uint16]int8

	marks []int // positions in the encoded data where parts of it end
}

type dyeSpec struct {
	Name   string
	Alphas []uint8
}
type palSpec struct {
	Name   string
	Colors []color.RGBA
}
type glyphSpec struct {
	Name string
	P    ggfnt.GlyphPlacement
	Mask *image.Alpha
}
type settingSpec struct {
	Name    string
	Options []string
}
type groupSpec struct {
	Glyphs []uint16
	Flags  ggfnt.AnimationFlags
}
type mapSpec struct {
	Switch uint8 // 255 direct, 254 one group
	Groups []groupSpec
}
type rangeSpec struct{ First, Last uint32 }
type setSpec struct {
	Ranges []rangeSpec
	List   []uint32
}
type elem struct {
	Set bool
	V   uint32
}
type ruleSpec struct {
	Cond             uint8
	Head, Body, Tail []elem
	Out              []uint32
}

func (s *setSpec) has(v uint32) bool {
	for _, r := range s.Ranges {
		if v >= r.First && v <= r.Last {
			return true
		}
	}
	for _, e := range s.List {
		if e == v {
			return true
		}
	}
	return false
}

// condSpec is a rewrite condition.
type condSpec struct {
	Op    int // 0 or, 1 and, 2 compare settings, 3 compare with const, 4-7 quick == != < >
	Cmp   int // == != < > <= >=
	A, B  uint8
	Terms []*condSpec
}

func (c *condSpec) eval(settings []uint8) bool {
	cmp := func(op int, a, b uint8) bool {
		switch op {
		case 0:
			return a == b
		case 1:
			return a != b
		case 2:
			return a < b
		case 3:
			return a > b
		case 4:
			return a <= b
		}
		return a >= b
	}
	switch c.Op {
	case 0:
		for _, t := range c.Terms {
			if t.eval(settings) {
				return true
			}
		}
		return false
	case 1:
		for _, t := range c.Terms {
			if !t.eval(settings) {
				return false
			}
		}
		return true
	case 2:
		return cmp(c.Cmp, settings[c.A], settings[c.B])
	case 3:
		return cmp(c.Cmp, settings[c.A], c.B)
	}
	return cmp(c.Op-4, settings[c.A], c.B)
}

func (c *condSpec) encode(data []byte) []byte {
	switch c.Op {
	case 0, 1:
		data = append(data, uint8(c.Op<<5|len(c.Terms)))
		for _, t := range c.Terms {
			data = t.encode(data)
		}
		return data
	case 2:
		return append(data, uint8(0b0100_0000|c.Cmp), c.A, c.B)
	case 3:
		return append(data, uint8(0b0101_0000|c.Cmp), c.A, c.B)
	}
	return append(data, uint8((c.Op-1)<<5)|c.B, c.A)
}

// words used for setting options
func (s *Spec) word(w string) (predefined int) {
	for i := 0; i < 256; i++ {
		if ggfnt.GetPredefinedWord(uint8(i)) == w {
			return i
		}
	}
	return -1
}

func u16(d []byte, v int) []byte { return binary.LittleEndian.AppendUint16(d, uint16(v)) }
func u24(d []byte, v int) []byte { return append(d, byte(v), byte(v>>8), byte(v>>16)) }
func u32(d []byte, v uint32) []byte {
	return binary.LittleEndian.AppendUint32(d, v)
}
func u64(d []byte, v uint64) []byte { return binary.LittleEndian.AppendUint64(d, v) }
func shortStr(d []byte, s string) []byte {
	return append(append(d, uint8(len(s))), s...)
}

// Encode gives the uncompressed font data according to the format specification.
func (s *Spec) Encode() []byte {
	var d []byte
	s.marks = s.marks[:0:0]
	mark := func() { s.marks = append(s.marks, len(d)) }
	date := func(v ggfnt.Date) {
		d = append(u16(d, int(v.Year)), v.Month, v.Day)
	}
	b := func(v bool) uint8 {
		if v {
			return 1
		}
		return 0
	}
	// header
	d = u32(d, 2)
	d = u64(d, s.ID)
	d = u16(u16(d, int(s.Major)), int(s.Minor))
	date(s.FirstDate)
	date(s.MajDate)
	date(s.MinDate)
	d = shortStr(shortStr(shortStr(d, s.Name), s.Family), s.Author)
	d = append(u16(d, len(s.About)), s.About...)
	mark()
	// metrics
	d = u16(d, len(s.Glyphs))
	d = append(d, b(s.Vert), s.Mono, s.Ascent, s.ExtraAscent, s.Descent, s.ExtraDescent, s.Upper, s.Mid, s.HorzInter, s.VertInter, s.LineGap, s.VertW, s.VertGap)
	mark()
	// color
	d = append(d, uint8(len(s.Dyes)))
	n := 0
	for _, y := range s.Dyes {
		n += len(y.Alphas)
		d = append(d, uint8(n))
	}
	for _, y := range s.Dyes {
		d = append(d, y.Alphas...)
	}
	n = 0
	for _, y := range s.Dyes {
		n += len(y.Name)
		d = u16(d, n)
	}
	for _, y := range s.Dyes {
		d = append(d, y.Name...)
	}
	mark()
	d = append(d, uint8(len(s.Pals)))
	n = 0
	for _, p := range s.Pals {
		n += len(p.Colors)
		d = append(d, uint8(n))
	}
	for _, p := range s.Pals {
		for _, c := range p.Colors {
			d = append(d, c.R, c.G, c.B, c.A)
		}
	}
	n = 0
	for _, p := range s.Pals {
		n += len(p.Name)
		d = u16(d, n)
	}
	for _, p := range s.Pals {
		d = append(d, p.Name...)
	}
	mark()
	// glyph names
	named := s.namedGlyphs()
	d = u16(d, len(named))
	for _, i := range named {
		d = u16(d, i)
	}
	n = 0
	for _, i := range named {
		n += len(s.Glyphs[i].Name)
		d = u24(d, n)
	}
	for _, i := range named {
		d = append(d, s.Glyphs[i].Name...)
	}
	mark()
	// glyph masks
	var masks []byte
	for _, g := range s.Glyphs {
		masks = append(masks, g.P.Advance)
		if s.Vert {
			masks = append(masks, g.P.TopAdvance, g.P.BottomAdvance, g.P.HorzCenter)
		}
		if g.Mask != nil {
			masks = append(masks, encodedBy(g.Mask)...)
		}
		d = u24(d, len(masks))
	}
	mark()
	d = append(d, masks...)
	// words
	var words []string
	index := map[string]int{}
	for _, st := range s.Settings {
		for _, o := range st.Options {
			if s.word(o) >= 0 {
				continue
			}
			if _, ok := index[o]; !ok {
				index[o] = len(words)
				words = append(words, o)
			}
		}
	}
	for again := true; again; { // predefined words shadowed by custom ones
		again = false
		for _, st := range s.Settings {
			for _, o := range st.Options {
				if _, ok := index[o]; !ok && s.word(o) < len(words) {
					index[o] = len(words)
					words = append(words, o)
					again = true
				}
			}
		}
	}
	mark()
	d = append(d, uint8(len(words)))
	n = 0
	for _, w := range words {
		n += len(w)
		d = u16(d, n)
	}
	for _, w := range words {
		d = append(d, w...)
	}
	mark()
	// settings
	d = append(d, uint8(len(s.Settings)))
	n = 0
	for _, st := range s.Settings {
		n += len(st.Name)
		d = u16(d, n)
	}
	for _, st := range s.Settings {
		d = append(d, st.Name...)
	}
	n = 0
	for _, st := range s.Settings {
		n += len(st.Options)
		d = u16(d, n)
	}
	for _, st := range s.Settings {
		for _, o := range st.Options {
			i, ok := index[o]
			if !ok {
				i = s.word(o)
			}
			d = append(d, uint8(i))
		}
	}
	mark()
	// switches
	d = append(d, uint8(len(s.Switches)))
	n = 0
	for _, sw := range s.Switches {
		n += len(sw)
		d = u16(d, n)
	}
	for _, sw := range s.Switches {
		d = append(d, sw...)
	}
	mark()
	// mapping
	cps := s.codePoints()
	d = u16(d, len(cps))
	for _, cp := range cps {
		d = u32(d, uint32(cp))
	}
	var maps []byte
	for i, cp := range cps {
		m := s.Maps[cp]
		maps = append(maps, m.Switch)
		if m.Switch == 255 {
			maps = u16(maps, int(m.Groups[0].Glyphs[0]))
		} else {
			for _, g := range m.Groups {
				n := len(g.Glyphs)
				if n == 1 {
					// a range of one glyph is as valid as a list of one
					maps = append(maps, 0)
					maps = u16(maps, int(g.Glyphs[0]))
					continue
				}
				cont := i%2 == 0 // both representations are valid
				for k := 1; k < n; k++ {
					cont = cont && g.Glyphs[k] == g.Glyphs[k-1]+1
				}
				if cont {
					maps = append(maps, 0x80|uint8(n-1), uint8(g.Flags))
					maps = u16(maps, int(g.Glyphs[0]))
				} else {
					maps = append(maps, uint8(n-1), uint8(g.Flags))
					for _, x := range g.Glyphs {
						maps = u16(maps, int(x))
					}
				}
			}
		}
		d = u24(d, len(maps))
	}
	d = append(d, maps...)
	mark()
	// conditions
	d = append(d, uint8(len(s.Conds)))
	var blob []byte
	for _, c := range s.Conds {
		blob = c.encode(blob)
		d = u16(d, len(blob))
	}
	d = append(d, blob...)
	mark()
	// sets
	for kind, sets := range [][]setSpec{s.RuneSets, s.GlyphSets} {
		d = append(d, uint8(len(sets)))
		var blob []byte
		for _, st := range sets {
			blob = st.encode(blob, kind == 0)
			d = u16(d, len(blob))
		}
		d = append(d, blob...)
		mark()
	}
	mark()
	// rules
	for kind, rules := range [][]ruleSpec{s.URules, s.GRules} {
		d = u16(d, len(rules))
		var blob []byte
		for _, ru := range rules {
			blob = append(blob, ru.encode(kind == 0)...)
			d = u24(d, len(blob))
		}
		d = append(d, blob...)
		mark()
	}
	mark()
	// kerning
	for _, k := range []map[[2]uint16]int8{s.HKern, s.VKern} {
		pairs := sortedPairs(k)
		d = u24(d, len(pairs))
		for _, p := range pairs {
			d = u32(d, uint32(p[0])<<16|uint32(p[1]))
		}
		for _, p := range pairs {
			d = append(d, uint8(k[p]))
		}
	}
	mark()
	return d
}

func (s *setSpec) encode(d []byte, runes bool) []byte {
	put := func(v uint32) {
		if runes {
			d = u32(d, v)
		} else {
			d = u16(d, int(v))
		}
	}
	d = append(d, uint8(len(s.Ranges)))
	for _, r := range s.Ranges {
		put(r.First)
		d = append(d, uint8(r.Last-r.First))
	}
	d = append(d, uint8(len(s.List)))
	for _, e := range s.List {
		put(e)
	}
	return d
}

// encode gives the rule's data; fragments are as long as they can be.
func (ru *ruleSpec) encode(runes bool) []byte {
	d := []byte{ru.Cond, uint8(len(ru.Head)), uint8(len(ru.Body)), uint8(len(ru.Tail)), uint8(len(ru.Out))}
	put := func(v uint32) {
		if runes {
			d = u32(d, v)
		} else {
			d = u16(d, int(v))
		}
	}
	for _, o := range ru.Out {
		put(o)
	}
	for _, block := range [][]elem{ru.Head, ru.Body, ru.Tail} {
		if len(block) == 0 {
			d = append(d, 0)
		}
		for len(block) > 0 {
			sets, elems := 0, 0
			for sets < len(block) && sets < 15 && block[sets].Set {
				sets++
			}
			for sets+elems < len(block) && elems < 15 && !block[sets+elems].Set {
				elems++
			}
			d = append(d, uint8(sets<<4|elems))
			for _, e := range block[:sets] {
				d = append(d, uint8(e.V))
			}
			for _, e := range block[sets : sets+elems] {
				put(e.V)
			}
			block = block[sets+elems:]
		}
	}
	return d
}

func (s *Spec) namedGlyphs() []int {
	var named []int
	for i, g := range s.Glyphs {
		if g.Name != "" {
			named = append(named, i)
		}
	}
	sort.Slice(named, func(a, b int) bool { return s.Glyphs[named[a]].Name < s.Glyphs[named[b]].Name })
	return named
}

func (s *Spec) codePoints() []rune {
	var cps []rune
	for cp := range s.Maps {
		cps = append(cps, cp)
	}
	sort.Slice(cps, func(i, j int) bool { return cps[i] < cps[j] })
	return cps
}

func sortedPairs(k map[[2]uint16]int8) [][2]uint16 {
	var pairs [][2]uint16
	for p := range k {
		pairs = append(pairs, p)
	}
	sort.Slice(pairs, func(i, j int) bool {
		if pairs[i][0] != pairs[j][0] {
			return pairs[i][0] < pairs[j][0]
		}
		return pairs[i][1] < pairs[j][1]
	})
	return pairs
}

// wrap compresses font data (or edition data) into a file.
func wrap(signature string, payload []byte, level int) []byte {
	var buf bytes.Buffer
	buf.WriteString(signature)
	w, err := gzip.NewWriterLevel(&buf, level)
	if err != nil {
		panic(err)
	}
	_, _ = w.Write(payload)
	_ = w.Close()
	return buf.Bytes()
}

const fontSig, editionSig = "tggfnt", "wkgfnt"

// unwrap gives the payload of a file, if it's valid.
func unwrap(file []byte) ([]byte, bool) {
	if len(file) < 6 {
		return nil, false
	}
	g, err := gzip.NewReader(bytes.NewReader(file[6:]))
	if err != nil {
		return nil, false
	}
	data, err := io.ReadAll(g)
	return data, err == nil
}

// ---- generation ----

var genWords = []string{"on", "off", "x", "wide", "narrow", "alt-1", "alt-2", "Zz9", "zero", "slashed", "a-b-c-d-e-f-g-h-i-j-k-l-m-n-o-p", "fancy"}

func genName(r *core.R, prefix string) string {
	const chars = "abcXYZ019"
	n := 1 + r.Small(8)
	if r.N(12) == 11 {
		n = 31 - len(prefix)
	}
	b := []byte(prefix)
	for i := 0; i < n; i++ {
		if i > 0 && i < n-1 && b[len(b)-1] != '-' && r.N(8) == 7 {
			b = append(b, '-')
			continue
		}
		b = append(b, chars[r.N(len(chars))])
	}
	return string(b)
}

func genText(r *core.R, max int) string {
	n := r.Small(max)
	if r.N(10) == 9 {
		n = max
	}
	s := r.Sub()
	var b []byte
	for len(b) < n {
		switch s.N(12) {
		case 0:
			if len(b)+2 <= n {
				b = append(b, "é"...)
				continue
			}
		case 1:
			if len(b)+4 <= n {
				b = append(b, "😀"...)
				continue
			}
		}
		b = append(b, byte(' '+s.N(95)))
	}
	return string(b)
}

func genDate(r *core.R) ggfnt.Date {
	switch r.Pick(4, 1, 1, 1, 1) {
	case 0:
		return ggfnt.Date{Year: uint16(1 + r.N(3000)), Month: uint8(1 + r.N(12)), Day: uint8(1 + r.N(28))}
	case 1:
		return ggfnt.Date{}
	case 2:
		return ggfnt.Date{Year: uint16(1 + r.N(65535))}
	case 3:
		return ggfnt.Date{Year: uint16(1 + r.N(65535)), Month: uint8(1 + r.N(12))}
	}
	return ggfnt.Date{Year: uint16([]int{2000, 2024, 400, 65535, 1}[r.N(5)]), Month: uint8(1 + r.N(12)), Day: uint8(r.N(29))}
}

// genMask gives a glyph mask within the given bounds; pixel content comes from one draw.
func genMask(r *core.R, minX, minY, maxX, maxY int) *image.Alpha {
	w, h := 1+r.Small(min(24, maxX-minX)-1), 1+r.Small(min(24, maxY-minY)-1)
	kinds := 24
	if maxY-minY > 60 {
		kinds = 6
	}
	switch 24 - kinds + r.N(kinds) {
	case 22:
		w = 1 + r.N(min(100, maxX-minX))
		if r.N(10) == 9 { // beyond what a single operation can draw or move
			w = 1 + r.N(maxX-minX)
			r.Probe("wide mask")
		}
	case 23: // big in both directions
		limit := 100
		if r.N(10) == 9 {
			limit = 600
			r.Probe("huge mask")
		}
		w = min(limit, maxX-minX) - r.N(min(40, maxX-minX))
		h = min(limit, maxY-minY) - r.N(min(40, maxY-minY))
	}
	x := minX + r.N(maxX-minX-w+1)
	y := minY + r.N(maxY-minY-h+1)
	if r.Bool(2, 3) && minX <= 0 && maxX-w >= 0 {
		x = 0
	}
	m := image.NewAlpha(image.Rect(x, y, x+w, y+h))
	kind := r.N(8)
	s := r.Sub()
	nvals := 1 + s.N(3)
	vals := []uint8{255, uint8(1 + s.N(255)), uint8(1 + s.N(255))}
	for i := range m.Pix {
		px, py := i%w, i/w
		on := false
		switch kind {
		case 0:
			on = true
		case 1:
			on = s.N(2) == 0
		case 2:
			on = s.N(4) == 0
		case 3:
			on = px == 0 || py == 0 || px == w-1 || py == h-1
		case 4:
			on = px == py || px+py == w-1
		case 5: // nothing drawn
		case 6:
			on = (px/2+py/2)%2 == 0
		case 7:
			on = s.N(9) != 0
		}
		if on {
			m.Pix[i] = vals[s.N(nvals)]
		}
	}
	return m
}

// subImage gives the same mask as a part of a bigger image with other things around.
func subImage(m *image.Alpha, left, top, right, bottom int) *image.Alpha {
	rect := m.Rect
	rect.Min, rect.Max = rect.Min.Sub(image.Pt(left, top)), rect.Max.Add(image.Pt(right, bottom))
	sheet := image.NewAlpha(rect)
	for i := range sheet.Pix {
		sheet.Pix[i] = uint8(i%251 + 1)
	}
	sub := sheet.SubImage(m.Rect).(*image.Alpha)
	copyPixels(sub, m)
	return sub
}

func copyPixels(to, from *image.Alpha) {
	for y := 0; y < to.Rect.Dy(); y++ {
		copy(to.Pix[y*to.Stride:][:to.Rect.Dx()], from.Pix[y*from.Stride:])
	}
}

func genRGBA(r *core.R) color.RGBA {
	return color.RGBA{uint8(r.N(256)), uint8(r.N(256)), uint8(r.N(256)), uint8(r.N(256))}
}

var genCodePoints = []rune{' ', '!', 'A', 'B', 'Z', 'a', 'b', 'z', '~', 127, 128, 0xE9, 0x3B1, 0x2014, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF}

func genCodePoint(r *core.R) rune {
	if r.Bool(2, 3) {
		return genCodePoints[r.N(len(genCodePoints))]
	}
	if r.Bool(1, 2) {
		return rune(' ' + r.N(95))
	}
	return rune(' ' + r.N(0x10FFFF-32+1))
}

func genCond(r *core.R, nSettings, depth int) *condSpec {
	c := genCondTree(r, nSettings, depth)
	if len(c.encode(nil)) > 3000 {
		c = genCondTree(r, nSettings, 0)
	}
	return c
}

func genCondTree(r *core.R, nSettings, depth int) *condSpec {
	if depth > 0 && r.Bool(1, 2) {
		c := &condSpec{Op: r.N(2)}
		n := 2 + r.Small(4)
		switch {
		case r.N(16) == 15: // as many as possible
			n, depth = 29+r.N(3), 1+r.N(2)*r.N(depth)
		case depth < 3 && r.N(16) == 15:
			depth += 2
		}
		for i := 0; i < n; i++ {
			c.Terms = append(c.Terms, genCondTree(r, nSettings, depth-1))
		}
		return c
	}
	c := &condSpec{Op: 2 + r.N(6), A: uint8(r.N(nSettings))}
	switch c.Op {
	case 2:
		c.Cmp, c.B = r.N(6), uint8(r.N(nSettings))
	case 3:
		c.Cmp, c.B = r.N(6), uint8(r.Small(6))
		if r.N(10) == 9 {
			c.B = uint8(r.N(256))
		}
	default:
		c.B = uint8(r.Small(6))
		switch r.N(16) {
		case 15:
			c.B = 31
		case 14:
			c.B = uint8(r.N(32))
		}
	}
	return c
}

func genID(r *core.R) uint64 {
	for {
		id := r.U64()
		if id == 0 {
			id = 0x0123_4567_89AB_CDEF
		}
		if entropy(id, 2) >= 0.3 && entropy(id, 1) >= 0.3 {
			return id
		}
	}
}

// entropy measures how random a font ID looks like.
func entropy(v uint64, shift int) float64 {
	var c [4]int
	for i := 0; i < 32; i++ {
		c[v&3]++
		v >>= shift
	}
	d := 0
	for _, n := range c {
		if n > 8 {
			d += n - 8
		} else {
			d += 8 - n
		}
	}
	return 1 - float64(d)/48
}

// genSpec draws a complete valid font.
func genSpec(r *core.R) *Spec {
	s := &Spec{ID: genID(r), Major: uint16(r.Small(65535)), Minor: uint16(r.Small(65535)),
		FirstDate: genDate(r), MajDate: genDate(r), MinDate: genDate(r),
		Name: "N" + genText(r, 254), Family: genText(r, 255), Author: genText(r, 255), About: genText(r, 300),
		Maps: map[rune]mapSpec{}, HKern: map[[2]uint16]int8{}, VKern: map[[2]uint16]int8{}}
	if r.N(40) == 39 {
		s.About = genText(r, 65535)
	}
	s.Vert = r.Bool(1, 3)
	s.Ascent, s.Descent = uint8(2+r.Small(40)), uint8(r.Small(20))
	s.ExtraAscent, s.ExtraDescent = uint8(r.N(int(s.Ascent))), uint8(r.Small(8))
	s.Upper = uint8(r.N(int(s.Ascent) + 1))
	s.Mid = uint8(r.N(int(s.Upper) + 1))
	s.HorzInter, s.LineGap = uint8(r.Small(255)), uint8(r.Small(255))
	if s.Vert {
		s.VertInter, s.VertW, s.VertGap = uint8(r.Small(255)), uint8(1+r.N(255)), uint8(r.Small(255))
	}
	ng := 1 + r.Small(30)
	if r.N(12) == 11 {
		ng = 250 + r.N(60)
	}
	sub := ng > 60
	var shared *image.Alpha
	for i := 0; i < ng; i++ {
		g := glyphSpec{P: ggfnt.GlyphPlacement{Advance: uint8(r.Small(255))}}
		if s.Vert {
			g.P.TopAdvance, g.P.BottomAdvance, g.P.HorzCenter = uint8(r.Small(255)), uint8(r.Small(255)), uint8(r.Small(255))
		}
		if shared == nil || !sub {
			shared = genMask(r, -20, -int(s.Ascent), 60, max(1, int(s.Descent)))
		}
		g.Mask = shared
		s.Glyphs = append(s.Glyphs, g)
	}
	names := map[string]bool{}
	for k := r.Small(min(ng, 12)); k > 0; k-- {
		i := r.N(ng)
		name := genName(r, "")
		if !names[name] && s.Glyphs[i].Name == "" {
			names[name] = true
			s.Glyphs[i].Name = name
		}
	}
	// colors
	colors := 0
	cnames := map[string]bool{}
	for k := r.Small(5); k > 0; k-- {
		y := dyeSpec{Name: genName(r, "")}
		n := 1 + r.Small(6)
		if r.N(20) == 19 {
			n = 200
		}
		sb := r.Sub()
		for i := 0; i < n; i++ {
			y.Alphas = append(y.Alphas, uint8(sb.N(256)))
		}
		if !cnames[y.Name] && colors+n <= 255 {
			cnames[y.Name] = true
			colors += n
			s.Dyes = append(s.Dyes, y)
		}
	}
	for k := r.Small(4); k > 0; k-- {
		p := palSpec{Name: genName(r, "")}
		n := 1 + r.Small(6)
		for i := 0; i < n; i++ {
			p.Colors = append(p.Colors, genRGBA(r))
		}
		if !cnames[p.Name] && colors+n <= 255 {
			cnames[p.Name] = true
			colors += n
			s.Pals = append(s.Pals, p)
		}
	}
	genSettings(r, s, r.Small(6))
	genSwitches(r, s)
	genMaps(r, s, r.Small(20))
	genRewrites(r, s, r.Small(8), r.Small(8))
	for _, k := range []map[[2]uint16]int8{s.HKern, s.VKern} {
		for n := r.Small(20); n > 0; n-- {
			k[[2]uint16{uint16(r.N(ng)), uint16(r.N(ng))}] = int8(r.N(256) - 128)
		}
	}
	if r.N(40) == 39 {
		s.grow(r, false)
	}
	if r.N(5) == 4 {
		if text, ok := s.padding(r); ok {
			s.About = text
		}
	}
	return s
}

func genSettings(r *core.R, s *Spec, n int) {
	names := map[string]bool{}
	for ; n > 0; n-- {
		st := settingSpec{Name: genName(r, "")}
		no := 1 + r.Small(5)
		if r.N(20) == 19 {
			no = 100 + r.N(156)
		}
		for i := 0; i < no; i++ {
			st.Options = append(st.Options, genOption(r))
		}
		if !names[st.Name] {
			names[st.Name] = true
			s.Settings = append(s.Settings, st)
		}
	}
	// the format has place for 255 words
	words := map[string]bool{}
	for i := range s.Settings {
		for j, o := range s.Settings[i].Options {
			if !words[o] && len(words) >= 120 {
				s.Settings[i].Options[j] = s.Settings[0].Options[0]
				continue
			}
			words[o] = true
		}
	}
}

func genOption(r *core.R) string {
	switch r.N(4) {
	case 0:
		return genWords[r.N(len(genWords))]
	case 1:
		for {
			w := ggfnt.GetPredefinedWord(uint8(r.N(256)))
			if basicName(w) {
				return w
			}
			return "on"
		}
	case 2:
		return ggfnt.GetPredefinedWord(uint8(r.Small(8))) // the first ones are shadowed by custom words
	}
	return genName(r, "w")
}

// basicName is the format's definition of a basic name.
func basicName(s string) bool {
	if len(s) < 1 || len(s) > 32 {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':
		case c == '-':
			if i == 0 || i == len(s)-1 || s[i-1] == '-' {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (s *Spec) cases(sw []uint8) int {
	n := 1
	for _, k := range sw {
		n *= len(s.Settings[k].Options)
	}
	return n
}

func genSwitches(r *core.R, s *Spec) {
	if len(s.Settings) == 0 {
		return
	}
	for k := r.Small(5); k > 0; k-- {
		var sw []uint8
		used := map[int]bool{}
		for i := 1 + r.N(3); i > 0; i-- {
			x := r.N(len(s.Settings))
			if !used[x] {
				used[x] = true
				sw = append(sw, uint8(x))
			}
		}
		if s.cases(sw) <= 254 {
			s.Switches = append(s.Switches, sw)
		}
	}
}

func genGroup(r *core.R, ng, minSize, maxSize int) groupSpec {
	n := minSize
	if maxSize > minSize {
		n += r.Small(maxSize - minSize)
	}
	g := groupSpec{}
	if n > 1 {
		g.Flags = ggfnt.AnimationFlags(r.N(256))
	}
	base := r.N(ng)
	consecutive := base+n <= ng && r.Bool(1, 2)
	for i := 0; i < n; i++ {
		if consecutive {
			g.Glyphs = append(g.Glyphs, uint16(base+i))
		} else {
			g.Glyphs = append(g.Glyphs, uint16(r.N(ng)))
		}
	}
	if consecutive && n > 1 && r.Bool(1, 4) { // all but one
		g.Glyphs[r.N(n)] = uint16(r.N(ng))
	}
	return g
}

func genMaps(r *core.R, s *Spec, n int) {
	ng := len(s.Glyphs)
	for ; n > 0; n-- {
		cp := genCodePoint(r)
		k := r.Pick(3, 2, 4)
		switch {
		case k == 1:
			s.Maps[cp] = mapSpec{254, []groupSpec{genGroup(r, ng, 2, 20)}}
		case k == 2 && len(s.Switches) > 0:
			sw := r.N(len(s.Switches))
			cases := s.cases(s.Switches[sw])
			maxSize := 5
			if cases > 20 {
				maxSize = 1
			}
			m := mapSpec{Switch: uint8(sw)}
			for i := 0; i < cases; i++ {
				m.Groups = append(m.Groups, genGroup(r, ng, 1, maxSize))
			}
			s.Maps[cp] = m
		default:
			s.Maps[cp] = mapSpec{255, []groupSpec{{Glyphs: []uint16{uint16(r.N(ng))}}}}
		}
	}
}

func genRewrites(r *core.R, s *Spec, nu, ng int) {
	if len(s.Settings) > 0 {
		for k := r.Small(5); k > 0 && len(s.Conds) < 254; k-- {
			c := genCond(r, len(s.Settings), 2)
			s.Conds = append(s.Conds, c)
		}
	}
	set := func(draw func() uint32, limit uint32) setSpec {
		var st setSpec
		for k := r.Small(3); k > 0; k-- {
			first := draw()
			st.Ranges = append(st.Ranges, rangeSpec{first, min(limit, first+uint32(r.Small(12)))})
		}
		for k := r.Small(4); k > 0; k-- {
			st.List = append(st.List, draw())
		}
		if len(st.Ranges)+len(st.List) == 0 {
			st.List = append(st.List, draw())
		}
		return st
	}
	glyph := func() uint32 { return uint32(r.N(len(s.Glyphs))) }
	cp := func() uint32 { return uint32(genCodePoint(r)) }
	for k := r.Small(4); k > 0 && len(s.RuneSets) < 255; k-- {
		s.RuneSets = append(s.RuneSets, set(cp, 0x10FFFF))
	}
	for k := r.Small(4); k > 0 && len(s.GlyphSets) < 255; k-- {
		s.GlyphSets = append(s.GlyphSets, set(glyph, uint32(len(s.Glyphs)-1)))
	}
	rule := func(draw func() uint32, nsets int) ruleSpec {
		ru := ruleSpec{Cond: 255}
		if len(s.Conds) > 0 && r.Bool(1, 2) {
			ru.Cond = uint8(r.N(len(s.Conds)))
		}
		block := func(n int) (b []elem) {
			for ; n > 0; n-- {
				if nsets > 0 && r.Bool(1, 3) {
					b = append(b, elem{true, uint32(r.N(nsets))})
				} else {
					b = append(b, elem{false, draw()})
				}
			}
			return b
		}
		big := 4
		if r.N(12) == 11 {
			big = 40
		}
		ru.Head, ru.Body, ru.Tail = block(r.Small(3)), block(1+r.Small(big)), block(r.Small(3))
		for n := 1 + r.N(len(ru.Body)); n > 0; n-- {
			ru.Out = append(ru.Out, draw())
		}
		return ru
	}
	for ; nu > 0; nu-- {
		s.URules = append(s.URules, rule(cp, len(s.RuneSets)))
	}
	for ; ng > 0; ng-- {
		s.GRules = append(s.GRules, rule(glyph, len(s.GlyphSets)))
	}
}
