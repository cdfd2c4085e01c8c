package world

import (
	"bytes"
	"fmt"
	"sort"
	"unicode/utf8"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/rerules"

	"verif.local/sim/core"
)

// ---- the testers under simulation ----

// tester is either of the two rewrite testers.
type tester interface {
	NumRules() int
	IsOperating() bool
	Resync(*ggfnt.Font, *ggfnt.SettingsCache) error
	RemoveAllRules()
	RefreshConditions(*ggfnt.Font, *ggfnt.SettingsCache)
	BeginSequence(*ggfnt.Font, *ggfnt.SettingsCache) error
	pending() int
	add(data []byte) error
	remove(data []byte) bool
	feed(v uint32, fn func(uint32)) error
	brk(fn func(uint32))
	finish(fn func(uint32))
}

type glyphTester struct{ rerules.GlyphTester }

func (t *glyphTester) pending() int { return t.NumPendingGlyphs() }
func (t *glyphTester) add(d []byte) error {
	return t.AddRule(ggfnt.GlyphRewriteRule{Data: d})
}
func (t *glyphTester) remove(d []byte) bool {
	return t.RemoveRule(ggfnt.GlyphRewriteRule{Data: d})
}
func (t *glyphTester) feed(v uint32, fn func(uint32)) error {
	return t.Feed(ggfnt.GlyphIndex(v), func(g ggfnt.GlyphIndex) { fn(uint32(g)) })
}
func (t *glyphTester) brk(fn func(uint32)) {
	t.Break(func(g ggfnt.GlyphIndex) { fn(uint32(g)) })
}
func (t *glyphTester) finish(fn func(uint32)) {
	t.FinishSequence(func(g ggfnt.GlyphIndex) { fn(uint32(g)) })
}

type runeTester struct{ rerules.Utf8Tester }

func (t *runeTester) pending() int { return t.NumPendingRunes() }
func (t *runeTester) add(d []byte) error {
	return t.AddRule(ggfnt.Utf8RewriteRule{Data: d})
}
func (t *runeTester) remove(d []byte) bool {
	return t.RemoveRule(ggfnt.Utf8RewriteRule{Data: d})
}
func (t *runeTester) feed(v uint32, fn func(uint32)) error {
	return t.Feed(rune(v), func(c rune) { fn(uint32(c)) })
}
func (t *runeTester) brk(fn func(uint32)) {
	t.Break(func(c rune) { fn(uint32(c)) })
}
func (t *runeTester) finish(fn func(uint32)) {
	t.FinishSequence(func(c rune) { fn(uint32(c)) })
}

func newTester(runes bool) tester {
	if runes {
		return &runeTester{}
	}
	return &glyphTester{}
}

// ---- fonts, rules and inputs ----

// rewriteEnv is a font with settings, conditions and sets, and an alphabet
// small enough for rules to meet each other.
type rewriteEnv struct {
	r     *core.R
	spec  *Spec
	font  *ggfnt.Font
	runes bool
	alpha []uint32
	sets  []setSpec
}

func loadSpec(r *core.R, s *Spec) *ggfnt.Font {
	font, err := ggfnt.Parse(bytes.NewReader(wrap(fontSig, s.Encode(), 0)))
	if err != nil {
		r.Harnessf("generated font refused: %v", err)
	}
	return font
}

// plainSpec draws a font with little besides the given number of glyphs.
func plainSpec(r *core.R, ng int) *Spec {
	s := &Spec{ID: 0x0123_4567_89AB_CDEF, Major: 1, Name: "n", Ascent: 4, Descent: 2,
		Maps: map[rune]mapSpec{}, HKern: map[[2]uint16]int8{}, VKern: map[[2]uint16]int8{}}
	s.FirstDate = ggfnt.Date{Month: 2, Day: 3, Year: 2020}
	s.MajDate, s.MinDate = s.FirstDate, s.FirstDate
	mask := genMask(core.ZeroR(), 0, -2, 2, 1)
	for i := 0; i < ng; i++ {
		s.Glyphs = append(s.Glyphs, glyphSpec{P: ggfnt.GlyphPlacement{Advance: 2}, Mask: mask})
	}
	return s
}

func genSets(r *core.R, alpha []uint32, limit uint32, n int) (sets []setSpec) {
	near := func() uint32 {
		v := alpha[r.N(len(alpha))]
		if r.Bool(1, 5) && v >= 2 {
			v -= uint32(1 + r.N(2))
		}
		return min(v, limit)
	}
	for ; n > 0; n-- {
		var st setSpec
		switch r.Pick(6, 1, 1, 1) {
		case 1: // empty
			r.Probe("empty set")
			sets = append(sets, st)
			continue
		case 2: // many separate values
			for k := 20 + r.N(200); k > 0; k-- {
				if v := alpha[0] + uint32(2*k); v <= limit && len(st.List) < 255 {
					st.List = append(st.List, v)
				}
			}
		case 3: // wide
			f := min(near(), limit)
			st.Ranges = append(st.Ranges, rangeSpec{f, min(limit, f+uint32(r.N(256)))})
		}
		for k := r.Small(3); k > 0; k-- {
			f := near()
			st.Ranges = append(st.Ranges, rangeSpec{f, min(limit, f+uint32(r.Small(5)))})
		}
		for k := r.Small(4); k > 0 && len(st.List) < 250; k-- {
			st.List = append(st.List, near())
		}
		if len(st.Ranges)+len(st.List) == 0 {
			st.List = append(st.List, near())
		}
		sets = append(sets, st)
	}
	return sets
}

// newRewriteEnv draws a font for rewriting.
func newRewriteEnv(r *core.R, runes bool) *rewriteEnv {
	ng := 12
	if r.N(15) == 14 {
		ng = 300 + r.N(300)
	}
	s := plainSpec(r, ng)
	genSettings(r, s, r.Small(4))
	if len(s.Settings) > 0 {
		for k := r.Small(6); k > 0; k-- {
			s.Conds = append(s.Conds, genCond(r, len(s.Settings), 2))
		}
		if r.N(40) == 39 {
			for len(s.Conds) < 254 {
				s.Conds = append(s.Conds, genCond(r, len(s.Settings), 0))
			}
			r.Probe("254 conditions")
		}
	}
	if len(s.Conds) == 0 && len(s.Settings) > 0 {
		s.Conds = append(s.Conds, genCond(r, len(s.Settings), 1))
	}
	e := &rewriteEnv{r: r, spec: s, runes: runes}
	n := 2 + r.Small(6)
	if runes {
		base := []rune{'a', 'a', '0', 0xFFF0, 0x10FFF8, 0xD7FA, 0}[r.N(7)]
		for i := 0; i < n; i++ {
			c := base + rune(i)
			if r.Bool(1, 8) {
				c = genCodePoint(r)
			}
			if !utf8.ValidRune(c) || c == utf8.RuneError {
				c = 'q' + rune(i)
			}
			e.alpha = append(e.alpha, uint32(c))
		}
		s.RuneSets = genSets(r, e.alpha, 0x10FFFF, r.Small(5))
		e.sets = s.RuneSets
	} else {
		for i := 0; i < n; i++ {
			e.alpha = append(e.alpha, uint32(i))
		}
		s.GlyphSets = genSets(r, e.alpha, uint32(ng-1), r.Small(5))
		e.sets = s.GlyphSets
		if r.Bool(1, 4) { // rules may refer to any index
			e.alpha = append(e.alpha, []uint32{56788, 56787, 255, 256, 40000}[r.N(5)])
		}
	}
	return e
}

func (e *rewriteEnv) load() { e.font = loadSpec(e.r, e.spec) }

func (e *rewriteEnv) drawSettings() []uint8 {
	out := make([]uint8, len(e.spec.Settings))
	for i := range out {
		out[i] = uint8(e.r.N(len(e.spec.Settings[i].Options)))
	}
	return out
}

// drawRule draws a valid rule, possibly related to another one.
func (e *rewriteEnv) drawRule(rules []ruleSpec) ruleSpec {
	r := e.r
	el := func() elem {
		if len(e.sets) > 0 && r.Bool(1, 3) {
			return elem{true, uint32(r.N(len(e.sets)))}
		}
		return elem{false, e.alpha[r.N(len(e.alpha))]}
	}
	block := func(n int) (b []elem) {
		for ; n > 0; n-- {
			b = append(b, el())
		}
		return b
	}
	ru := ruleSpec{Cond: 255}
	if len(e.spec.Conds) > 0 && r.Bool(1, 2) {
		ru.Cond = uint8(r.N(len(e.spec.Conds)))
	}
	k := 0
	if len(rules) > 0 {
		k = r.Pick(6, 1, 3)
	}
	if k == 1 { // same once again
		return rules[r.N(len(rules))]
	} else if k == 2 { // variation
		o := rules[r.N(len(rules))]
		all := append(append(append([]elem(nil), o.Head...), o.Body...), o.Tail...)
		switch r.N(4) {
		case 0:
			all = append(all, el())
		case 1:
			if len(all) > 1 {
				all = all[:len(all)-1]
			}
		case 2:
			all[r.N(len(all))] = el()
		case 3: // prefix
			all = append([]elem{el()}, all...)
		}
		if len(all) > 255 {
			all = all[:255]
		}
		if r.Bool(3, 4) {
			ru.Cond = o.Cond
		}
		h := r.Small(min(3, len(all)-1))
		t := r.Small(min(3, len(all)-1-h))
		ru.Head, ru.Body, ru.Tail = all[:h], all[h:len(all)-t], all[len(all)-t:]
	} else {
		big := 3
		switch r.N(60) {
		case 57, 58:
			big = 30
		case 59:
			big = 200
		}
		ru.Head, ru.Body, ru.Tail = block(r.Small(3)), block(1+r.Small(big)), block(r.Small(3))
	}
	// blocks must be separate slices: rules are compared and encoded on their own
	cp := func(b []elem) []elem { return append([]elem(nil), b...) }
	ru.Head, ru.Body, ru.Tail = cp(ru.Head), cp(ru.Body), cp(ru.Tail)
	for n := 1 + r.Small(min(len(ru.Body)-1, 6)); n > 0; n-- {
		v := e.alpha[r.N(len(e.alpha))]
		if r.Bool(1, 6) { // outputs aren't restricted to known values
			v = uint32(r.N(56789))
		}
		ru.Out = append(ru.Out, v)
	}
	return ru
}

// encodeRule gives the rule's data with drawn fragments.
func (e *rewriteEnv) encodeRule(ru *ruleSpec) []byte {
	if e.r.Bool(2, 3) {
		return ru.encode(e.runes)
	}
	d := []byte{ru.Cond, uint8(len(ru.Head)), uint8(len(ru.Body)), uint8(len(ru.Tail)), uint8(len(ru.Out))}
	put := func(v uint32) {
		if e.runes {
			d = u32(d, v)
		} else {
			d = u16(d, int(v))
		}
	}
	for _, o := range ru.Out {
		put(o)
	}
	for _, block := range [][]elem{ru.Head, ru.Body, ru.Tail} {
		if len(block) == 0 {
			d = append(d, 0)
		}
		for len(block) > 0 {
			sets, elems := 0, 0
			limit := 1 + e.r.N(15)
			for sets < len(block) && sets < limit && block[sets].Set {
				sets++
			}
			if sets == 0 || e.r.Bool(1, 2) {
				for sets+elems < len(block) && elems < limit && !block[sets+elems].Set {
					elems++
				}
			}
			d = append(d, uint8(sets<<4|elems))
			for _, x := range block[:sets] {
				d = append(d, uint8(x.V))
			}
			for _, x := range block[sets : sets+elems] {
				put(x.V)
			}
			block = block[sets+elems:]
		}
	}
	return d
}

func (e *rewriteEnv) valid(v uint32) bool {
	if e.runes {
		return utf8.ValidRune(rune(v)) && rune(v) != utf8.RuneError
	}
	return v <= 56789
}

// instance draws elements that match the given rule elements.
func (e *rewriteEnv) instance(b []elem) (out []uint32) {
	r := e.r
	for _, x := range b {
		v := x.V
		if x.Set {
			s := &e.sets[x.V]
			n := len(s.Ranges) + len(s.List)
			if n == 0 {
				v = e.alpha[r.N(len(e.alpha))]
			} else if k := r.N(n); k < len(s.Ranges) {
				v = s.Ranges[k].First + uint32(r.N(int(s.Ranges[k].Last-s.Ranges[k].First)+1))
			} else {
				v = s.List[k-len(s.Ranges)]
			}
		}
		if !e.valid(v) {
			v = e.alpha[0]
		}
		out = append(out, v)
	}
	return out
}

// drawInput draws a stretch of input that has to do with the rules.
func (e *rewriteEnv) drawInput(rules []ruleSpec) (out []uint32) {
	r := e.r
	if len(rules) == 0 || r.Bool(1, 4) {
		for n := 1 + r.Small(6); n > 0; n-- {
			out = append(out, e.alpha[r.N(len(e.alpha))])
		}
		return out
	}
	ru := &rules[r.N(len(rules))]
	switch r.Pick(5, 2, 2, 1) {
	case 0: // a whole match
		out = append(append(e.instance(ru.Head), e.instance(ru.Body)...), e.instance(ru.Tail)...)
	case 1: // without the head (it may be there already)
		out = append(e.instance(ru.Body), e.instance(ru.Tail)...)
	case 2: // almost a match
		out = append(append(e.instance(ru.Head), e.instance(ru.Body)...), e.instance(ru.Tail)...)
		out = out[:r.N(len(out)+1)]
	case 3:
		out = append(append(e.instance(ru.Head), e.instance(ru.Body)...), e.instance(ru.Tail)...)
		out[r.N(len(out))] = e.alpha[r.N(len(e.alpha))]
	}
	return out
}

// ---- reference model ----

// refRules is the meaning of a list of rules under given settings.
type refRules struct {
	rules    []ruleSpec
	flat     [][]elem
	sets     []setSpec
	active   map[uint8]bool
	groups   []uint8 // active conditions, in order of appearance
	longest  int
	rewrites int
}

func (e *rewriteEnv) reference(rules []ruleSpec, settings []uint8) *refRules {
	m := &refRules{rules: rules, sets: e.sets, active: map[uint8]bool{}}
	for _, ru := range rules {
		f := append(append(append([]elem(nil), ru.Head...), ru.Body...), ru.Tail...)
		m.flat = append(m.flat, f)
		m.longest = max(m.longest, len(f))
		if _, seen := m.active[ru.Cond]; !seen {
			ok := ru.Cond == 255 || e.spec.Conds[ru.Cond].eval(settings)
			m.active[ru.Cond] = ok
			if ok {
				m.groups = append(m.groups, ru.Cond)
			}
		}
	}
	return m
}

func (m *refRules) matches(i int, x []uint32) bool {
	for k, el := range m.flat[i] {
		if el.Set {
			if !m.sets[el.V].has(x[k]) {
				return false
			}
		} else if el.V != x[k] {
			return false
		}
	}
	return true
}

// best gives the rule that applies at the start of x, when its first u elements
// have already been reported as the tail of a rule.
func (m *refRules) best(x []uint32, u int) int {
	best := -1
	for _, c := range m.groups {
		for n := min(m.longest, len(x)); n > 0; n-- {
			found := -1
			for i := range m.rules {
				if m.rules[i].Cond == c && len(m.flat[i]) == n && m.matches(i, x) {
					found = i
					break
				}
			}
			if found >= 0 && len(m.rules[found].Head) >= u {
				if best < 0 || found < best {
					best = found
				}
				break
			}
		}
	}
	return best
}

// rewrite gives the output of a whole stretch of input.
func (m *refRules) rewrite(x []uint32) (out []uint32) {
	u := 0
	for len(x) > u {
		i := m.best(x, u)
		if i < 0 {
			if u > 0 {
				u--
			} else {
				out = append(out, x[0])
			}
			x = x[1:]
			continue
		}
		m.rewrites++
		ru := &m.rules[i]
		h, b, t := len(ru.Head), len(ru.Body), len(ru.Tail)
		out = append(out, x[u:h]...)
		out = append(out, ru.Out...)
		out = append(out, x[h+b:h+b+t]...)
		x, u = x[h+b:], t
	}
	return out
}

// easy tells whether the rules can't possibly exceed the limits of the
// compiler (254 states and 254 transitions per state and condition).
func (m *refRules) easy() bool {
	for c := range m.active {
		states, plain := 1, true
		for d := 0; ; d++ {
			n := 0
			for i := range m.rules {
				if m.rules[i].Cond != c || len(m.flat[i]) <= d {
					continue
				}
				if len(m.flat[i]) > d+1 {
					n++
				}
				plain = plain && !m.flat[i][d].Set
			}
			if m.width(c, d) > 254 {
				return false
			}
			if n == 0 {
				break
			}
			switch {
			case n == 1:
				states++
			case n <= 7:
				states += 2 << n
			default:
				states += 1000
			}
		}
		if plain { // a state for each distinct beginning, and a few more while linking
			states = 5
			seen := map[string]bool{}
			for i := range m.rules {
				if m.rules[i].Cond == c {
					key := ""
					for _, el := range m.flat[i][:len(m.flat[i])-1] {
						key += fmt.Sprint(el.V, " ")
						if !seen[key] {
							seen[key] = true
							states++
						}
					}
				}
			}
		}
		if states > 254 {
			return false
		}
	}
	return true
}

// width gives an upper bound of the transitions of the states at depth d, exact
// for the first one.
func (m *refRules) width(c uint8, d int) (n int) {
	type mark struct {
		at    uint32
		delta int
	}
	var marks []mark
	add := func(first, last uint32) { marks = append(marks, mark{first, 1}, mark{last + 1, -1}) }
	for i := range m.rules {
		if m.rules[i].Cond != c || len(m.flat[i]) <= d {
			continue
		}
		if el := m.flat[i][d]; !el.Set {
			add(el.V, el.V)
		} else {
			for _, rg := range m.sets[el.V].Ranges {
				add(rg.First, rg.Last)
			}
			for _, v := range m.sets[el.V].List {
				add(v, v)
			}
		}
	}
	sort.Slice(marks, func(a, b int) bool { return marks[a].at < marks[b].at })
	open := 0
	for i := range marks {
		open += marks[i].delta
		if open > 0 && (i+1 == len(marks) || marks[i+1].at != marks[i].at) {
			n++
		}
	}
	return n
}

// ---- rules close to the limits ----

// newCrowdEnv draws a font with sets that take many transitions.
func newCrowdEnv(r *core.R, runes bool) *rewriteEnv {
	s := plainSpec(r, 700)
	genSettings(r, s, r.Small(2))
	if len(s.Settings) > 0 {
		s.Conds = append(s.Conds, genCond(r, len(s.Settings), 1))
	}
	e := &rewriteEnv{r: r, spec: s, runes: runes}
	base := uint32(r.N(100))
	if runes {
		base = []uint32{0, 'a', 0xFDFF, 0x10FC00}[r.N(4)]
	}
	for n := uint32(0); n < 6; n++ {
		e.alpha = append(e.alpha, base+n*n*15)
	}
	var wide, many, mixed setSpec
	for k := uint32(0); k < 2; k++ {
		wide.Ranges = append(wide.Ranges, rangeSpec{base + 256*k, base + 256*k + 255})
	}
	step := uint32(1 + r.N(3))
	for k := uint32(0); k < uint32(255-r.N(20)) && step*k < 550; k++ {
		many.List = append(many.List, base+step*k)
	}
	for k := uint32(0); k < uint32(20+r.N(40)); k++ {
		mixed.Ranges = append(mixed.Ranges, rangeSpec{base + 8*k, base + 8*k + uint32(r.N(7))})
	}
	for k := uint32(0); k < uint32(r.N(40)); k++ {
		mixed.List = append(mixed.List, base+8*k+uint32(r.N(9)))
	}
	e.sets = []setSpec{wide, many, mixed}
	if runes {
		for i := range e.sets { // no surrogates around here
			for _, v := range e.sets[i].List {
				if !e.valid(v) {
					e.sets[i].List = e.sets[i].List[:1]
					break
				}
			}
		}
		s.RuneSets = e.sets
	} else {
		s.GlyphSets = e.sets
	}
	return e
}

// crowd draws rules that need about as many transitions or states as there can be.
func (e *rewriteEnv) crowd() (rules []ruleSpec) {
	r := e.r
	cond := uint8(255)
	if len(e.spec.Conds) > 0 && r.Bool(1, 3) {
		cond = 0
	}
	base := e.alpha[0]
	val := func(v uint32) elem {
		if !e.valid(v) {
			v = base
		}
		return elem{false, v}
	}
	out := func(k int) []uint32 { return []uint32{e.valOr(base + uint32(k%500))} }
	if r.Bool(1, 3) { // states: 254 of them
		room := 248 + r.N(9)
		for k := 0; room > 1; k++ {
			n := 1 + r.N(room)
			if r.Bool(1, 2) {
				n = 1 + r.N(12)
			}
			ru := ruleSpec{Cond: cond, Out: out(k)}
			var common []elem
			if len(rules) > 0 && r.Bool(1, 3) {
				common = rules[r.N(len(rules))].Body
				common = common[:r.N(len(common)+1)]
			}
			body := append([]elem(nil), common...)
			for i := 0; i < n && len(body) < 255; i++ {
				body = append(body, val(base+uint32(1+r.N(40))))
			}
			ru.Body = body
			room -= len(body) - len(common) - 1
			if len(common) == 0 {
				room++
			}
			rules = append(rules, ru)
			if len(rules) == 254 {
				break
			}
		}
		return rules
	}
	var head, tail []elem
	for n := r.Small(2); n > 0; n-- {
		head = append(head, val(base+uint32(r.N(3))))
	}
	if r.Bool(1, 4) {
		tail = append(tail, val(base+1))
	}
	add := func(x elem) {
		rules = append(rules, ruleSpec{Cond: cond, Head: append([]elem(nil), head...), Body: []elem{x}, Tail: append([]elem(nil), tail...), Out: out(len(rules))})
	}
	for i := range e.sets {
		if r.Bool(2, 3) {
			add(elem{true, uint32(i)})
		}
	}
	target := 250 + r.N(7)
	for len(rules) < 254 {
		m := e.reference(rules, make([]uint8, len(e.spec.Settings)))
		w := m.width(cond, len(head))
		if w >= target {
			break
		}
		for n := max(1, (target-w)/2-1); n > 0 && len(rules) < 254; n-- {
			add(val(base + uint32(r.N(560))))
		}
	}
	for i := range rules {
		if r.Bool(1, 3) {
			j := r.N(len(rules))
			rules[i], rules[j] = rules[j], rules[i]
		}
	}
	return rules
}

func (e *rewriteEnv) valOr(v uint32) uint32 {
	if !e.valid(v) {
		return e.alpha[0]
	}
	return v
}

// crowdInput draws input for rules drawn by crowd.
func (e *rewriteEnv) crowdInput(rules []ruleSpec) (out []uint32) {
	r := e.r
	if len(rules) == 0 {
		return e.alpha[:1]
	}
	ru := &rules[r.N(len(rules))]
	out = append(e.instance(ru.Head), e.instance(ru.Body)...)
	if r.Bool(3, 4) { // around the value
		k := len(ru.Head) + r.N(len(ru.Body))
		out[k] = e.valOr(uint32(max(0, int(out[k])+r.N(7)-3)))
	}
	return append(out, e.instance(ru.Tail)...)
}

// ---- driving a tester against the model ----

// session is a tester with what is known about it.
type session struct {
	*rewriteEnv
	t     tester
	name  string
	rules []ruleSpec
	raw   [][]byte
	cache *ggfnt.SettingsCache
	vals  []uint8 // current settings
	// during a sequence
	ref      *refRules
	seg, out []uint32
	fed      int
	rewrites int
	breaks   int
	limits   bool
	restless bool       // conditions have to be refreshed
	peers    []*session // others with the same settings cache
}

func (e *rewriteEnv) newSession(name string) *session {
	s := &session{rewriteEnv: e, t: newTester(e.runes), name: name, cache: ggfnt.NewSettingsCache(e.font)}
	s.vals = make([]uint8, len(e.spec.Settings))
	return s
}

func (s *session) fn(v uint32) { s.out = append(s.out, v) }

func (s *session) add(ru ruleSpec, data []byte) {
	before := append([]byte(nil), data...)
	if err := s.t.add(data); err != nil {
		s.r.Failf("valid rule refused", "%s: adding %v (%v): %v", s.name, ru, data, err)
	}
	if !bytes.Equal(before, data) {
		s.r.Failf("rule data changed", "%s: adding a rule changed its data", s.name)
	}
	s.rules, s.raw = append(s.rules, ru), append(s.raw, data)
	s.r.Logf("%s: add %v", s.name, ru)
	s.count()
}

func (s *session) count() {
	if n := s.t.NumRules(); n != len(s.rules) {
		s.r.Failf("wrong number of rules", "%s: reports %d rules, there are %d", s.name, n, len(s.rules))
	}
}

func (s *session) remove(data []byte, what string) {
	at := -1
	for i := range s.raw {
		if bytes.Equal(s.raw[i], data) {
			at = i
			break
		}
	}
	got := s.t.remove(append([]byte(nil), data...))
	if got != (at >= 0) {
		s.r.Failf("wrong removal", "%s: removing %s reported %v", s.name, what, got)
	}
	s.r.Logf("%s: remove %d", s.name, at)
	if at >= 0 {
		s.rules = append(s.rules[:at:at], s.rules[at+1:]...)
		s.raw = append(s.raw[:at:at], s.raw[at+1:]...)
	}
	s.count()
}

func (s *session) set(k int, option uint8) {
	m, c := s.cache.Set(ggfnt.SettingKey(k), option)
	s.r.Logf("set %d=%d (%v %v)", k, option, m, c)
	s.vals[k] = option
	s.restless = true
	for _, o := range s.peers {
		o.vals[k] = option
		o.restless = true
	}
}

func (s *session) setAll(vals []uint8) {
	for k, v := range vals {
		if s.vals[k] != v {
			s.set(k, v)
		}
	}
}

func (s *session) refresh() {
	s.t.RefreshConditions(s.font, s.cache)
	s.r.Logf("%s: refresh", s.name)
	s.restless = false
}

// failure judges the error of a compilation.
func (s *session) failure(err error, what string) bool {
	s.r.Logf("%s: %s: %v", s.name, what, err)
	ref := s.reference(s.rules, s.vals)
	if s.t.IsOperating() != (err == nil && what == "begin") {
		s.r.Failf("wrong operating state", "%s: operating is %v after %s returned %v", s.name, s.t.IsOperating(), what, err)
	}
	s.count()
	if err == nil {
		return false
	}
	s.r.Probe("compiler limits")
	s.limits = true
	if ref.easy() {
		s.r.Failf("valid rules refused", "%s: %s with %d rules: %v", s.name, what, len(s.rules), err)
	}
	return true
}

// begin starts a sequence; false if the rules exceed the compiler limits.
func (s *session) begin() bool {
	if s.restless {
		s.refresh()
	}
	if s.failure(s.t.BeginSequence(s.font, s.cache), "begin") {
		return false
	}
	s.ref = s.reference(append([]ruleSpec(nil), s.rules...), append([]uint8(nil), s.vals...))
	s.seg, s.out = nil, nil
	if n := s.t.pending(); n != 0 {
		s.r.Failf("elements pending at start", "%s: %d", s.name, n)
	}
	return true
}

func (s *session) feed(v uint32) {
	s.seg = append(s.seg, v)
	s.fed++
	if err := s.t.feed(v, s.fn); err != nil {
		s.r.Failf("valid input refused", "%s: %d: %v", s.name, v, err)
	}
}

// feedBad feeds something that must have no effect.
func (s *session) feedBad() {
	v := uint32(56790) // zilch: ignored
	wantErr := false
	if s.runes {
		v = []uint32{0xFFFD, 0xD800, 0xDFFF, 0x110000, 0xFFFFFFFF, 0x80000000}[s.r.N(6)]
		wantErr = true
	} else if k := s.r.N(5); k > 0 {
		v = []uint32{56791, 65535, 60000, 62000}[k-1]
		wantErr = true
	}
	s.r.Fault("invalid input")
	n, p := len(s.out), s.t.pending()
	err := s.t.feed(v, s.fn)
	if (err != nil) != wantErr {
		s.r.Failf("wrong judgement of input", "%s: feeding %d gave %v", s.name, v, err)
	}
	if len(s.out) != n || s.t.pending() != p || !s.t.IsOperating() {
		s.r.Failf("refused input had effects", "%s: feeding %d", s.name, v)
	}
}

// settle compares the output since the last break.
func (s *session) settle(what string) {
	want := s.ref.rewrite(s.seg)
	if fmt.Sprint(s.out) != fmt.Sprint(want) {
		s.r.Failf("wrong rewriting", "%s: %s: input %v with rules %s\ngave %v\nexpected %v", s.name, what, s.seg, s.ruleText(), s.out, want)
	}
	if n := s.t.pending(); n != 0 {
		s.r.Failf("elements left pending", "%s: %d after %s", s.name, n, what)
	}
	s.r.Logf("%s: %s %v -> %v", s.name, what, s.seg, want)
	s.rewrites += s.ref.rewrites
	s.ref.rewrites = 0
	s.seg, s.out = nil, nil
}

func (s *session) ruleText() string {
	if len(s.ref.rules) > 12 {
		return fmt.Sprintf("(%d rules)", len(s.ref.rules))
	}
	return fmt.Sprint(s.ref.rules, " (active ", s.ref.groups, ", sets ", s.sets, ")")
}

func (s *session) brk() {
	s.t.brk(s.fn)
	s.breaks++
	s.settle("break")
}

func (s *session) finish() {
	s.t.finish(s.fn)
	if s.t.IsOperating() {
		s.r.Failf("wrong operating state", "%s: operating after finishing", s.name)
	}
	s.settle("finish")
}

// sequence runs a whole drawn sequence.
func (s *session) sequence(size int) bool {
	if !s.begin() {
		return false
	}
	r := s.r
	for n := r.Small(size); n > 0; n-- {
		switch r.Pick(12, 2, 1, 1, 1) {
		case 0:
			for _, v := range s.drawInput(s.rules) {
				s.feed(v)
			}
		case 1:
			s.brk()
		case 2:
			s.feedBad()
		case 3: // nothing changed (or so it must seem)
			if !s.restless {
				s.refresh()
				r.Probe("refresh while operating")
			}
		case 4: // settings have no effect until conditions are refreshed
			if len(s.vals) > 0 && s.cache != nil {
				s.set(r.N(len(s.vals)), 0)
				r.Probe("settings changed while operating")
			}
		}
	}
	s.finish()
	return true
}

// twin checks that the tester behaves like a new one with the same rules and settings.
func (s *session) twin(inputs [][]uint32) {
	t := s.newSession(s.name + " (twin)")
	t.setAll(s.vals)
	for i := range s.rules {
		t.add(s.rules[i], append([]byte(nil), s.raw[i]...))
	}
	t.restless = false
	if s.restless {
		s.refresh()
	}
	if s.r.Bool(1, 2) {
		err := s.t.Resync(s.font, s.cache)
		s.failure(err, "resync")
	}
	a, b := s.begin(), t.begin()
	if a != b {
		s.r.Failf("differs from a new tester", "%s: begins: %v, a new tester: %v", s.name, a, b)
	}
	if !a {
		return
	}
	for _, in := range inputs {
		for _, v := range in {
			s.feed(v)
			t.feed(v)
			if fmt.Sprint(s.out) != fmt.Sprint(t.out) || s.t.pending() != t.t.pending() {
				s.r.Failf("differs from a new tester", "%s: after feeding %v: %v and %v", s.name, s.seg, s.out, t.out)
			}
		}
		if s.r.Bool(1, 2) {
			s.brk()
			t.brk()
		}
	}
	s.finish()
	t.finish()
}

func (s *session) drawInputs(n int) (in [][]uint32) {
	for ; n > 0; n-- {
		in = append(in, s.drawInput(s.rules))
	}
	return in
}
