package world

import (
	"bytes"
	"fmt"
	"slices"
	"strings"

	"github.com/tinne26/ggfnt"

	"verif.local/sim/core"
)

// ---- C16: rewriting follows the rules ----

func runRewriting(r *core.R) {
	if r.N(25) == 24 {
		runCrowd(r)
		return
	}
	e := newRewriteEnv(r, r.Bool(1, 2))
	var stored []ruleSpec
	for n := r.Small(4); n > 0; n-- {
		stored = append(stored, e.drawRule(stored))
	}
	if e.runes {
		e.spec.URules = stored
	} else {
		e.spec.GRules = stored
	}
	e.load()
	s := e.newSession("tester")
	plain := len(e.sets) == 0 // needs neither font nor settings
	addStored := func(i int) {
		var data []byte
		if e.runes {
			data = e.font.Rewrites().GetUtf8Rule(uint16(i)).Data
		} else {
			data = e.font.Rewrites().GetGlyphRule(uint16(i)).Data
		}
		s.add(stored[i], data)
	}
	for lives := 1 + r.Small(2); lives > 0; lives-- {
		r.Op(func() {
			if r.Bool(1, 2) {
				s.setAll(e.drawSettings())
			}
			if r.Bool(1, 4) {
				s.t.RemoveAllRules()
				s.rules, s.raw = nil, nil
				s.count()
			}
			for n := r.Small(8); n > 0 && len(s.rules) < 254; n-- {
				if len(stored) > 0 && r.Bool(1, 3) {
					addStored(r.N(len(stored)))
					continue
				}
				ru := e.drawRule(s.rules)
				s.add(ru, e.encodeRule(&ru))
			}
			if r.N(150) == 149 {
				for len(s.rules) < 254 {
					ru := e.drawRule(s.rules)
					s.add(ru, e.encodeRule(&ru))
				}
				r.Probe("254 rules")
			}
		})
		for _, ru := range s.rules {
			plain = plain && ru.Cond == 255
		}
		for seqs := 1 + r.Small(2); seqs > 0; seqs-- {
			r.Op(func() {
				if plain && r.Bool(1, 3) && !s.restless {
					font, cache := s.font, s.cache
					s.font, s.cache = nil, nil
					r.Probe("neither font nor settings")
					s.sequence(2)
					s.font, s.cache = font, cache
					return
				}
				if !s.sequence(16) { // beyond the limits: fewer rules, then
					for len(s.rules) > 0 {
						s.remove(s.raw[len(s.raw)-1], "last rule")
						if s.reference(s.rules, s.vals).easy() {
							break
						}
					}
					s.sequence(16)
				}
			})
		}
	}
	if s.rewrites > 0 {
		r.Nontrivial()
	}
	if s.rewrites > 3 {
		r.Probe("many rewrites")
	}
}

// runCrowd works with about as many states or transitions as there can be.
func runCrowd(r *core.R) {
	e := newCrowdEnv(r, r.Bool(1, 2))
	e.load()
	s := e.newSession("crowded tester")
	for lives := 1 + r.N(2); lives > 0; lives-- {
		r.Op(func() {
			s.setAll(e.drawSettings())
			s.t.RemoveAllRules()
			s.rules, s.raw = nil, nil
			for _, ru := range e.crowd() {
				s.add(ru, e.encodeRule(&ru))
			}
			for !s.begin() {
				s.remove(s.raw[r.N(len(s.raw))], "some rule")
			}
			if len(s.rules) > 0 {
				r.Probe("crowd")
			}
			for n := 10 + r.N(40); n > 0; n-- {
				for _, v := range e.crowdInput(s.rules) {
					s.feed(v)
				}
				if r.Bool(1, 3) {
					s.brk()
				}
			}
			s.finish()
		})
	}
	if s.rewrites > 0 {
		r.Nontrivial()
	}
}

// ---- C19: changes of rules and settings ----

func runRuleHistory(r *core.R) {
	e := newRewriteEnv(r, r.Bool(1, 2))
	e.load()
	var ss []*session
	for n := 1 + r.N(2); n > 0; n-- {
		s := e.newSession(fmt.Sprintf("tester %d", n))
		ss = append(ss, s)
	}
	if len(ss) == 2 && r.Bool(1, 2) { // one settings cache for both
		ss[1].cache = ss[0].cache
		ss[0].peers, ss[1].peers = ss[1:2], ss[0:1]
		r.Probe("shared settings cache")
	}
	changes, checks := 0, 0
	for n := 3 + r.Small(40); n > 0; n-- {
		r.Op(func() {
			s := ss[r.N(len(ss))]
			switch r.Pick(80, 40, 10, 50, 20, 20, 40, 40, 1) {
			case 8: // as many changes as some counter could count, or about as many
				if len(s.rules) >= 250 {
					return
				}
				changes++
				many := 256<<(8*r.Pick(12, 1)) - r.Pick(4, 1, 1)
				what := r.N(3)
				r.Probe("many changes in a row")
				r.Logf("%s: %d changes of kind %d", s.name, many, what)
				switch what {
				case 0: // of a setting
					if len(s.vals) == 0 {
						return
					}
					k := r.N(len(s.vals))
					option := uint8(r.N(len(e.spec.Settings[k].Options)))
					all := len(e.spec.Settings[k].Options)
					vary := r.Bool(2, 3)
					for i := 1; i < many; i++ {
						if vary {
							s.cache.Set(ggfnt.SettingKey(k), uint8((int(option)+many-i)%all))
						} else {
							s.cache.Set(ggfnt.SettingKey(k), option)
						}
					}
					s.set(k, option)
				case 1: // refreshes
					if len(s.vals) > 0 {
						k := r.N(len(s.vals))
						s.set(k, uint8(r.N(len(e.spec.Settings[k].Options))))
					}
					for i := 1; i < many; i++ {
						s.t.RefreshConditions(s.font, s.cache)
					}
					s.refresh()
				case 2: // of the rules
					if len(s.rules) > 0 {
						s.remove(s.raw[r.N(len(s.rules))], "existing rule")
						many--
					}
					ru := e.drawRule(s.rules)
					data := e.encodeRule(&ru)
					for i := 2; i < many; i += 2 {
						if err := s.t.add(data); err != nil {
							r.Failf("valid rule refused", "%s: adding %v (%v): %v", s.name, ru, data, err)
						}
						if at := slices.IndexFunc(s.raw, func(d []byte) bool { return bytes.Equal(d, data) }); at >= 0 {
							s.rules = append(s.rules[:at:at], append(s.rules[at+1:], ru)...)
							s.raw = append(s.raw[:at:at], append(s.raw[at+1:], data)...)
						}
						if !s.t.remove(data) {
							r.Failf("wrong removal", "%s: removing a rule just added", s.name)
						}
					}
					s.add(ru, data)
				}
			case 0:
				if len(s.rules) < 250 {
					ru := e.drawRule(s.rules)
					s.add(ru, e.encodeRule(&ru))
				}
			case 1:
				changes++
				if len(s.rules) > 0 && r.Bool(4, 5) {
					i := r.N(len(s.rules))
					s.remove(s.raw[i], "existing rule")
				} else {
					ru := e.drawRule(nil)
					s.remove(e.encodeRule(&ru), "unrelated rule")
				}
			case 2:
				changes++
				s.t.RemoveAllRules()
				s.rules, s.raw = nil, nil
				s.count()
			case 3:
				if len(s.vals) == 0 {
					return
				}
				changes++
				k := r.N(len(s.vals))
				s.set(k, uint8(r.N(len(e.spec.Settings[k].Options))))
			case 4:
				s.refresh()
			case 5:
				if s.restless { // otherwise which conditions are up to date depends on the rules
					s.refresh()
				}
				s.failure(s.t.Resync(s.font, s.cache), "resync")
			case 6:
				s.sequence(6)
				checks++
			case 7:
				s.twin(s.drawInputs(1 + r.Small(4)))
				checks++
			}
		})
	}
	rewrites := 0
	for _, s := range ss {
		s.twin(s.drawInputs(3))
		rewrites += s.rewrites
	}
	if changes > 0 && rewrites > 0 {
		r.Nontrivial()
	}
	if changes > 5 && checks > 2 {
		r.Probe("long history")
	}
}

// ---- C18: failures ----

// meaning tells what raw rule data means. Data that isn't valid, but could
// be understood nevertheless, is reported as doubtful.
func (e *rewriteEnv) meaning(d []byte) (ru ruleSpec, valid, doubtful bool) {
	ru, ok := decodeRule(d, e.runes)
	if !ok {
		ru, ok = decodeRule(append(append([]byte(nil), d...), 0), e.runes)
		if !ok || len(ru.Tail) > 0 {
			return ru, false, false
		}
		doubtful = true
	}
	if len(ru.Out) == 0 || len(ru.Out) > len(ru.Body) || len(ru.Head)+len(ru.Body)+len(ru.Tail) > 255 {
		return ru, false, false
	}
	never := false // there's an empty set, so what follows may be left unchecked
	for _, b := range [][]elem{ru.Head, ru.Body, ru.Tail} {
		for _, x := range b {
			if x.Set && int(x.V) < len(e.sets) && len(e.sets[x.V].Ranges)+len(e.sets[x.V].List) == 0 {
				never = true
			}
			if x.Set && int(x.V) >= len(e.sets) && never {
				doubtful = true
				continue
			}
			if x.Set && int(x.V) >= len(e.sets) || !x.Set && !e.runes && x.V >= 56789 || !x.Set && e.runes && x.V == 0xFFFD {
				return ru, false, false
			}
			if !x.Set && e.runes && (x.V > 0x10FFFF || x.V >= 0xD800 && x.V < 0xE000) {
				doubtful = true
			}
		}
	}
	if ru.Cond != 255 && int(ru.Cond) >= len(e.spec.Conds) {
		return ru, false, false
	}
	return ru, !doubtful, doubtful
}

type interrupted struct{}

// guard runs f, which calls user code that may panic.
func guard(f func()) (was bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(interrupted); !ok {
				panic(p)
			}
			was = true
		}
	}()
	f()
	return false
}

// tooMuch draws rules beyond the limits of the compiler.
func (e *rewriteEnv) tooMuch() (rules []ruleSpec) {
	r := e.r
	cond := uint8(255)
	if len(e.spec.Conds) > 0 && r.Bool(1, 2) {
		cond = uint8(r.N(len(e.spec.Conds)))
	}
	val := func(i int) elem { return elem{false, uint32(i)} }
	switch r.N(3) {
	case 0: // too many states in a single rule
		ru := ruleSpec{Cond: cond, Out: []uint32{e.alpha[0]}}
		for i := 0; i < 255; i++ {
			ru.Body = append(ru.Body, val(1+i%7))
		}
		return []ruleSpec{ru}
	case 1: // too many states for several rules
		for k := 0; k < 4; k++ {
			ru := ruleSpec{Cond: cond, Out: []uint32{e.alpha[0]}}
			ru.Body = append(ru.Body, val(100+k))
			for i := 0; i < 70; i++ {
				ru.Body = append(ru.Body, val(1+i%7))
			}
			rules = append(rules, ru)
		}
	default: // many transitions, sooner or later
		n := 200 + r.N(54)
		for k := 0; k < n; k++ {
			ru := ruleSpec{Cond: cond, Out: []uint32{e.alpha[0]}}
			ru.Body = []elem{val(1 + k), val(2 + k), val(3 + k)}
			rules = append(rules, ru)
		}
	}
	return rules
}

func runTesterFailures(r *core.R) {
	e := newRewriteEnv(r, r.Bool(1, 2))
	e.load()
	var ss []*session
	for n := 1 + r.N(2); n > 0; n-- {
		ss = append(ss, e.newSession(fmt.Sprintf("tester %d", n)))
	}
	faults, checks := 0, 0
	addSome := func(s *session, n int) {
		for ; n > 0 && len(s.rules) < 250; n-- {
			ru := e.drawRule(s.rules)
			s.add(ru, e.encodeRule(&ru))
		}
	}
	for n := 2 + r.Small(12); n > 0; n-- {
		r.Op(func() {
			s := ss[r.N(len(ss))]
			switch r.Pick(4, 3, 4, 2, 1, 3, 4, 3) {
			case 0:
				addSome(s, 1+r.Small(3))
			case 1: // beyond the limits
				keep := len(s.rules)
				for _, ru := range e.tooMuch() {
					if len(s.rules) == 254 {
						break
					}
					s.add(ru, ru.encode(e.runes))
				}
				if s.restless {
					s.refresh()
				}
				what := []string{"begin", "resync"}[r.N(2)]
				for k := 1 + r.N(2); k > 0; k-- {
					var err error
					if what == "begin" {
						err = s.t.BeginSequence(s.font, s.cache)
					} else {
						err = s.t.Resync(s.font, s.cache)
					}
					if s.failure(err, what) {
						r.Fault("compiler limits")
						faults++
					} else if what == "begin" {
						s.ref = s.reference(append([]ruleSpec(nil), s.rules...), append([]uint8(nil), s.vals...))
						s.seg, s.out = nil, nil
						for _, in := range s.drawInputs(r.N(5)) {
							for _, v := range in {
								s.feed(v)
							}
						}
						s.finish()
						break
					}
					for _, o := range ss { // others aren't affected
						if o != s {
							o.twin(o.drawInputs(2))
						}
					}
				}
				if r.Bool(1, 4) {
					s.t.RemoveAllRules()
					s.rules, s.raw = nil, nil
				}
				// removed in any order
				for len(s.rules) > keep {
					s.remove(s.raw[keep+r.N(len(s.rules)-keep)], "offending rule")
				}
				s.count()
				s.twin(s.drawInputs(2))
				checks++
			case 2: // damaged rule
				ru := e.drawRule(s.rules)
				d := append([]byte(nil), e.encodeRule(&ru)...)
				for k := 1 + r.Small(3); k > 0; k-- {
					switch r.N(5) {
					case 0:
						d[r.N(len(d))] ^= 1 << r.N(8)
					case 1:
						if len(d) > 5 {
							d = d[:5+r.N(len(d)-5)]
						}
					case 2:
						d = append(d, byte(r.N(256)))
					case 3:
						d[r.N(min(5, len(d)))] = byte(r.Small(255))
					case 4: // undefined sets
						if len(d) > 8 {
							i := 7 + r.N(len(d)-7)
							d[i] = byte(16 << r.N(3))
						}
					}
				}
				if r.N(20) == 19 {
					d = d[:r.N(min(len(d), 14))]
				}
				ru, valid, doubtful := e.meaning(d)
				r.Fault("damaged rule")
				faults++
				before := s.t.NumRules()
				err := s.t.add(d)
				r.Logf("damaged rule %v: valid %v, doubtful %v: %v", d, valid, doubtful, err)
				if err != nil {
					if valid && len(s.rules) < 254 {
						r.Failf("valid rule refused", "%s: %v: %v", s.name, d, err)
					}
					if s.t.NumRules() != before {
						r.Failf("refused rule counted", "%s: %v", s.name, d)
					}
					s.twin(s.drawInputs(2))
					return
				}
				if valid {
					s.rules, s.raw = append(s.rules, ru), append(s.raw, d)
					s.count()
					s.twin(s.drawInputs(2))
					return
				}
				if s.restless || r.Bool(1, 4) {
					s.refresh()
				}
				for k := 1 + r.N(2); k > 0; k-- {
					err = s.t.BeginSequence(s.font, s.cache)
					r.Logf("begin: %v", err)
					if s.t.IsOperating() != (err == nil) {
						r.Failf("wrong operating state", "%s: operating is %v after %v", s.name, s.t.IsOperating(), err)
					}
					if err == nil {
						if !doubtful {
							r.Failf("invalid rule accepted", "%s: %v", s.name, d)
						}
						s.t.finish(func(uint32) {})
					} else {
						r.Probe("compilation refused")
						for _, o := range ss {
							if o != s {
								o.twin(o.drawInputs(2))
							}
						}
					}
				}
				if s.t.NumRules() != before+1 || !s.t.remove(append([]byte(nil), d...)) {
					r.Failf("offending rule can't be removed", "%s: %v", s.name, d)
				}
				s.count()
				s.twin(s.drawInputs(2))
				checks++
			case 3: // callbacks that don't return
				if !s.begin() {
					return
				}
				at := r.Small(6)
				fn := func(uint32) {
					if at--; at < 0 {
						panic(interrupted{})
					}
				}
				was := false
				for k := 1 + r.Small(4); k > 0; k-- {
					for _, v := range s.drawInput(s.rules) {
						was = guard(func() {
							if err := s.t.feed(v, fn); err != nil {
								r.Failf("valid input refused", "%s: %d: %v", s.name, v, err)
							}
						}) || was
						if was && r.Bool(1, 2) {
							k = 1
							break
						}
					}
				}
				was = guard(func() { s.t.brk(fn) }) || was
				if was {
					r.Fault("interrupted callback")
					faults++
				}
				if !s.t.IsOperating() {
					r.Failf("wrong operating state", "%s: stopped operating after an interrupted callback", s.name)
				}
				left := 0
				s.t.finish(func(uint32) { left++ })
				if s.t.IsOperating() || s.t.pending() != 0 {
					r.Failf("wrong operating state", "%s: operating %v with %d pending after finishing an interrupted sequence", s.name, s.t.IsOperating(), s.t.pending())
				}
				s.twin(s.drawInputs(2))
				checks++
			case 4: // too many rules
				if r.N(4) > 0 {
					return
				}
				for len(s.rules) < 254 {
					ru := ruleSpec{Cond: 255, Body: []elem{{false, e.alpha[r.N(len(e.alpha))]}}, Out: []uint32{e.alpha[0]}}
					s.add(ru, ru.encode(e.runes))
				}
				ru := e.drawRule(nil)
				if err := s.t.add(ru.encode(e.runes)); err == nil {
					r.Failf("too many rules accepted", "%s: rule 255", s.name)
				}
				r.Fault("too many rules")
				faults++
				s.count()
				s.twin(s.drawInputs(2))
				for k := r.Small(254); k > 0; k-- {
					s.remove(s.raw[r.N(len(s.raw))], "rule")
				}
				checks++
			case 5: // misuse
				r.Fault("misuse")
				faults++
				bad := func(what string, f func()) {
					if core.Try(f) == "" {
						r.Failf("misuse not reported", "%s: %s", s.name, what)
					}
				}
				if r.Bool(1, 2) {
					bad("feed while not operating", func() { s.t.feed(e.alpha[0], s.fn) })
					bad("break while not operating", func() { s.t.brk(s.fn) })
					bad("finish while not operating", func() { s.t.finish(s.fn) })
					s.twin(s.drawInputs(1))
					return
				}
				if !s.begin() {
					return
				}
				for _, v := range s.drawInput(s.rules) {
					s.feed(v)
				}
				ru := e.drawRule(nil)
				bad("begin while operating", func() { s.t.BeginSequence(s.font, s.cache) })
				bad("resync while operating", func() { s.t.Resync(s.font, s.cache) })
				bad("add while operating", func() { s.t.add(ru.encode(e.runes)) })
				bad("remove while operating", func() { s.t.remove(ru.encode(e.runes)) })
				bad("remove all while operating", func() { s.t.RemoveAllRules() })
				s.count()
				for _, v := range s.drawInput(s.rules) {
					s.feed(v)
				}
				s.finish()
			case 6:
				s.sequence(8)
				checks++
			case 7:
				if len(s.vals) > 0 {
					s.setAll(e.drawSettings())
				}
			}
		})
	}
	for _, s := range ss {
		s.twin(s.drawInputs(2))
	}
	if faults > 0 {
		r.Nontrivial()
	}
}

// ---- C17: testers on different threads ----

type rwOp struct {
	kind int
	data []byte
	vals []uint32
	k    int
	opt  uint8
}

type rwScript struct {
	env *rewriteEnv
	ops []rwOp
}

const (
	opAdd = iota
	opRemove
	opRemoveAll
	opSet
	opRefresh
	opResync
	opBegin
	opFeed
	opBreak
	opFinish
)

func drawScript(r *core.R, e *rewriteEnv) *rwScript {
	s := &rwScript{env: e}
	var rules []ruleSpec
	var raws [][]byte
	add := func(ru ruleSpec) {
		rules = append(rules, ru)
		raws = append(raws, e.encodeRule(&ru))
		s.ops = append(s.ops, rwOp{kind: opAdd, data: raws[len(raws)-1]})
	}
	for n := r.Small(5); n > 0; n-- {
		add(e.drawRule(rules))
	}
	for n := 2 + r.Small(14); n > 0; n-- {
		switch r.Pick(3, 2, 1, 2, 2, 1, 4, 8, 2, 3, 1, 1) {
		case 0:
			add(e.drawRule(rules))
		case 1:
			if len(raws) > 0 {
				s.ops = append(s.ops, rwOp{kind: opRemove, data: raws[r.N(len(raws))]})
			}
		case 2:
			s.ops = append(s.ops, rwOp{kind: opRemoveAll})
		case 3:
			if len(e.spec.Settings) > 0 {
				k := r.N(len(e.spec.Settings))
				s.ops = append(s.ops, rwOp{kind: opSet, k: k, opt: uint8(r.N(len(e.spec.Settings[k].Options)))}, rwOp{kind: opRefresh})
			}
		case 4:
			s.ops = append(s.ops, rwOp{kind: opRefresh})
		case 5:
			s.ops = append(s.ops, rwOp{kind: opResync})
		case 6:
			s.ops = append(s.ops, rwOp{kind: opBegin})
		case 7:
			s.ops = append(s.ops, rwOp{kind: opBegin}, rwOp{kind: opFeed, vals: e.drawInput(rules)})
		case 8:
			s.ops = append(s.ops, rwOp{kind: opBreak})
		case 9:
			s.ops = append(s.ops, rwOp{kind: opFinish})
		case 10: // a failing compilation
			if r.N(3) == 2 {
				for _, ru := range e.tooMuch()[:1] {
					add(ru)
				}
				s.ops = append(s.ops, rwOp{kind: opBegin})
				r.Fault("compiler limits")
			}
		case 11: // an invalid rule
			ru := e.drawRule(rules)
			d := ru.encode(e.runes)
			d[2]++
			s.ops = append(s.ops, rwOp{kind: opFinish}, rwOp{kind: opAdd, data: d}, rwOp{kind: opBegin}, rwOp{kind: opRemove, data: d})
			r.Fault("damaged rule")
		}
	}
	return s
}

// exec performs the script on a new tester. Operations that aren't allowed at
// some point are skipped.
func (s *rwScript) exec(log func(string)) string {
	var sb strings.Builder
	note := func(format string, args ...any) { fmt.Fprintf(&sb, format+"\n", args...) }
	t := newTester(s.env.runes)
	cache := ggfnt.NewSettingsCache(s.env.font)
	var out []uint32
	fn := func(v uint32) { out = append(out, v) }
	for i, op := range s.ops {
		on := t.IsOperating()
		if on && (op.kind <= opRemoveAll || op.kind == opBegin || op.kind == opResync) || !on && op.kind >= opFeed {
			continue
		}
		out = nil
		switch op.kind {
		case opAdd:
			note("add: %v", t.add(op.data))
		case opRemove:
			note("remove: %v", t.remove(op.data))
		case opRemoveAll:
			t.RemoveAllRules()
		case opSet:
			a, b := cache.Set(ggfnt.SettingKey(op.k), op.opt)
			note("set: %v %v", a, b)
		case opRefresh:
			t.RefreshConditions(s.env.font, cache)
		case opResync:
			note("resync: %v", t.Resync(s.env.font, cache))
		case opBegin:
			note("begin: %v", t.BeginSequence(s.env.font, cache))
		case opFeed:
			for _, v := range op.vals {
				note("feed %d: %v", v, t.feed(v, fn))
			}
		case opBreak:
			t.brk(fn)
		case opFinish:
			t.finish(fn)
		}
		note("%d: %d rules, operating %v, %d pending, output %v", i, t.NumRules(), t.IsOperating(), t.pending(), out)
		log(fmt.Sprintf("op %d (%d): %v", i, op.kind, out))
	}
	return sb.String()
}

func runTesterThreads(r *core.R) {
	n := 2 + r.N(3)
	var scripts []*rwScript
	for i := 0; i < n; i++ {
		if i > 0 && r.Bool(1, 3) { // same font
			e := *scripts[0].env
			scripts = append(scripts, drawScript(r, &e))
			r.Probe("same font")
			continue
		}
		e := newRewriteEnv(r, r.Bool(1, 2))
		e.load()
		scripts = append(scripts, drawScript(r, e))
	}
	solo := make([]string, n)
	alone := func() {
		for i, s := range scripts {
			solo[i] = s.exec(func(string) {})
		}
	}
	first := r.Bool(1, 2)
	if first {
		alone()
	}
	got := make([]string, n)
	var fs []func()
	for i, s := range scripts {
		fs = append(fs, func() {
			got[i] = s.exec(func(line string) { r.Logf("%s", line) })
		})
	}
	r.Parallel(fs...)
	if !first {
		alone()
	}
	for i := range scripts {
		if got[i] != solo[i] {
			r.Failf("threads influence each other", "tester %d of %d: %s", i, n, firstDiff(solo[i], got[i]))
		}
		r.Mix([]byte(got[i]))
	}
	for _, s := range scripts {
		for _, op := range s.ops {
			if op.kind == opBegin {
				r.Nontrivial()
			}
		}
	}
}

func init() {
	stub := []string{"thread scheduler (decides at every statement which thread runs)"}
	real := []string{"rerules.GlyphTester and rerules.Utf8Tester", "rule scanners, decision tree compilers, shared compiler pool", "SettingsCache", "Parse", "rewrite conditions and sets of Font"}
	core.Register(&core.World{ID: "C16", StepBudget: 2_000_000_000, QuickRuns: 150000, Run: runRewriting,
		Rule:      "one seeded font (settings, conditions, sets) and tester with drawn rules, fed drawn sequences related to the rules, with breaks, invalid inputs, and refreshes; non-trivial if some rule applied",
		Faults:    []string{"invalid input"},
		MustProbe: []string{"compiler limits", "many rewrites", "254 rules", "254 conditions", "empty set", "refresh while operating", "settings changed while operating"},
		Real:      real, Stub: stub, Measure: "distinct traces",
		Assumptions: []string{"when several rules of a condition match the same input, the one with the lowest index is the only candidate, even if its head doesn't include the already reported tail"},
	})
	core.Register(&core.World{ID: "C17", StepBudget: 2_000_000_000, QuickRuns: 75000, Run: runTesterThreads,
		Rule:      "2 to 4 threads with drawn scripts of tester operations each, interleaved at statement granularity by the seeded scheduler, compared with the same scripts alone; non-trivial if some thread compiles rules",
		Faults:    []string{"compiler limits", "damaged rule"},
		MustProbe: []string{"same font"},
		Real:      real, Stub: stub, Measure: "distinct traces (with schedules)",
	})
	core.Register(&core.World{ID: "C18", StepBudget: 2_000_000_000, QuickRuns: 45000, Run: runTesterFailures,
		Rule:      "one seeded history of failing operations (compiler limits, damaged rules, too many rules, invalid input, callbacks that panic, misuse) on one or two testers, each followed by recovery and comparison with a new tester and the model; non-trivial if a failure took place",
		Faults:    []string{"compiler limits", "damaged rule", "too many rules", "interrupted callback", "misuse", "invalid input"},
		MustProbe: []string{"compilation refused"},
		Real:      real, Stub: stub, Measure: "distinct traces",
		Assumptions: []string{"the output of a sequence whose callback was interrupted is not specified, only that it can be finished and what comes after it"},
	})
	core.Register(&core.World{ID: "C19", StepBudget: 2_000_000_000, QuickRuns: 130000, Run: runRuleHistory,
		Rule:      "one seeded history of rule additions and removals, setting changes, refreshes, resyncs and sequences on one or two testers, compared with new testers and the model; non-trivial if something changed and some rule applied",
		Faults:    nil,
		MustProbe: []string{"long history", "shared settings cache", "compiler limits", "many changes in a row"},
		Real:      real, Stub: stub, Measure: "distinct traces",
		Assumptions: []string{"conditions are refreshed between setting changes and the next sequence or resync"},
	})
}
