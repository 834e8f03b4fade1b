package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C33: what a service pattern matches.
//
// A pattern is followed symbolically as a list of parts: the literals L and M, of which only is known that they are
// not empty and hold no asterisk, and asterisks between them. Every path through NewStrMatch for such a pattern and
// then through include leaves what the path has asked of the name; that must settle the answer the path gives.

type matchMon struct {
	c      *Ctx
	e      *Engine
	star   *Term
	fields map[string]*Term // of the compiled pattern, in the second stage
}

type matchShape struct {
	name string
	text string // L, M and *
}

var matchShapes = []matchShape{
	{"a literal", "L"}, {"a literal and *", "L*"}, {"* and a literal", "*L"}, {"* on both sides of a literal", "*L*"},
	{"a * between two literals", "L*M"}, {"* literal * literal", "*L*M"}, {"literal * literal *", "L*M*"},
	{"* literal * literal *", "*L*M*"}, {"*", "*"}, {"**", "**"}, {"no pattern", ""},
}

func (m *matchMon) lit(n string) *Term {
	return m.e.TT.mk("call", n, types.Typ[types.String], nil)
}

func (m *matchMon) isLit(t *Term) bool { return t == m.lit("L") || t == m.lit("M") }

func (m *matchMon) lenT(t *Term) *Term {
	return m.e.TT.mk("len", "", types.Typ[types.Int], nil, t)
}

func (m *matchMon) cat(parts []*Term) *Term {
	if len(parts) == 0 {
		return m.e.str("")
	}
	all := ""
	for _, p := range parts {
		if p != m.star {
			all = ""
			break
		}
		all += "*"
	}
	if all != "" {
		return m.e.str(all)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return m.e.TT.mk("cat", "", types.Typ[types.String], nil, parts...)
}

// parts: the pattern text as literals and asterisks.
func (m *matchMon) parts(t *Term) ([]*Term, bool) {
	if s, ok := t.Str(); ok {
		var r []*Term
		for _, c := range s {
			if c != '*' {
				return nil, false
			}
			r = append(r, m.star)
		}
		return r, true
	}
	if t.Op == "cat" {
		return t.Args, true
	}
	if m.isLit(t) {
		return []*Term{t}, true
	}
	return nil, false
}

func (m *matchMon) size(p *Term) poly {
	if p == m.star {
		return polyConst(1)
	}
	return toPoly(m.lenT(p), nil)
}

// limits: the least and the greatest value a length expression can have, for all literals.
func (m *matchMon) limits(p poly) (lo, hi int64, okLo, okHi bool) {
	k, pos, neg := int64(0), int64(0), int64(0)
	for mono, co := range p {
		if mono == "" {
			k = co
			continue
		}
		if mono != fmt.Sprintf("t%d", m.lenT(m.lit("L")).ID) && mono != fmt.Sprintf("t%d", m.lenT(m.lit("M")).ID) {
			return 0, 0, false, false
		}
		if co > 0 {
			pos += co
		} else {
			neg += co
		}
	}
	return k + pos, k + neg, neg == 0, pos == 0
}

// bound: the part that starts at this offset, or -1.
func (m *matchMon) bound(ps []*Term, at poly) int {
	sum := polyConst(0)
	for i := 0; ; i++ {
		if sum.eq(at) {
			return i
		}
		if i == len(ps) {
			return -1
		}
		sum = sum.add(m.size(ps[i]), 1)
	}
}

func (m *matchMon) boolT(b bool) *Term {
	return m.e.TT.Const(constant.MakeBool(b), types.Typ[types.Bool])
}

func (m *matchMon) ofPoly(p poly) *Term {
	r := m.e.intT(p[""])
	for _, n := range []string{"L", "M"} {
		l := m.lenT(m.lit(n))
		for i := int64(0); i < p[fmt.Sprintf("t%d", l.ID)]; i++ {
			r = m.e.TT.mk("bin", "+", types.Typ[types.Int], nil, r, l)
		}
	}
	return r
}

// rewrite: what is known of a value because of the shape of the pattern.
func (m *matchMon) rewrite(s *State, t *Term) *Term {
	e := m.e
	switch t.Op {
	case "load", "field":
		if t.Op == "load" && t.Args[0].Op == "global" {
			if v, ft := m.c.W.constGlobal(t.Args[0].Aux); v != nil {
				return e.TT.Const(v, ft)
			}
		}
		if m.fields != nil {
			a := t
			if t.Op == "load" {
				a = t.Args[0]
			}
			if v := m.fields[a.Aux]; v != nil && (a.Op == "fieldaddr" || a.Op == "field") && isNamedT(a.Args[0].Typ, "common/util", "StrMatch") {
				return v
			}
		}
	case "len":
		if ps, ok := m.parts(t.Args[0]); ok {
			sum := polyConst(0)
			for _, p := range ps {
				sum = sum.add(m.size(p), 1)
			}
			return m.ofPoly(sum)
		}
	case "slice":
		if ps, ok := m.parts(t.Args[0]); ok {
			lo, hi := 0, len(ps)
			if t.Args[1].Op != "none" {
				lo = m.bound(ps, toPoly(t.Args[1], nil))
			}
			if t.Args[2].Op != "none" {
				hi = m.bound(ps, toPoly(t.Args[2], nil))
			}
			if lo >= 0 && hi >= lo {
				return m.cat(ps[lo:hi])
			}
		}
	case "index", "lookup":
		if ps, ok := m.parts(t.Args[0]); ok {
			i := m.bound(ps, toPoly(t.Args[1], nil))
			last := -1
			if i < 0 { // the last byte of a part
				last = m.bound(ps, toPoly(t.Args[1], nil).add(polyConst(1), 1))
				if last >= 1 {
					i = last - 1
				}
			}
			if i >= 0 && i < len(ps) {
				if ps[i] == m.star {
					return e.TT.Const(constant.MakeInt64('*'), types.Typ[types.Byte])
				}
				return e.TT.mk("call", "a byte of a literal", types.Typ[types.Byte], nil, t.Args[1])
			}
		}
	case "not":
		if x := m.rewrite(s, t.Args[0]); x != t.Args[0] {
			return e.TT.Not(x)
		}
	case "bin":
		if t.Aux != "<" && t.Aux != "==" {
			return t
		}
		a, b := t.Args[0].Strip(), t.Args[1].Strip()
		for i := 0; i < 2; i++ {
			if a.Aux == "a byte of a literal" {
				if v, ok := b.Int(); ok && v == '*' && t.Aux == "==" {
					return m.boolT(false)
				}
				return t
			}
			a, b = b, a
		}
		if isStrOrBytes(a.Typ) {
			if ps, ok := m.parts(a); ok {
				if qs, ok := m.parts(b); ok {
					if len(ps) == len(qs) {
						same := true
						for i := range ps {
							same = same && ps[i] == qs[i]
						}
						if same {
							return m.boolT(t.Aux == "==")
						}
					}
					one := func(x []*Term) bool { return len(x) == 1 && x[0] != m.star }
					if t.Aux == "==" && !(one(ps) && one(qs)) {
						return m.boolT(false) // they differ in their asterisks, or one is empty
					}
				}
			}
			return t
		}
		if isIntTerm(a) && isIntTerm(b) {
			lo, hi, okLo, okHi := m.limits(toPoly(a, nil).add(toPoly(b, nil), -1))
			switch {
			case t.Aux == "<" && okHi && hi < 0:
				return m.boolT(true)
			case t.Aux == "<" && okLo && lo >= 0:
				return m.boolT(false)
			case t.Aux == "==" && okLo && okHi && lo == hi:
				return m.boolT(lo == 0)
			case t.Aux == "==" && (okLo && lo > 0 || okHi && hi < 0):
				return m.boolT(false)
			}
		}
	}
	return t
}

// call: the functions of package strings, on patterns and on names.
func (m *matchMon) call(s *State, k *Call) (*Term, bool) {
	e := m.e
	if k.Fn == nil || FnPkg(k.Fn) != "strings" || k.Instr.Value() == nil {
		return nil, false
	}
	n := k.Fn.Name()
	rt := k.Instr.Value().Type()
	arg := func(i int) *Term { return k.Args[i] }
	if n == "IndexByte" || n == "LastIndexByte" || n == "IndexRune" {
		if v, ok := arg(1).StripConv().Int(); ok {
			n = strings.TrimSuffix(strings.TrimSuffix(n, "Byte"), "Rune")
			k.Args[1] = e.str(string(rune(v)))
		}
	}
	if len(k.Args) < 2 {
		return nil, false
	}
	ps, okP := m.parts(arg(0))
	sub, isC := arg(1).Str()
	star := isC && sub == "*"
	from, to := polyConst(0), poly(nil)
	if w := arg(0); !okP && star && w.Op == "slice" { // a window that cuts a literal
		if ps, okP = m.parts(w.Args[0]); okP {
			if w.Args[1].Op != "none" {
				from = toPoly(w.Args[1], nil)
			}
			if w.Args[2].Op != "none" {
				to = toPoly(w.Args[2], nil)
			}
			switch n {
			case "Index", "LastIndex", "Contains", "Count":
			default:
				okP = false
			}
		}
	}
	if okP && star {
		first, last, cnt := -1, -1, 0
		at := polyConst(0)
		for i, p := range ps {
			if p == m.star {
				in := true
				if lo, hi, okLo, okHi := m.limits(at.add(from, -1)); okHi && hi < 0 {
					in = false
				} else if !(okLo && lo >= 0) {
					return nil, false
				}
				if to != nil {
					if lo, hi, okLo, okHi := m.limits(to.add(at, -1)); okHi && hi <= 0 {
						in = false
					} else if !(okLo && lo > 0) {
						return nil, false
					}
				}
				if in {
					if first < 0 {
						first = i
					}
					last = i
					cnt++
				}
			}
			at = at.add(m.size(p), 1)
		}
		off := func(i int) *Term {
			if i < 0 {
				return e.intT(-1)
			}
			sum := polyConst(0).add(from, -1)
			for _, p := range ps[:i] {
				sum = sum.add(m.size(p), 1)
			}
			return m.ofPoly(sum)
		}
		switch n {
		case "Index":
			return off(first), true
		case "LastIndex":
			return off(last), true
		case "Contains", "ContainsRune", "ContainsAny":
			return m.boolT(cnt > 0), true
		case "Count":
			return e.intT(int64(cnt)), true
		case "HasPrefix":
			return m.boolT(first == 0), true
		case "HasSuffix":
			return m.boolT(last >= 0 && last == len(ps)-1), true
		case "TrimPrefix":
			if first == 0 {
				ps = ps[1:]
			}
			return m.cat(ps), true
		case "TrimSuffix":
			if last >= 0 && last == len(ps)-1 {
				ps = ps[:last]
			}
			return m.cat(ps), true
		}
	}
	switch n {
	case "HasPrefix", "HasSuffix", "Contains", "Index", "LastIndex", "EqualFold", "ToLower", "ToUpper":
		if q, ok := m.parts(arg(1)); ok && len(q) == 0 && strings.HasPrefix(n, "Has") || isC && sub == "" && n == "Contains" {
			return m.boolT(true), true
		}
		args := append([]*Term(nil), k.Args...)
		return e.TT.mk("call", "strings."+n, rt, nil, args...), true
	}
	return nil, false
}

// section: the part of the name from lo up to hi (nil: its end) that a term is.
func (m *matchMon) section(t, name *Term) (lo, hi poly, ok bool) {
	if t == name {
		return polyConst(0), nil, true
	}
	if t.Op != "slice" {
		return nil, nil, false
	}
	lo, hi, ok = m.section(t.Args[0], name)
	if !ok {
		return
	}
	base := lo
	if t.Args[1].Op != "none" {
		lo = base.add(toPoly(t.Args[1], nil), 1)
	}
	if t.Args[2].Op != "none" {
		hi = base.add(toPoly(t.Args[2], nil), 1)
		if hi.eq(toPoly(m.lenT(name), nil)) {
			hi = nil
		}
	}
	return lo, hi, true
}

// asked: 1 or -1 when the path knows whether fn(name[lo:hi], part).
func (m *matchMon) asked(s *State, name *Term, fn string, lo, hi poly, part *Term) int {
	same := func(a, b poly) bool { return a == nil && b == nil || a != nil && b != nil && a.eq(b) }
	sec := func(t *Term) bool {
		l, h, ok := m.section(t, name)
		return ok && same(l, lo) && same(h, hi)
	}
	for id, f := range s.facts {
		t := m.e.TT.list[id]
		if f.truth != 0 && t.Op == "call" && t.Aux == "strings."+fn && t.Args[1] == part && sec(t.Args[0]) {
			return int(f.truth)
		}
	}
	if fn == "Contains" || fn == "HasPrefix" {
		for _, t := range m.e.TT.list {
			if t.Op != "call" || t.Aux != "strings.Index" && (t.Aux != "strings.LastIndex" || fn == "HasPrefix") || t.Args[1] != part || !sec(t.Args[0]) {
				continue
			}
			v := m.e.Ival(s, t)
			if fn == "HasPrefix" {
				if r := m.e.Eval(s, m.e.eqInt(t, 0)); r != 0 {
					if r > 0 {
						return 1
					}
					return -1
				}
				continue
			}
			if v.lo >= 0 || m.e.Eval(s, m.e.eqInt(t, -1)) == -1 {
				return 1
			}
			if v.hi < 0 || m.e.Eval(s, m.e.eqInt(t, -1)) == 1 {
				return -1
			}
		}
	}
	return 0
}

// verdict: 1 or -1 when what the path knows settles whether a pattern of this shape matches.
func (m *matchMon) verdict(s *State, shape string, name *Term) int {
	e := m.e
	L, M := m.lit("L"), m.lit("M")
	zero := polyConst(0)
	lenN, lenL, lenM := toPoly(m.lenT(name), nil), toPoly(m.lenT(L), nil), toPoly(m.lenT(M), nil)
	is := func(fn string, lo, hi poly, p *Term) func() int {
		return func() int { return m.asked(s, name, fn, lo, hi, p) }
	}
	eq := func() int { return e.Eval(s, e.eqT(name, L)) }
	full := func() int { return e.Eval(s, e.TT.Not(e.eqT(name, e.str("")))) }
	room := func() int { // the literals do not overlap
		r := 0
		for id, f := range s.facts {
			t := e.TT.list[id]
			if t.Op != "bin" || t.Aux != "<" || f.truth == 0 {
				continue
			}
			d := toPoly(t.Args[0], nil).add(toPoly(t.Args[1], nil), -1)
			w := lenN.add(lenL, -1).add(lenM, -1) // room - 1 >= -1
			if d.eq(w) {
				r = -int(f.truth)
			}
			if d.eq(polyConst(-1).add(w, -1)) {
				r = int(f.truth)
			}
		}
		return r
	}
	var idx, last []poly // where a first literal found anywhere ends; where a last one begins
	for _, t := range e.TT.list {
		if t.Op != "call" || len(t.Args) != 2 || t.Args[0] != name {
			continue
		}
		if t.Aux == "strings.Index" && t.Args[1] == L {
			idx = append(idx, toPoly(t, nil).add(lenL, 1))
		}
		if t.Aux == "strings.LastIndex" && t.Args[1] == M {
			last = append(last, toPoly(t, nil))
		}
	}
	preL, sufL, hasL := is("HasPrefix", zero, nil, L), is("HasSuffix", zero, nil, L), is("Contains", zero, nil, L)
	sufM, hasM := is("HasSuffix", zero, nil, M), is("Contains", zero, nil, M)
	type cond = func() int
	need := []cond{full}
	var any [][]cond
	switch shape {
	case "*", "**":
		any = [][]cond{{full}}
	case "":
		return -1
	case "L":
		need, any = append(need, eq, preL, sufL, hasL), [][]cond{{eq}}
	case "L*":
		need, any = append(need, preL, hasL), [][]cond{{preL}}
	case "*L":
		need, any = append(need, sufL, hasL), [][]cond{{sufL}}
	case "*L*":
		need, any = append(need, hasL), [][]cond{{hasL}}
	case "L*M":
		sa, pb := is("HasSuffix", lenL, nil, M), is("HasPrefix", zero, lenN.add(lenM, -1), L)
		need = append(need, preL, sufM, room, sa, pb, hasL, hasM)
		any = [][]cond{{preL, sufM, room}, {preL, sa}, {sufM, pb}}
	case "*L*M":
		hb := is("Contains", zero, lenN.add(lenM, -1), L)
		need = append(need, sufM, hasL, hasM, room, hb)
		any = [][]cond{{sufM, hb}}
		for _, p := range idx {
			sa := is("HasSuffix", p, nil, M)
			need, any = append(need, sa), append(any, []cond{hasL, sa})
		}
	case "L*M*":
		ha := is("Contains", lenL, nil, M)
		need = append(need, preL, hasL, hasM, room, ha)
		any = [][]cond{{preL, ha}}
		for _, p := range last {
			pb := is("HasPrefix", zero, p, L)
			need, any = append(need, pb), append(any, []cond{hasM, pb})
		}
	case "*L*M*":
		need = append(need, hasL, hasM, room)
		for _, p := range idx {
			ha := is("Contains", p, nil, M)
			need, any = append(need, ha), append(any, []cond{hasL, ha})
		}
		for _, p := range last {
			hb := is("Contains", zero, p, L)
			need, any = append(need, hb), append(any, []cond{hasM, hb})
		}
	}
	for _, n := range need {
		if n() < 0 {
			return -1
		}
	}
	for _, a := range any {
		ok := true
		for _, x := range a {
			ok = ok && x() > 0
		}
		if ok {
			return 1
		}
	}
	return 0
}

// strange: the path asked something of the name that is not understood.
func (m *matchMon) strange(s *State, name *Term) string {
	for id, f := range s.facts {
		t := m.e.TT.list[id]
		if f.truth == 0 || !t.Mentions(func(x *Term) bool { return x == name }) {
			continue
		}
		if t.Mentions(func(x *Term) bool {
			switch x.Op {
			case "phi", "loopcell", "index", "lookup", "next", "fresh":
				return true
			case "call":
				return !m.isLit(x) && x != m.star && !strings.HasPrefix(x.Aux, "strings.")
			case "load":
				return true
			}
			return false
		}) {
			return t.String()
		}
	}
	return ""
}

func (m *matchMon) pattern(sh matchShape, compile, include *ssa.Function) {
	c := m.c
	var parts []*Term
	for _, r := range sh.text {
		switch r {
		case '*':
			parts = append(parts, m.star)
		default:
			parts = append(parts, m.lit(string(r)))
		}
	}
	// first stage: the compiled pattern
	var made []map[string]*Term
	e := m.e
	st := compile.Signature.Results().At(0).Type()
	e.OnCall = m.call
	e.Rewrite = m.rewrite
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		f := map[string]*Term{}
		u := deref(st).Underlying().(*types.Struct)
		r := res[0].Strip()
		for i := 0; i < u.NumFields(); i++ {
			n, ft := u.Field(i).Name(), u.Field(i).Type()
			switch {
			case r.Op == "load":
				f[n] = e.Load(s, e.TT.mk("fieldaddr", n, types.NewPointer(ft), nil, r.Args[0]), ft)
			case types.Identical(r.Typ, deref(st)):
				f[n] = e.fieldOf(r, n, ft)
			default:
				f[n] = e.Load(s, e.TT.mk("fieldaddr", n, types.NewPointer(ft), nil, r), ft)
			}
			if f[n].Op == "zero" {
				f[n] = e.zero(ft)
			}
		}
		made = append(made, f)
	}
	m.fields = nil
	e.Run(compile, []*Term{m.cat(parts)}, nil, func() { made = nil })
	c.Use(e, FnName(compile))
	// second stage: the answer
	seen := map[string]bool{}
	for _, f := range made {
		key := ""
		for _, n := range sortedKeys(f) {
			key += n + "=" + f[n].String() + ";"
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		c.Ob("pattern", sh.text+" compiled as "+key)
		m.fields = f
		name := e.Params(include)[1]
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			if e.Dry {
				return
			}
			for _, yes := range []bool{true, false} {
				s2 := s.clone()
				if v := e.Eval(s, res[0]); v > 0 && !yes || v < 0 && yes || !e.Assume(s2, res[0], yes, "result") {
					continue
				}
				want := m.verdict(s2, sh.text, name)
				if want > 0 && yes || want < 0 && !yes {
					c.counts["paths_settled"]++
					continue
				}
				if want == 0 && m.strange(s2, name) != "" {
					c.counts["paths_not_understood"]++
					continue
				}
				what := "a name does not match"
				if yes {
					what = "a name matches"
				}
				why := "although the pattern says the opposite"
				if want == 0 {
					why = "although that does not follow from what was compared"
				}
				c.Bad("pattern", sh.name, c.W.At(in), "with the pattern made of "+sh.name+", "+what+" "+why, s2.Trace()...)
			}
		}
		e.Run(include, nil, nil, nil)
		c.Use(e, FnName(include))
	}
	m.fields = nil
	if len(made) == 0 {
		c.Bad("pattern", sh.name, c.W.FnAt(compile), "no path compiles the pattern made of "+sh.name)
	}
}

func init() {
	register("C33", "For each form of pattern (literals of unknown text and asterisks) every path through the compiler of patterns and then through the matcher is followed; what the path has asked of the name must settle the answer it gives, by the meaning of asterisks. The list of patterns is followed to see that every pattern between commas is compiled and tried, and that the answer is yes only for a pattern that matches.", func(c *Ctx) {
		compile := c.Need("common/util", "", "NewStrMatch")
		include := c.Need("common/util", "StrMatch", "include")
		if compile == nil || include == nil {
			return
		}
		include = c.W.declared(include)
		for _, sh := range matchShapes {
			m := &matchMon{c: c, e: NewEngine(c.W)}
			m.e.KeepFact = func(*Term) bool { return true }
			m.e.NoHavoc = func(*Call) bool { return true }
			m.star = m.e.TT.mk("call", "*", types.Typ[types.String], nil)
			m.pattern(sh, compile, include)
		}
		c.Floor("pattern", len(matchShapes))
		if fn := c.Need("common/util", "", "NewCommaSeparatedChainedStrMatcher"); fn != nil {
			matchList(c, fn, compile)
		}
		if fn := c.Need("common/util", "CommaSeparatedChainedStrMatcher", "IsMatch"); fn != nil {
			matchAny(c, c.W.declared(fn), include)
		}
	})
}

// constGlobal: the value of a package variable that is only ever set by its declaration.
func (w *World) constGlobal(name string) (constant.Value, types.Type) {
	i := strings.LastIndex(name, ".")
	if i < 0 || w.SSA[rootPkg+"/"+name[:i]] == nil {
		return nil, nil
	}
	sp := w.SSA[rootPkg+"/"+name[:i]]
	g, ok := sp.Members[name[i+1:]].(*ssa.Global)
	if !ok {
		return nil, nil
	}
	var val constant.Value
	init := sp.Func("init")
	for i, f := range append([]*ssa.Function{init}, w.Funcs...) {
		if i > 0 && f == init {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if o == nil || *o != ssa.Value(g) {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						continue
					}
					st, ok := in.(*ssa.Store)
					if !ok || f != init || val != nil {
						return nil, nil
					}
					k, ok := st.Val.(*ssa.Const)
					if !ok || k.Value == nil {
						return nil, nil
					}
					val = k.Value
				}
			}
		}
	}
	return val, deref(g.Type())
}

// matchList: every text between commas becomes a pattern of the list.
func matchList(c *Ctx, fn, compile *ssa.Function) {
	e := NewEngine(c.W)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	e.Opaque = func(f *ssa.Function) bool { return f == compile }
	name := FnName(fn)
	c.Ob("list", name)
	text := e.Params(fn)[0]
	split := e.TT.mk("call", "the texts between commas", types.NewSlice(types.Typ[types.String]), nil)
	bad := func(s *State, at, msg string) {
		if !e.Dry {
			c.Bad("list", name, at, msg, s.Trace()...)
		}
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		at := c.W.At(k.Instr)
		switch {
		case isExt(k.Fn, "strings", "Split") && k.Args[0] == text:
			if sep, ok := k.Args[1].Str(); !ok || sep != "," {
				bad(s, at, "the patterns are not separated at commas")
			}
			s.Set("split", "1")
			return split, true
		case k.Fn == compile:
			a := k.Args[0]
			if a.Mentions(func(x *Term) bool { return x == split }) && !(a.Op == "load" && a.Args[0].Op == "indexaddr" && a.Args[0].Args[0] == split) {
				bad(s, at, "what is compiled is not the text between two commas: "+a.String())
			}
			r := e.TT.mk("call", "compiled@"+k.Site, k.Instr.Value().Type(), nil, a)
			e.forget(s, r)
			s.Set("made", fmt.Sprint(r.ID))
			s.Set("kept", "")
			return r, true
		case k.Kind == "builtin" && k.Name == "append" && s.Get("box") != "":
			box := e.TT.list[atoi(s.Get("box"))]
			if k.Args[1].Mentions(func(x *Term) bool { return x == box }) {
				if b := k.Args[0]; s.Get("round") != "" && (b.Op == "nil" || b.Op == "make" || b.Op == "zero") {
					bad(s, at, "the patterns before are lost")
				}
				s.Set("kept", "1")
				s.Set("box", "")
			}
		}
		return nil, false
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if s.Get("made") == "" || fmt.Sprint(val.ID) != s.Get("made") || addr.Op != "indexaddr" {
			return
		}
		if addr.Args[0].Op == "alloc" {
			s.Set("box", fmt.Sprint(addr.Args[0].ID))
		} else {
			s.Set("kept", "1")
		}
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		kind, count, _ := e.LoopIf(s, in, cond, taken)
		if count == nil || count.Op != "len" || count.Args[0] != split {
			return
		}
		switch kind {
		case "iter":
			s.Set("in", "1")
		case "done":
			s.Set("in", "")
			s.Set("done", "1")
		}
	}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if back && s.Get("in") != "" {
			if s.Get("kept") == "" {
				bad(s, c.W.FnAt(fn), "a pattern between commas is left out")
			}
			s.Set("round", "1")
			for _, k := range []string{"in", "kept", "made", "box"} {
				s.Set(k, "")
			}
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if s.Get("split") != "" && s.Get("done") == "" {
			bad(s, c.W.At(in), "not all the texts between commas are compiled")
		}
	}
	e.Run(fn, nil, nil, nil)
	c.Use(e, name)
}

// matchAny: the answer is yes just when one of the patterns of the list matches.
func matchAny(c *Ctx, fn, include *ssa.Function) {
	e := NewEngine(c.W)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	e.Opaque = func(f *ssa.Function) bool { return f == include }
	name := FnName(fn)
	c.Ob("list", name)
	ps := e.Params(fn)
	bad := func(s *State, at, msg string) {
		if !e.Dry {
			c.Bad("list", name, at, msg, s.Trace()...)
		}
	}
	isList := func(t *Term) bool { // the patterns of the matcher
		sl, ok := t.Typ.Underlying().(*types.Slice)
		return ok && t.Op != "slice" && isNamedT(sl.Elem(), "common/util", "StrMatch") && t.Mentions(func(x *Term) bool { return x == ps[0] })
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if k.Fn != include {
			return nil, false
		}
		at := c.W.At(k.Instr)
		el := k.Args[0]
		if el.Op == "alloc" {
			el = e.Load(s, el, deref(el.Typ))
			if el.Op == "load" {
				el = el.Args[0]
			}
		}
		if el.Op == "load" && el.Args[0].Op == "indexaddr" {
			el = el.Args[0]
		}
		if k.Args[1] != ps[1] {
			bad(s, at, "what is compared is not the name: "+k.Args[1].String())
		}
		if el.Op != "indexaddr" || !isList(el.Args[0]) {
			s.Set("odd", "1")
		} else if _, fixed := el.Args[1].Int(); fixed && s.Get("in") != "" {
			bad(s, at, "the same pattern is tried in every round")
		}
		r := e.TT.mk("call", "included@"+k.Site, types.Typ[types.Bool], nil, k.Args[1])
		e.forget(s, r)
		s.Set("asked", fmt.Sprint(r.ID))
		return r, true
	}
	hit := func(s *State) int {
		if s.Get("hit") != "" {
			return 1
		}
		if id := s.Get("asked"); id != "" {
			return e.Eval(s, e.TT.list[atoi(id)])
		}
		return -1
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		kind, count, _ := e.LoopIf(s, in, cond, taken)
		if count == nil || count.Op != "len" || !isList(count.Args[0]) {
			return
		}
		switch kind {
		case "iter":
			s.Set("in", "1")
			s.Set("asked", "")
		case "done":
			s.Set("in", "")
			s.Set("asked", "")
			s.Set("done", "1")
		}
	}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if back && s.Get("in") != "" {
			if s.Get("asked") == "" {
				bad(s, c.W.FnAt(fn), "a pattern is not tried")
			} else if hit(s) >= 0 {
				s.Set("hit", "1")
			}
			s.Set("in", "")
			s.Set("asked", "")
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry || s.Get("odd") != "" {
			return
		}
		r := res[0]
		if r.Mentions(func(x *Term) bool { return x.Op == "phi" || x.Op == "call" && !strings.HasPrefix(x.Aux, "included@") }) {
			c.counts["paths_not_understood"]++
			return
		}
		for _, yes := range []bool{true, false} {
			s2 := s.clone()
			if v := e.Eval(s, r); v > 0 && !yes || v < 0 && yes || !e.Assume(s2, r, yes, "result") {
				continue
			}
			switch h := hit(s2); {
			case yes && h <= 0:
				bad(s2, c.W.At(in), "a name matches although no pattern of the list does")
			case !yes && h > 0:
				bad(s2, c.W.At(in), "a name does not match although a pattern of the list does")
			case !yes && s2.Get("done") == "":
				bad(s2, c.W.At(in), "a name does not match although not all patterns were tried")
			default:
				c.counts["paths_settled"]++
			}
		}
	}
	e.Run(fn, ps, nil, nil)
	c.Use(e, name)
}

// declared: the method as it is written, for a wrapper made by the compiler.
func (w *World) declared(fn *ssa.Function) *ssa.Function {
	for _, f := range w.Funcs {
		if f.Synthetic == "" && f.Signature.Recv() != nil && f.Object() != nil && f.Object() == fn.Object() {
			return f
		}
	}
	return fn
}
