package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// partition checks that the chunks a function produces of one of its inputs cover it exactly once, in order.
type partition struct {
	c          *Ctx
	e          *Engine
	rule, name string
	data       *Term
	numbered   bool // chunks carry consecutive numbers from 0
	tpl        map[string]*chunkTpl
	learn      bool
	max        *Term           // limit of a part's size
	loops      map[string]bool // headers whose iterations produce chunks
	ob         func(s *State, size poly, c *chunk)
}

type chunk struct {
	lo, hi *Term // nil lo: 0, nil hi: end
	add    *Term // unused
	num    *Term
	pos    poly
	end    poly
	whole  bool
}

type chunkTpl struct {
	ch    chunk
	steps map[*Term]poly // const step per phi
	inits map[*Term]poly
}

func (p *partition) bad(s *State, at, msg string) { p.c.Bad(p.rule, p.name, at, msg, s.Trace()...) }

func (p *partition) lenPoly() poly {
	return toPoly(p.e.TT.mk("len", "", types.Typ[types.Int], nil, p.data), nil)
}

// bounds decodes a term as data[lo:hi].
func (p *partition) bounds(t *Term) (lo, hi poly, ok bool) {
	t = t.StripConv()
	if t == p.data {
		return poly{}, p.lenPoly(), true
	}
	switch t.Op {
	case "slice":
		l, h, ok := p.bounds(t.Args[0])
		if !ok {
			return nil, nil, false
		}
		nl, nh := l, h
		if t.Args[1].Op != "none" {
			nl = l.add(toPoly(t.Args[1], nil), 1)
		}
		if t.Args[2].Op != "none" {
			nh = l.add(toPoly(t.Args[2], nil), 1)
		}
		return nl, nh, true
	case "append":
		if len(t.Args) == 2 && (t.Args[0].IsNil() || t.Args[0].Op == "make" && func() bool { v, ok := t.Args[0].Args[0].Int(); return ok && v == 0 }()) {
			return p.bounds(t.Args[1])
		}
	}
	return nil, nil, false
}

// knownLE0: the facts imply q <= 0.
func knownLE0(e *Engine, s *State, q poly) bool {
	if c, ok := q[""]; len(q) == 0 || ok && len(q) == 1 && c <= 0 {
		return true
	}
	ids := make([]int, 0, len(s.facts))
	for id := range s.facts {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	// d = q - p is a constant: q <= 0 iff p <= -d
	le := func(p poly, bound int64) bool { // p <= bound known
		d := q.add(p, -1)
		if len(d) == 0 {
			return bound <= 0
		}
		if c, ok := d[""]; ok && len(d) == 1 {
			return bound+c <= 0
		}
		return false
	}
	if e.TermIval != nil && len(q) <= 2 {
		for m, c := range q {
			if strings.HasPrefix(m, "t") && !strings.Contains(m, "*") {
				t := e.TT.list[atoi(m[1:])]
				if iv := e.TermIval(t); iv != nil && (c == 1 && iv.hi < 1<<62 && le(toPoly(t, nil), iv.hi) || c == -1 && le(poly{}.add(toPoly(t, nil), -1), -iv.lo)) {
					return true
				}
			}
		}
	}
	for _, id := range ids {
		t, f := e.TT.list[id], s.facts[id]
		if isIntTerm(t) {
			if iv := e.Ival(s, t); iv != nil {
				p := toPoly(t, nil)
				if iv.hi < 1<<62 && le(p, iv.hi) {
					return true
				}
				if iv.lo > -(1<<62) && le(poly{}.add(p, -1), -iv.lo) {
					return true
				}
			}
		}
		if t.Op == "bin" && t.Aux == "/" {
			if iv := e.Ival(s, t); iv != nil && iv.hi >= 0 && iv.hi < 1<<20 {
				// x/y <= k with x >= 0, y >= 1: x - (k+1)y <= -1
				if le(toPoly(t.Args[0], nil).add(toPoly(t.Args[1], nil), -(iv.hi+1)), -1) {
					return true
				}
			}
		}
		if t.Op == "bin" && f.truth != 0 && isIntTerm(t.Args[0]) {
			d := toPoly(t.Args[0], nil).add(toPoly(t.Args[1], nil), -1)
			switch {
			case t.Aux == "<" && f.truth > 0: // a-b <= -1
				if le(d, -1) {
					return true
				}
			case t.Aux == "<" && f.truth < 0: // b-a <= 0
				if le(poly{}.add(d, -1), 0) {
					return true
				}
			case t.Aux == "==" && f.truth > 0:
				if le(d, 0) || le(poly{}.add(d, -1), 0) {
					return true
				}
			}
		}
	}
	return false
}

func (p *partition) knownGT0(s *State, q poly) bool {
	return knownLE0(p.e, s, polyConst(1).add(q, -1))
}

// hook wires the loop bookkeeping into the engine (call after OnBranch/OnReturn of the user are set).
func (p *partition) hook() {
	e := p.e
	ub := e.OnBranch
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if !back {
			s.Set("L", hdr)
			for t, in := range phis {
				s.Set("i:"+fmt.Sprint(t.ID), fmt.Sprint(in.ID))
			}
			return
		}
		p.backEdge(s, hdr, phis)
		s.Set("fr", "")
		s.Set("L", hdr)
	}
	e.OnBranch = func(s *State, x *ssaIf, cond *Term, taken bool) {
		if ub != nil {
			ub(s, x, cond, taken)
		}
		if e.Dry || s.Get("!prune") != "" {
			return
		}
		if p.infeasible(s, cond, taken) {
			s.Set("!prune", "1")
			return
		}
		kind, count, _ := e.LoopIf(s, x, cond, taken)
		if kind == "done" || kind == "break" {
			l := s.Get("L")
			if l == "" || !strings.HasSuffix(l, fmt.Sprintf("%s:%d", FnName(x.Parent()), x.Block().Index)) && !p.inLoop(l, x) {
				return
			}
			if kind == "break" && s.Get("fr") == "" {
				// leaving in the middle of an iteration that produced nothing
			}
			s.Set("X", l)
			if count != nil {
				s.Set("XC", fmt.Sprint(count.ID))
			}
			s.Set("L", "")
		}
	}
}

// infeasible: a test of a length against zero contradicts what follows from the other facts.
func (p *partition) infeasible(s *State, cond *Term, taken bool) bool {
	if cond.Op == "not" {
		cond, taken = cond.Args[0], !taken
	}
	if cond.Op != "bin" || cond.Args[0].Op != "len" || cond.Aux != "==" {
		return false
	}
	if v, ok := cond.Args[1].Int(); !ok || v != 0 {
		return false
	}
	n := s.clone()
	delete(n.facts, cond.ID)
	delete(n.facts, cond.Args[0].ID)
	q := toPoly(cond.Args[0], nil)
	if taken {
		return p.knownGT0(n, q)
	}
	return knownLE0(p.e, n, q)
}

func (p *partition) inLoop(l string, x *ssaIf) bool {
	return strings.Contains(l, FnName(x.Parent())+":")
}

func (p *partition) sub(ts map[*Term]*Term) subst {
	r := subst{}
	for t, in := range ts {
		r[t] = toPoly(in, nil)
	}
	return r
}

func (p *partition) initSub(s *State) subst {
	r := subst{}
	for k, v := range s.Vars {
		if strings.HasPrefix(k, "i:") {
			r[p.e.TT.list[atoi(k[2:])]] = toPoly(p.e.TT.list[atoi(v)], nil)
		}
	}
	return r
}

// chunkAt records one chunk.
func (p *partition) chunkAt(s *State, at string, t, num *Term) {
	lo, hi, ok := p.bounds(t)
	if !ok {
		p.bad(s, at, "sends "+t.String()+", which is not a part of the input")
		s.Set("done", "1")
		return
	}
	if num != nil {
		num = num.StripConv()
	}
	whole := lo.zero() && hi.eq(p.lenPoly())
	if p.max != nil && !p.learn {
		mx, sz := toPoly(p.max, nil), hi.add(lo, -1)
		rem := p.e.TT.mk("bin", "%", types.Typ[types.Int], nil, p.e.TT.mk("len", "", types.Typ[types.Int], nil, p.data), p.max)
		if !sz.eq(toPoly(rem, nil)) && !knownLE0(p.e, s, sz.add(mx, -1)) {
			p.bad(s, at, "a part may be larger than the configured maximum")
		}
	}
	if s.Get("L") != "" {
		if s.Get("fr") != "" && !p.learn {
			p.bad(s, at, "two parts are sent in one iteration")
		}
		s.Set("fr", "1")
		s.Set("ft", fmt.Sprint(t.ID))
		if num != nil {
			s.Set("fn", fmt.Sprint(num.ID))
		}
		return
	}
	if s.Get("done") != "" {
		p.bad(s, at, "something is sent after the last part")
		return
	}
	x := s.Get("X")
	tpl := p.tpl[x]
	if x == "" || tpl == nil {
		if p.learn {
			s.Set("done", "1")
			return
		}
		if !whole {
			p.bad(s, at, fmt.Sprintf("the part sent is not the whole input (%s..%s)", lo, hi))
		}
		if num != nil && !toPoly(num, nil).zero() {
			p.bad(s, at, "a single part is not number 0")
		}
		s.Set("done", "1")
		return
	}
	if p.learn {
		s.Set("done", "1")
		return
	}
	sub := p.exitSub(s, tpl)
	if !p.lo(tpl, sub).eq(lo) {
		p.bad(s, at, "the last part does not start where the previous one ended")
	}
	if !hi.eq(p.lenPoly()) {
		p.bad(s, at, "the last part does not end at the end of the input")
	}
	if tpl.ch.num != nil && num != nil && !toPoly(tpl.ch.num, sub).eq(toPoly(num, nil)) && !toPoly(tpl.ch.num, sub).eq(toPoly(num, sub)) {
		p.bad(s, at, "the last part does not carry the next number")
	}
	if p.numbered && !p.knownGT0(s, hi.add(lo, -1)) {
		p.bad(s, at, "an empty part may be sent")
	}
	s.Set("done", "1")
}

func (p *partition) lo(tpl *chunkTpl, sub subst) poly {
	return p.boundSub(tpl.ch.lo, sub)
}

func (p *partition) boundSub(t *Term, sub subst) poly {
	t = t.StripConv()
	if t == p.data {
		return poly{}
	}
	switch t.Op {
	case "slice":
		l := p.boundSub(t.Args[0], sub)
		if t.Args[1].Op != "none" {
			l = l.add(toPoly(t.Args[1], sub), 1)
		}
		return l
	case "append":
		return p.boundSub(t.Args[1], sub)
	}
	return poly{"?": 1}
}

func (p *partition) exitSub(s *State, tpl *chunkTpl) subst {
	sub := subst{}
	cs := s.Get("XC")
	if cs == "" {
		return sub
	}
	cnt := toPoly(p.e.TT.list[atoi(cs)], nil)
	for ph, st := range tpl.steps {
		if in, ok := tpl.inits[ph]; ok {
			sub[ph] = in.add(st.mul(cnt), 1)
		}
	}
	return sub
}

func (p *partition) backEdge(s *State, hdr string, phis map[*Term]*Term) {
	if s.Get("L") != hdr {
		return
	}
	if s.Get("fr") == "" {
		if !p.learn && p.loops[hdr] {
			p.bad(s, p.c.W.At(s.top().blk.Instrs[len(s.top().blk.Instrs)-1]), "an iteration sends no part")
		}
		return
	}
	p.loops[hdr] = true
	t := p.e.TT.list[atoi(s.Get("ft"))]
	var num *Term
	if s.Get("fn") != "" {
		num = p.e.TT.list[atoi(s.Get("fn"))]
	}
	lo, hi, _ := p.bounds(t)
	next, init := p.sub(phis), p.initSub(s)
	if p.learn {
		tpl := &chunkTpl{ch: chunk{lo: t, num: num, pos: lo, end: hi}, steps: map[*Term]poly{}, inits: map[*Term]poly{}}
		for ph, in := range next {
			d := in.add(toPoly(ph, nil), -1)
			tpl.steps[ph] = d
			if iv, ok := init[ph]; ok {
				tpl.inits[ph] = iv
			}
		}
		p.tpl[hdr] = tpl
		return
	}
	at := p.c.W.At(s.top().blk.Instrs[len(s.top().blk.Instrs)-1])
	if !p.boundSub(t, init).zero() {
		p.bad(s, at, "the first part does not start at the beginning of the input")
	}
	nlo := p.boundSub(t, next)
	if !nlo.eq(hi) && !(hi.eq(p.lenPoly()) && knownLE0(p.e, s, p.lenPoly().add(nlo, -1))) {
		p.bad(s, at, "the next part does not start where this one ended")
	}
	if num != nil {
		if !toPoly(num, init).zero() {
			p.bad(s, at, "the first part is not number 0")
		}
		if !toPoly(num, next).eq(toPoly(num, nil).add(polyConst(1), 1)) {
			p.bad(s, at, "the parts are not numbered consecutively")
		}
	} else if p.numbered {
		p.bad(s, at, "the parts are not numbered")
	}
}

// atReturn: everything was covered.
func (p *partition) atReturn(s *State, at string, mayNone func() bool) {
	if p.learn {
		return
	}
	if s.Get("done") != "" {
		return
	}
	if x := s.Get("X"); x != "" && p.tpl[x] != nil {
		tpl := p.tpl[x]
		sub := p.exitSub(s, tpl)
		if s.Get("fr") != "" {
			// left in the middle of an iteration after its part: that part must be the last
			t := p.e.TT.list[atoi(s.Get("ft"))]
			if _, hi, ok := p.bounds(t); ok && hi.eq(p.lenPoly()) {
				return
			}
			p.bad(s, at, "the loop is left before the end of the input")
			return
		}
		rest := p.lenPoly().add(p.lo(tpl, sub), -1)
		if !knownLE0(p.e, s, rest) {
			p.bad(s, at, "the bytes after the last full part are not sent")
		}
		return
	}
	if mayNone != nil && mayNone() || knownLE0(p.e, s, p.lenPoly()) {
		return
	}
	p.bad(s, at, "the input is not sent at all")
}

func newPartition(c *Ctx, e *Engine, rule, name string, data *Term) *partition {
	return &partition{c: c, e: e, rule: rule, name: name, data: data, tpl: map[string]*chunkTpl{}, loops: map[string]bool{}}
}
