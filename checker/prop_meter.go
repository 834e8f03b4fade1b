package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ctrsPkg = "counter"

// meterRoles: which field of the sliding window has which task, read off its constructor.
type meterRoles struct {
	time, pos, size, table, clear string
	n                             int64 // number of buckets
	fields                        map[string]bool
}

// discoverMeter decides the constructor of the window and learns what its fields are for.
func discoverMeter(c *Ctx) *meterRoles {
	fn := c.Need(ctrsPkg, "", "NewMetering")
	if fn == nil {
		return nil
	}
	w := c.W
	r := &meterRoles{fields: map[string]bool{}}
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	ps := e.Params(fn)
	learn := true
	bad := func(s *State, at, msg string) {
		if !e.Dry && !learn {
			c.Bad("new-window", FnName(fn), at, msg, s.Trace()...)
		}
	}
	c.Ob("new-window", FnName(fn))
	var create, clear *Term
	for i, p := range ps {
		sg, ok := p.Typ.Underlying().(*types.Signature)
		if !ok {
			continue
		}
		if sg.Params().Len() == 0 && sg.Results().Len() == 1 {
			create = ps[i]
		} else if sg.Params().Len() == 1 && sg.Results().Len() == 0 {
			clear = ps[i]
		}
	}
	if create == nil || clear == nil {
		c.Bad("new-window", FnName(fn), w.FnAt(fn), "the constructor does not take a creating and a clearing function")
		return nil
	}
	isNow := func(t *Term) bool { t = t.StripConv(); return t.Op == "call" && strings.HasPrefix(t.Aux, "unixnow@") }
	e.TermIval = nowIval
	filled := map[string]bool{}
	mark := ""
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if r, ok := unixNow(e, k); ok {
			return r, true
		}
		if k.Recv == create && k.Fn == nil {
			r := e.TT.mk("call", "bucket@"+k.Site, k.Instr.Value().Type(), nil)
			e.forget(s, r)
			return r, true
		}
		return nil, false
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if e.Dry || addr.Op != "indexaddr" {
			return
		}
		tab := addr.Args[0]
		if !strings.HasPrefix(val.Aux, "bucket@") {
			bad(s, w.At(in), "a bucket is not one newly made: "+val.String())
			return
		}
		i := addr.Args[1].StripConv()
		s.Set("fill", fmt.Sprintf("%d %d", tab.ID, i.ID))
	}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if back {
			if s.Get("fill") == "" && mark != "" {
				bad(s, w.FnAt(fn), "a bucket is left out")
			}
			if s.Get("fill") != "" {
				mark = s.Get("fill")
			}
			s.Set("fill", "")
		}
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		if kind, count, iter := e.LoopIf(s, in, cond, taken); kind == "done" && count != nil {
			id := 0
			if iter != nil {
				id = iter.ID
			}
			s.Set("count:"+fmt.Sprint(id), fmt.Sprint(count.ID))
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		at := w.At(in)
		obj := unboxS(res[0])
		st, ok := deref(obj.Typ).Underlying().(*types.Struct)
		if !ok {
			bad(s, at, "the window is no structure")
			return
		}
		vals := map[string]*Term{}
		var now, tab *Term
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			r.fields[n] = true
			v := e.fieldAt(s, obj, n)
			vals[n] = v
			if isNow(v) {
				r.time, now = n, v
			}
			if v == clear {
				r.clear = n
			}
			if _, ok := v.Typ.Underlying().(*types.Slice); ok && v.Op == "make" {
				r.table, tab = n, v
				if k, ok := v.Args[0].Int(); ok {
					r.n = k
				}
			} else if ok && v.Op == "slice" && v.Args[0].Op == "alloc" && v.Args[1].Op == "none" {
				if a, ok := deref(v.Args[0].Typ).Underlying().(*types.Array); ok {
					if k, isC := v.Args[2].Int(); v.Args[2].Op == "none" || isC && k == a.Len() {
						r.table, tab, r.n = n, v, a.Len()
					}
				}
			}
		}
		if now == nil || tab == nil || r.clear == "" || r.n < 2 {
			bad(s, at, "the window is not made with the current second, a table of buckets and the clearing function")
			return
		}
		for n, v := range vals {
			if n == r.time || n == r.table || n == r.clear {
				continue
			}
			if k, ok := v.Int(); ok && k == r.n {
				r.size = n
				continue
			}
			p := v.StripConv()
			if p.Op == "bin" && p.Aux == "%" && p.Args[0].StripConv() == now.StripConv() {
				if k, ok := p.Args[1].Int(); ok && k == r.n {
					r.pos = n
				}
			}
			if b, ok := v.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && r.pos != n {
				bad(s, at, "field "+n+" of a new window is neither the second, the position of that second nor the number of buckets")
			}
		}
		filled[fmt.Sprint(tab.ID)] = true
		var tid, iid int
		fmt.Sscan(mark, &tid, &iid)
		if tid != tab.ID && (tab.Op != "slice" || tid != tab.Args[0].ID) {
			bad(s, at, "the table is not filled with buckets")
			return
		}
		iter := e.TT.list[iid]
		cnt := s.Get("count:" + fmt.Sprint(iter.ID))
		if iter.Op == "bin" && len(iter.Args) == 2 { // rangeindex loops: index = phi+1
			cnt = s.Get("count:" + fmt.Sprint(iter.Args[0].StripConv().ID))
		}
		full := false
		if cnt != "" {
			x := e.TT.list[atoi(cnt)]
			if k, ok := x.Int(); ok && k == r.n || x == tab || x.Op == "len" && x.Args[0] == tab {
				full = true
			}
		}
		if !full {
			bad(s, at, "not every bucket of the table is made")
		}
	}
	e.Run(fn, ps, nil, func() { mark = "" })
	learn = false
	e.Run(fn, ps, nil, nil)
	c.Use(e, FnName(fn))
	if r.n == 0 || r.time == "" || r.table == "" || r.clear == "" {
		c.Bad("new-window", FnName(fn), w.FnAt(fn), "the constructor is not understood")
		return nil
	}
	return r
}

// unixNow models reading the clock in seconds.
func unixNow(e *Engine, k *Call) (*Term, bool) {
	if isExtMethod(k.Fn, "time", "Time", "Unix") && len(k.Args) > 0 && strings.HasPrefix(k.Args[0].Aux, "time.Now@") {
		return e.TT.mk("call", "unixnow@"+k.Site, k.Instr.Value().Type(), nil), true
	}
	return nil, false
}

func nowIval(t *Term) *ival {
	if t.Op == "call" && strings.HasPrefix(t.Aux, "unixnow@") {
		return &ival{lo: 1, hi: 1 << 40}
	}
	return nil
}

// windowMon follows one method of the window: positions are compared modulo the number of buckets,
// with the position of the stored second standing for that second.
type windowMon struct {
	c     *Ctx
	e     *Engine
	r     *meterRoles
	fn    *ssa.Function
	learn bool
	steps map[string]poly // "x:ID" exact, "r:ID" modulo -> what an iteration adds; absent: not linear
	odd   map[string]bool
	pos   map[int]bool // loop values that stay positions of the table
	up    map[int]bool // loop values that start at zero or more
	has   map[string]bool
	none  map[string]string
	T     *Term
	recv  *Term
}

func (m *windowMon) bad(s *State, at, msg string) {
	if !m.e.Dry && !m.learn {
		m.c.Bad("window", FnName(m.fn), at, msg, s.Trace()...)
	}
}

func (m *windowMon) reduce(p poly) poly {
	r := poly{}
	for k, v := range p {
		if k == "" {
			v = ((v % m.r.n) + m.r.n) % m.r.n
		}
		if v != 0 {
			r[k] = v
		}
	}
	return r
}

// exact reads an integer term as a polynomial.
func (m *windowMon) exact(t *Term) poly {
	sub := subst{}
	t.Mentions(func(x *Term) bool {
		if x.Op == "len" && x.Args[0].Op == "param" && x.Args[0].Aux == "table" {
			sub[x] = polyConst(m.r.n)
		}
		return false
	})
	return toPoly(t, sub)
}

// mod reads a term modulo the number of buckets.
func (m *windowMon) mod(s *State, t *Term) poly {
	if t.Op == "param" && t.Aux == "pos0" {
		return poly{fmt.Sprintf("t%d", m.T.ID): 1}
	}
	if v, ok := t.Int(); ok {
		// a constant under what the path knows about a position
		for _, p := range m.positions(s) {
			if k, ok := m.value(s, p); ok {
				return m.reduce(m.mod(s, p).add(polyConst(v-k), 1))
			}
		}
		return m.reduce(polyConst(v))
	}
	return m.reduce(m.mod0(t))
}

func (m *windowMon) mod0(t *Term) poly {
	if t.Op == "param" && t.Aux == "pos0" {
		return poly{fmt.Sprintf("t%d", m.T.ID): 1}
	}
	switch t.Op {
	case "conv":
		if isIntTerm(t.Args[0]) {
			return m.mod0(t.Args[0])
		}
	case "bin":
		switch t.Aux {
		case "+":
			return m.mod0(t.Args[0]).add(m.mod0(t.Args[1]), 1)
		case "-":
			return m.mod0(t.Args[0]).add(m.mod0(t.Args[1]), -1)
		case "%":
			if k, ok := t.Args[1].Int(); ok && k == m.r.n {
				return m.mod0(t.Args[0])
			}
		}
	}
	return m.reduce(m.exact(t))
}

// positions: the values in use that are positions of the table.
func (m *windowMon) positions(s *State) []*Term {
	var r []*Term
	seen := map[int]bool{}
	add := func(x *Term) {
		if !seen[x.ID] && (m.pos[x.ID] || x.Op == "param" && x.Aux == "pos0") {
			seen[x.ID] = true
			r = append(r, x)
		}
	}
	ids := make([]int, 0, len(s.facts))
	for id := range s.facts {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		m.e.TT.list[id].Mentions(func(x *Term) bool { add(x); return false })
	}
	return r
}

// value: the one value the path allows for a position.
func (m *windowMon) value(s *State, p *Term) (int64, bool) {
	iv := m.e.Ival(s, p)
	if iv == nil {
		return 0, false
	}
	lo, hi := iv.lo, iv.hi
	for id, f := range s.facts {
		if f.iv == nil {
			continue
		}
		t := m.e.TT.list[id].StripConv()
		if t.Op != "bin" || t.Aux != "+" && t.Aux != "-" || t.Args[0].StripConv() != p {
			continue
		}
		k, ok := t.Args[1].Int()
		if !ok {
			continue
		}
		if t.Aux == "-" {
			k = -k
		}
		if f.iv.lo > -1<<40 && f.iv.lo-k > lo {
			lo = f.iv.lo - k
		}
		if f.iv.hi < 1<<40 && f.iv.hi-k < hi {
			hi = f.iv.hi - k
		}
	}
	return lo, lo == hi
}

func (m *windowMon) inTable(s *State, t *Term) bool {
	iv := m.e.Ival(s, t)
	return iv != nil && iv.lo >= 0 && iv.hi < m.r.n
}

func (m *windowMon) ps(k string, s *State) (poly, bool) {
	v, ok := s.Vars[k]
	return parsePoly(strings.TrimPrefix(v, "=")), ok
}

// at0 replaces loop values by what they were on entry; step is what one iteration adds.
func (m *windowMon) at0(s *State, p poly, kind string) (init, step poly, ok bool) {
	init, step = poly{}, poly{}
	for k, v := range p {
		if strings.Contains(k, "*") || strings.Contains(k, "q(") {
			return nil, nil, false
		}
		if !strings.HasPrefix(k, "t") {
			init = init.add(poly{k: v}, 1)
			continue
		}
		if i, isLoop := m.ps(kind+k[1:], s); isLoop {
			st, lin := m.steps[kind+k[1:]]
			if !lin || m.odd[kind+k[1:]] {
				return nil, nil, false
			}
			init = init.add(i, v)
			step = step.add(st, v)
			continue
		}
		init = init.add(poly{k: v}, 1)
	}
	return init, step, true
}

// touch: a bucket is cleared or handed out inside a loop.
func (m *windowMon) touch(s *State, at, what string, bucket *Term) {
	if m.e.Dry {
		return
	}
	x := bucket
	for x.Op == "iface" || x.Op == "assert" {
		x = x.Args[0]
	}
	var idx *Term
	if x.Op == "load" && x.Args[0].Op == "indexaddr" && x.Args[0].Args[0].Op == "param" && x.Args[0].Args[0].Aux == "table" {
		idx = x.Args[0].Args[1]
	}
	if idx == nil {
		m.bad(s, at, "what is "+what+" is no bucket of the table: "+bucket.String())
		return
	}
	hdr := s.Get("hdr")
	if hdr == "" {
		m.bad(s, at, "a bucket is "+what+" outside a loop over the seconds")
		return
	}
	m.has[what+"|"+hdr] = true
	if s.Get("ev") != "" {
		m.bad(s, at, "more than one bucket is "+what+" for one second")
		return
	}
	p := m.mod(s, idx)
	s.Set("ev", what+" "+p.String())
	if m.learn {
		return
	}
	init, step, ok := m.at0(s, p, "r:")
	if !ok {
		m.bad(s, at, "which bucket is "+what+" is not understood: "+idx.String())
		return
	}
	init, step = m.reduce(init), m.reduce(step)
	one := polyConst(1)
	T := poly{fmt.Sprintf("t%d", m.T.ID): 1}
	switch what {
	case "cleared":
		if init.eq(m.reduce(T.add(one, 1))) && step.eq(one) {
			s.Set("kind", "skipped")
		} else if xi, xs, ok := m.at0(s, m.exact(idx), "x:"); ok && xi.zero() && xs.eq(one) {
			s.Set("kind", "all")
		} else {
			m.bad(s, at, "the buckets cleared are not those of the seconds that passed, one after the other")
			return
		}
	default:
		base := m.mod(s, m.e.fieldAt(s, m.recv, m.r.time))
		s.Set("base", base.String())
		if !init.eq(base) {
			m.bad(s, at, "the first bucket handed out is not that of the current second")
			return
		}
		if !step.eq(m.reduce(polyConst(-1))) {
			m.bad(s, at, "the buckets handed out are not those of one second earlier each")
			return
		}
	}
	if s.Get("kind") != "all" && !m.inTable(s, idx) {
		m.bad(s, at, "the position of a bucket can lie outside the table: "+idx.String())
	}
}

func (m *windowMon) run(handler *Term) {
	e, w := m.e, m.c.W
	m.steps, m.odd, m.pos, m.has, m.none = map[string]poly{}, map[string]bool{}, map[int]bool{}, map[string]bool{}, map[string]string{}
	m.up = map[int]bool{}
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	ps := e.Params(m.fn)
	m.recv = ps[0]
	st := deref(m.recv.Typ).Underlying().(*types.Struct)
	e.InitStore = map[int]cell{}
	for i := 0; i < st.NumFields(); i++ {
		n, t := st.Field(i).Name(), st.Field(i).Type()
		var v *Term
		switch n {
		case m.r.time:
			v = e.TT.mk("param", "time0", t, nil)
			m.T = v
		case m.r.pos:
			v = e.TT.mk("param", "pos0", t, nil)
		case m.r.size:
			v = e.TT.Const(constant.MakeInt64(m.r.n), t)
		case m.r.table:
			v = e.TT.mk("param", "table", t, nil)
		case m.r.clear:
			v = e.TT.mk("param", "clear", t, nil)
		default:
			continue
		}
		a := e.TT.mk("fieldaddr", n, types.NewPointer(t), nil, m.recv)
		e.InitStore[a.ID] = cell{a, v}
	}
	e.TermIval = func(t *Term) *ival {
		switch {
		case t.Op == "param" && t.Aux == "pos0", m.pos[t.ID]:
			return &ival{lo: 0, hi: m.r.n - 1}
		case t.Op == "param" && t.Aux == "time0":
			return &ival{lo: 0, hi: 1 << 40}
		case t.Op == "len" && t.Args[0].Op == "param" && t.Args[0].Aux == "table":
			return &ival{lo: m.r.n, hi: m.r.n}
		case m.up[t.ID] && !m.odd[fmt.Sprintf("x:%d", t.ID)] && m.steps[fmt.Sprintf("x:%d", t.ID)][""] > 0:
			return &ival{lo: 0, hi: 1 << 41}
		}
		return nowIval(t)
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if r, ok := unixNow(e, k); ok {
			s.Set("now", fmt.Sprint(r.ID))
			return r, true
		}
		if k.Fn == nil && k.Recv != nil && k.Method == nil {
			at := w.At(k.Instr)
			switch {
			case k.Recv.Op == "param" && k.Recv.Aux == "clear":
				m.touch(s, at, "cleared", k.Args[0])
				return nil, true
			case handler != nil && k.Recv == handler:
				m.touch(s, at, "handed out", k.Args[0])
				return nil, true
			}
		}
		return nil, false
	}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if back && s.Get("hdr") == hdr {
			ev := s.Get("ev")
			if ev == "" {
				m.none[hdr] = m.c.W.FnAt(m.fn)
			}
			for ph, v := range phis {
				if !isIntTerm(ph) {
					continue
				}
				if m.pos[ph.ID] && !m.inTable(s, v) {
					if m.learn {
						delete(m.pos, ph.ID)
						m.odd[fmt.Sprintf("p:%d", ph.ID)] = true
					} else {
						m.bad(s, m.c.W.FnAt(m.fn), "a position can leave the table: "+v.String())
					}
				}
				for _, kind := range []string{"x:", "r:"} {
					var d poly
					if kind == "x:" {
						d = m.exact(v).add(m.exact(ph), -1)
					} else {
						d = m.reduce(m.mod(s, v).add(m.mod0(ph), -1))
					}
					k := kind + fmt.Sprint(ph.ID)
					if old, ok := m.steps[k]; ok && !old.eq(d) {
						m.odd[k] = true
					}
					for t := range d {
						if t != "" {
							m.odd[k] = true
						}
					}
					if m.learn {
						m.steps[k] = d
					} else if old := m.steps[k]; !old.eq(d) && !m.odd[k] {
						m.bad(s, m.c.W.FnAt(m.fn), "a loop value changes in a way not understood")
					}
				}
			}
			s.Set("ev", "")
			return
		}
		if back {
			return
		}
		if s.Get("hdr") != "" {
			m.bad(s, m.c.W.FnAt(m.fn), "loops inside loops are not understood")
		}
		s.Set("hdr", hdr)
		s.Set("ev", "")
		s.Set("kind", "")
		ids := []*Term{}
		for ph := range phis {
			ids = append(ids, ph)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i].ID < ids[j].ID })
		init := map[string]string{}
		for _, ph := range ids {
			v := phis[ph]
			if !isIntTerm(ph) {
				continue
			}
			if iv := e.Ival(s, v); iv == nil || iv.lo < 0 || iv.hi > 1<<41 {
				m.up[ph.ID] = false
			} else if _, ok := m.up[ph.ID]; !ok {
				m.up[ph.ID] = true
			}
			init[fmt.Sprintf("x:%d", ph.ID)] = "=" + m.exact(v).String()
			init[fmt.Sprintf("r:%d", ph.ID)] = "=" + m.mod(s, v).String()
			if m.learn && m.inTable(s, v) && !m.odd[fmt.Sprintf("p:%d", ph.ID)] {
				m.pos[ph.ID] = true
			}
			if m.learn && !m.inTable(s, v) {
				delete(m.pos, ph.ID)
				m.odd[fmt.Sprintf("p:%d", ph.ID)] = true
			}
			if !m.learn && m.pos[ph.ID] && !m.inTable(s, v) {
				m.bad(s, m.c.W.FnAt(m.fn), "a position starts outside the table: "+v.String())
			}
		}
		for k, v := range init {
			s.Set(k, v)
		}
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		hdr := s.Get("hdr")
		if hdr == "" || e.Dry {
			return
		}
		kind, _, _ := e.LoopIf(s, in, cond, taken)
		if kind != "done" && kind != "break" {
			return
		}
		at := w.At(in)
		cl, ho := m.has["cleared|"+hdr], m.has["handed out|"+hdr]
		defer func() {
			s.Set("hdr", "")
			s.Set("ev", "")
			for k := range s.Vars {
				if strings.HasPrefix(k, "x:") || strings.HasPrefix(k, "r:") {
					delete(s.Vars, k)
				}
			}
		}()
		if m.learn || !cl && !ho {
			return
		}
		// what the exit says about the number of iterations k: k >= bound
		truth := taken
		cc := cond
		for cc.Op == "not" {
			cc, truth = cc.Args[0], !truth
		}
		extra := int64(0)
		if s.Get("ev") != "" {
			extra = 1
		}
		bound, ok := poly(nil), false
		if cc.Op == "bin" && (cc.Aux == "<" || cc.Aux == "==" && truth) {
			d := m.exact(cc.Args[0]).add(m.exact(cc.Args[1]), -1) // a-b
			if cc.Aux == "<" && truth {
				d = poly{}.add(d, -1).add(polyConst(1), -1) // b-a-1 >= 0
			}
			if init, step, lin := m.at0(s, d, "x:"); lin {
				if step.eq(polyConst(1)) {
					bound, ok = poly{}.add(init, -1).add(polyConst(extra), 1), true
				} else if cc.Aux == "==" && step.eq(polyConst(-1)) {
					bound, ok = init.add(polyConst(extra), 1), true
				}
			}
		}
		if !ok && cc.Op == "res" && cc.Args[0].Op == "next" {
			m.bad(s, at, "the loop over the buckets ends in a way not understood")
			return
		}
		if !ok {
			m.bad(s, at, "when the loop over the buckets ends is not understood: "+cond.String())
			return
		}
		if cl {
			s.Set("cleared", "="+bound.String())
		}
		if ho {
			if s.Get("handed") != "" {
				m.bad(s, at, "the buckets are gone through twice")
			}
			s.Set("handed", "="+bound.String())
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry || m.learn {
			return
		}
		at := w.At(in)
		time := e.fieldAt(s, m.recv, m.r.time)
		T := poly{fmt.Sprintf("t%d", m.T.ID): 1}
		cur := T
		if s.Get("now") == "" {
			m.bad(s, at, "the current second is not looked at")
			return
		}
		now := e.TT.list[atoi(s.Get("now"))]
		if time == m.T {
			same := false
			for id, f := range s.facts {
				t := e.TT.list[id]
				if t.Op != "bin" || f.truth == 0 {
					continue
				}
				a, b := t.Args[0].StripConv(), t.Args[1].StripConv()
				switch {
				case t.Aux == "==" && f.truth > 0 && (a == now && b == m.T || a == m.T && b == now):
					same = true
				case t.Aux == "<" && f.truth > 0 && a == now && b == m.T, t.Aux == "<" && f.truth < 0 && a == m.T && b == now:
					same = true // not later than the second stored
				}
			}
			if !same {
				m.bad(s, at, "the window is not moved on although another second may have begun")
			}
		} else {
			if time.StripConv() != now {
				m.bad(s, at, "the second stored is not the current one: "+time.String())
				return
			}
			cur = m.exact(time)
			v, ok := s.Vars["cleared"]
			gap := cur.add(T, -1)
			if !ok {
				if !m.pastOnly(s, now) {
					m.bad(s, at, "the window moves on without clearing the seconds that passed")
				}
			} else {
				b := parsePoly(strings.TrimPrefix(v, "="))
				full := false
				if k, isC := b[""]; len(b) == 1 && isC && k >= m.r.n {
					full = true
				}
				if s.Get("kind") == "all" && !full || !full && !b.eq(gap) {
					m.bad(s, at, "not every second that passed is cleared, the loop ends after "+b.String())
				}
			}
			if m.r.pos != "" {
				pos := e.fieldAt(s, m.recv, m.r.pos)
				if !m.mod(s, pos).eq(m.reduce(cur)) || !m.inTable(s, pos) {
					m.bad(s, at, "the position stored is not that of the current second: "+pos.String())
				}
			}
		}
		if time == m.T && m.r.pos != "" {
			if pos := e.fieldAt(s, m.recv, m.r.pos); pos.Aux != "pos0" {
				m.bad(s, at, "the position changes although the second does not")
			}
		}
		for f := range m.r.fields {
			if f == m.r.time || f == m.r.pos || f != m.r.size && f != m.r.table && f != m.r.clear {
				continue
			}
			a := e.TT.mk("fieldaddr", f, nil, nil, m.recv)
			for _, cl := range e.InitStore {
				if cl.addr.Aux == f && e.fieldAt(s, m.recv, f) != cl.val {
					m.bad(s, at, "field "+f+" of the window is replaced")
				}
			}
			_ = a
		}
		if handler == nil {
			x := res[0]
			for x.Op == "iface" || x.Op == "assert" {
				x = x.Args[0]
			}
			if x.Op == "load" && x.Args[0].Op == "indexaddr" && x.Args[0].Args[0].Aux == "table" {
				idx := x.Args[0].Args[1]
				if !m.mod(s, idx).eq(m.reduce(cur)) || !m.inTable(s, idx) {
					m.bad(s, at, "the bucket returned is not that of the current second: "+idx.String())
				}
			} else {
				m.bad(s, at, "what is returned is no bucket of the table: "+x.String())
			}
			return
		}
		v, ok := s.Vars["handed"]
		if !ok {
			m.bad(s, at, "no bucket is handed out")
			return
		}
		if b := s.Get("base"); b != "" && b != m.reduce(cur).String() {
			m.bad(s, at, "the buckets are handed out before the window is moved on")
		}
		b := parsePoly(strings.TrimPrefix(v, "="))
		if !m.exact(res[0]).eq(b) {
			m.bad(s, at, "the number of seconds returned is not the number of buckets handed out: "+b.String())
		}
		p := ps[1]
		if b.eq(m.exact(p)) {
			if iv := e.Ival(s, p); iv == nil || iv.hi > m.r.n {
				m.bad(s, at, "more buckets may be handed out than there are")
			}
		} else if k, isC := b[""]; len(b) == 1 && isC && (k == m.r.n || k == m.r.n-1) {
			if iv := e.Ival(s, p); iv == nil || iv.lo < k {
				m.bad(s, at, "more buckets may be handed out than asked for")
			}
		} else {
			m.bad(s, at, "the number of buckets handed out is neither the one asked for nor all: "+b.String())
		}
	}
	m.learn = true
	e.Run(m.fn, ps, nil, nil)
	e.Run(m.fn, ps, nil, nil) // steps under the positions found
	m.learn = false
	m.none = map[string]string{}
	e.Run(m.fn, ps, nil, func() { m.none = map[string]string{} })
	for hdr, at := range m.none {
		if m.has["cleared|"+hdr] || m.has["handed out|"+hdr] {
			m.c.Bad("window", FnName(m.fn), at, "a second is passed over")
		}
	}
	m.c.Use(e, FnName(m.fn))
	for k := range m.has {
		m.c.Ob("loop", FnName(m.fn)+" "+k)
	}
}

// pastOnly: on this path the current second is before the one stored, or more than the table.
func (m *windowMon) pastOnly(s *State, now *Term) bool {
	for id, f := range s.facts {
		t := m.e.TT.list[id]
		if t.Op == "bin" && t.Aux == "<" && f.truth > 0 && t.Args[0].StripConv() == now && t.Args[1].StripConv() == m.T {
			return true
		}
	}
	return false
}

func meterWindow(c *Ctx) *meterRoles {
	r := discoverMeter(c)
	if r == nil {
		return nil
	}
	w := c.W
	seen := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if n, ok := methodOn(f, ctrsPkg, "Metering"); !ok || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || n == "Lock" || n == "Unlock" || f.Synthetic != "" {
			continue
		}
		m := &windowMon{c: c, e: NewEngine(w), r: r, fn: f}
		var h *Term
		for _, p := range m.e.Params(f)[1:] {
			if _, ok := p.Typ.Underlying().(*types.Signature); ok {
				h = p
			}
		}
		c.Ob("window", FnName(f))
		m.run(h)
		for g := range m.e.Visited {
			seen[g] = true
		}
	}
	// nothing else writes the window
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isNamedT(fa.X.Type(), ctrsPkg, "Metering") {
						c.Ob("writers", FnName(f))
						if !seen[f] && !w.partOf(f, ctrsPkg, "NewMetering", map[*ssa.Function]bool{}) {
							c.Bad("writers", FnName(f), w.At(in), "the window is changed elsewhere")
						}
					}
				}
			}
		}
	}
	return r
}

// ---------------------------------------------------------------- the meters

// funcOf: the function a value stands for.
func funcOf(v ssa.Value) *ssa.Function {
	for {
		switch x := v.(type) {
		case *ssa.Function:
			return x
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return nil
		}
	}
}

// bucketBase strips what leads from the window to one bucket.
func bucketBase(t *Term) *Term {
	for t.Op == "assert" || t.Op == "iface" || t.Op == "res" || t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

func structFields(t types.Type) []*types.Var {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		r = append(r, st.Field(i))
	}
	return r
}

func isZeroT(t *Term) bool {
	if t == nil {
		return false
	}
	if t.Op == "zero" || t.Op == "nil" {
		return true
	}
	return t.Op == "const" && t.C != nil && (t.C.Kind() == constant.Int || t.C.Kind() == constant.Float) && constant.Sign(t.C) == 0
}

// bucketOf decides one pair of creating and clearing functions and returns the bucket type.
func bucketOf(c *Ctx, create, clear *ssa.Function) types.Type {
	w := c.W
	var bt types.Type
	{
		e := NewEngine(w)
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			if e.Dry {
				return
			}
			c.Ob("bucket", FnName(create))
			o := unboxS(res[0])
			if o.Op != "alloc" {
				c.Bad("bucket", FnName(create), w.At(in), "a bucket is not newly made: "+o.String())
				return
			}
			bt = o.Typ
			for _, f := range structFields(o.Typ) {
				if v := e.fieldAt(s, o, f.Name()); !isZeroT(v) {
					c.Bad("bucket", FnName(create), w.At(in), "a new bucket does not start at zero: "+f.Name())
				}
			}
		}
		e.Run(create, nil, nil, nil)
		c.Use(e, FnName(create))
	}
	if bt == nil {
		return nil
	}
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		c.Ob("cleared", FnName(clear))
		isParam0 := func(t *Term) bool { return bucketBase(t).Op == "param" && bucketBase(t).Aux == "p0" }
		done := map[string]bool{}
		for _, cl := range s.store {
			if cl.addr.Op == "fieldaddr" && isParam0(cl.addr.Args[0]) && isZeroT(cl.val) {
				done[cl.addr.Aux] = true
			}
			if isParam0(cl.addr) && cl.val.Op == "zero" {
				for _, f := range structFields(bt) {
					done[f.Name()] = true
				}
			}
			if isParam0(cl.addr) && cl.val.Op == "load" && cl.val.Args[0].Op == "alloc" {
				for _, f := range structFields(bt) {
					if isZeroT(e.fieldAt(s, cl.val.Args[0], f.Name())) {
						done[f.Name()] = true
					}
				}
			}
		}
		for _, f := range structFields(bt) {
			if f.Name() != "_" && !done[f.Name()] {
				c.Bad("cleared", FnName(clear), w.At(in), "a bucket used again keeps what an earlier second left in "+f.Name(), s.Trace()...)
			}
		}
	}
	e.Run(clear, nil, nil, nil)
	c.Use(e, FnName(clear))
	return bt
}

// quotient flattens a chain of multiplications and divisions; every division must be of the kind asked for.
func quotient(t *Term, float bool, num, den *[]*Term) bool {
	switch {
	case t.Op == "conv":
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && float && b.Info()&types.IsInteger != 0 && t.Args[0].Op == "bin" && (t.Args[0].Aux == "*" || t.Args[0].Aux == "/") {
			return false
		}
		return quotient(t.Args[0], float, num, den)
	case t.Op == "bin" && t.Aux == "*":
		return quotient(t.Args[0], float, num, den) && quotient(t.Args[1], float, num, den)
	case t.Op == "bin" && t.Aux == "/":
		b, ok := t.Typ.Underlying().(*types.Basic)
		if !ok || float != (b.Info()&types.IsFloat != 0) {
			return false
		}
		return quotient(t.Args[0], float, num, den) && quotient(t.Args[1], float, den, num)
	}
	*num = append(*num, t)
	return true
}

// scale multiplies the constants out of a quotient.
func scale(num, den []*Term) (k constant.Value, n, d []*Term) {
	k = constant.ToFloat(constant.MakeInt64(1))
	for _, t := range num {
		if t.Op == "const" && t.C != nil {
			k = constant.BinaryOp(k, token.MUL, constant.ToFloat(t.C))
		} else {
			n = append(n, t)
		}
	}
	for _, t := range den {
		if t.Op == "const" && t.C != nil && constant.Sign(t.C) != 0 {
			k = constant.BinaryOp(k, token.QUO, constant.ToFloat(t.C))
		} else {
			d = append(d, t)
		}
	}
	return
}

func isQuotient(t *Term, float bool, num, den []string) bool {
	var n, d []*Term
	if !quotient(t, float, &n, &d) {
		return false
	}
	str := func(l []*Term) string {
		var r []string
		for _, x := range l {
			r = append(r, x.String())
		}
		sort.Strings(r)
		return strings.Join(r, "|")
	}
	k, n, d := scale(n, d)
	want := constant.ToFloat(constant.MakeInt64(1))
	var wn []string
	for _, x := range num {
		if x == "100" {
			want = constant.BinaryOp(want, token.MUL, constant.MakeInt64(100))
		} else {
			wn = append(wn, x)
		}
	}
	sort.Strings(wn)
	sort.Strings(den)
	return constant.Compare(k, token.EQL, want) && str(n) == strings.Join(wn, "|") && str(d) == strings.Join(den, "|")
}

type meterSpec struct {
	typ    string
	adds   []string // what each call of Add adds: one, value (parameter 1), failed (1 when parameter 2)
	clamp  bool     // a negative value counts as zero
	fields []string // of the result
}

var meterSpecs = []meterSpec{
	{"ServiceMetering", []string{"one", "value", "failed"}, true, []string{"Tps", "Elapsed", "ErrorRate"}},
	{"ValueMetering", []string{"one", "value"}, false, []string{"Sum", "Avg"}},
}

func checkMeter(c *Ctx, sp meterSpec, bt types.Type) {
	w := c.W
	add, get := c.Need(ctrsPkg, sp.typ, "Add"), c.Need(ctrsPkg, sp.typ, "GetAllCounter")
	if add == nil || get == nil {
		return
	}
	role := map[string]string{} // field -> role
	{
		e := NewEngine(w)
		e.KeepFact = func(*Term) bool { return true }
		e.NoHavoc = func(*Call) bool { return true }
		ps := e.Params(add)
		e.OnCall = func(s *State, k *Call) (*Term, bool) {
			if n, ok := methodOn(k.Fn, ctrsPkg, "Metering"); ok {
				if n != "GetCurrentBucket" {
					if !e.Dry {
						c.Bad("add", FnName(add), w.At(k.Instr), "a call is not counted in the current bucket: "+n)
					}
					return nil, true
				}
				return e.TT.mk("call", "current", k.Instr.Value().Type(), nil), true
			}
			return nil, false
		}
		c.Ob("add", FnName(add))
		type path struct {
			at     string
			failed int
			neg    int
			field  map[string]string
		}
		var paths []path
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			if e.Dry {
				return
			}
			p := path{at: w.At(in), field: map[string]string{}}
			if sp.clamp {
				if iv := e.Ival(s, ps[1]); iv != nil && iv.lo >= 0 {
					p.neg = -1
				} else if iv != nil && iv.hi <= 0 {
					p.neg = 1
				}
			}
			if len(ps) > 2 {
				p.failed = e.Eval(s, ps[2])
			}
			var obj *Term
			for _, cl := range s.store {
				if cl.addr.Op == "fieldaddr" {
					if b := bucketBase(cl.addr.Args[0]); b.Op == "call" && b.Aux == "current" {
						obj = cl.addr.Args[0]
					}
				}
			}
			if obj == nil {
				c.Bad("add", FnName(add), p.at, "a call is not counted", s.Trace()...)
				return
			}
			for _, f := range structFields(bt) {
				v := e.fieldAt(s, obj, f.Name())
				old := e.TT.mk("load", "", f.Type(), nil, e.TT.mk("fieldaddr", f.Name(), types.NewPointer(f.Type()), nil, obj))
				d := "?" + v.String()
				x := v
				if x.Op == "bin" && x.Aux == "+" {
					if x.Args[0] == old {
						x = x.Args[1]
					} else if x.Args[1] == old {
						x = x.Args[0]
					}
				}
				switch {
				case v == old || x != v && isZeroT(x):
					d = "0"
				case x != v && x.StripConv() == ps[1]:
					d = "value"
				case x != v:
					if k, ok := x.Int(); ok && k == 1 {
						d = "1"
					}
				}
				p.field[f.Name()] = d
			}
			paths = append(paths, p)
		}
		e.Run(add, nil, nil, func() { paths = nil })
		c.Use(e, FnName(add))
		if len(paths) == 0 {
			return
		}
		// which field plays which part
		for _, f := range structFields(bt) {
			n := f.Name()
			for _, r := range sp.adds {
				ok := true
				for _, p := range paths {
					d := p.field[n]
					switch r {
					case "one":
						ok = ok && d == "1"
					case "value":
						if sp.clamp && p.neg > 0 {
							ok = ok && d == "0"
						} else {
							ok = ok && d == "value" && (!sp.clamp || p.neg < 0)
						}
					case "failed":
						ok = ok && (p.failed > 0 && d == "1" || p.failed < 0 && d == "0")
					}
				}
				if ok {
					role[n] = r
				}
			}
		}
		for _, r := range sp.adds {
			n := 0
			for _, x := range role {
				if x == r {
					n++
				}
			}
			what := map[string]string{"one": "one call more", "value": "the value given, which counts as nothing when it is a negative duration", "failed": "one failure more exactly for a failed call"}[r]
			c.Check(n == 1, "add", FnName(add)+" "+r, w.FnAt(add), "no field of the current bucket takes up "+what)
		}
	}
	// reading
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	ps := e.Params(get)
	bad := func(s *State, at, msg string) {
		if !e.Dry {
			c.Bad("read", FnName(get), at, msg, s.Trace()...)
		}
	}
	byRole := func(f string) string { return role[f] }
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		n, ok := methodOn(k.Fn, ctrsPkg, "Metering")
		if !ok {
			return nil, false
		}
		at := w.At(k.Instr)
		if n == "Lock" || n == "Unlock" {
			return nil, true
		}
		if n != "SearchOnHandler" || len(k.Args) != 3 {
			bad(s, at, "the window is read by "+n)
			return nil, true
		}
		if s.Get("searched") != "" {
			bad(s, at, "the window is summed up twice")
		}
		s.Set("searched", "1")
		if k.Args[1] != ps[1] {
			bad(s, at, "another period than the one asked for is summed up: "+k.Args[1].String())
		}
		h := k.Args[2]
		if h.Fn == nil {
			bad(s, at, "what is done with each bucket is not known")
			return nil, true
		}
		for _, sm := range handlerSums(c, e, h, byRole) {
			addr := sm.addr(e, h)
			if addr == nil {
				bad(s, at, "what is summed up is not understood")
				continue
			}
			if old := e.Load(s, addr, elemType(addr.Typ)); !isZeroT(old) {
				bad(s, at, "a sum does not start at zero: "+old.String())
			}
			v := e.TT.mk("call", "sum:"+sm.field, elemType(addr.Typ), nil)
			s.store[addr.ID] = cell{addr, v}
		}
		return e.TT.mk("call", "period", k.Instr.Value().Type(), nil), true
	}
	c.Ob("read", FnName(get))
	n := 0
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		at := w.At(in)
		n++
		o := unboxS(res[0])
		sum := func(r string) *Term {
			for f, x := range role {
				if x == r {
					for _, fv := range structFields(bt) {
						if fv.Name() == f {
							return e.TT.mk("call", "sum:"+f, fv.Type(), nil)
						}
					}
				}
			}
			return e.TT.mk("call", "sum:?", types.Typ[types.Int], nil)
		}
		one, val, failed := sum("one"), sum("value"), sum("failed")
		period := "call:period()"
		period = e.TT.mk("call", "period", types.Typ[types.Int], nil).String()
		empty := e.Eval(s, e.eqInt(one, 0))
		if e.Eval(s, e.TT.mk("bin", "<", types.Typ[types.Bool], nil, e.intT(0), one)) < 0 {
			empty = 1 // never below zero
		} else if e.Eval(s, e.TT.mk("bin", "<", types.Typ[types.Bool], nil, e.intT(0), one)) > 0 {
			empty = -1
		}
		want := func(f string, float bool, num, den []string, guarded bool) {
			c.Ob("value", FnName(get)+" "+f)
			v := e.fieldAt(s, o, f)
			if guarded && empty > 0 {
				if !isZeroT(v) {
					c.Bad("value", FnName(get)+" "+f, at, "nothing was counted, but "+f+" is not zero: "+v.String(), s.Trace()...)
				}
				return
			}
			if guarded && empty == 0 {
				c.Bad("value", FnName(get)+" "+f, at, f+" is worked out without looking whether anything was counted", s.Trace()...)
				return
			}
			if !isQuotient(v, float, num, den) {
				c.Bad("value", FnName(get)+" "+f, at, f+" is not "+strings.Join(num, "·")+" / "+strings.Join(den, "·")+": "+v.String(), s.Trace()...)
			}
		}
		switch sp.typ {
		case "ServiceMetering":
			want("Tps", true, []string{one.String()}, []string{period}, false)
			want("Elapsed", false, []string{val.String()}, []string{one.String()}, true)
			want("ErrorRate", true, []string{failed.String(), "100"}, []string{one.String()}, true)
		case "ValueMetering":
			want("Sum", true, []string{val.String()}, nil, false)
			want("Avg", true, []string{val.String()}, []string{one.String()}, true)
		}
	}
	e.Run(get, nil, nil, func() { n = 0 })
	c.Use(e, FnName(get))
	c.Check(n > 0, "read", FnName(get), w.FnAt(get), "never returns")
}

type handlerSum struct {
	bind  int
	path  []string
	field string
}

// addr is where the sum is kept, seen from where the handler was made.
func (h handlerSum) addr(e *Engine, clo *Term) *Term {
	if h.bind >= len(clo.Args) {
		return nil
	}
	a := clo.Args[h.bind]
	for _, f := range h.path {
		var t types.Type
		for _, v := range structFields(a.Typ) {
			if v.Name() == f {
				t = v.Type()
			}
		}
		if t == nil {
			return nil
		}
		a = e.TT.mk("fieldaddr", f, types.NewPointer(t), nil, a)
	}
	return a
}

// handlerSums: what the function given to the window does with one bucket: which of its fields is added to which variable.
func handlerSums(c *Ctx, outer *Engine, clo *Term, role func(string) string) []handlerSum {
	fn := clo.Fn
	w := c.W
	e := NewEngine(w)
	e.TT = outer.TT
	e.RootBind = clo.Args
	e.KeepFact = func(*Term) bool { return true }
	var sums []handlerSum
	bad := func(at, msg string) {
		if !outer.Dry {
			c.Bad("sum", FnName(fn), at, msg)
		}
	}
	n := 0
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		n++
		if !outer.Dry {
			c.Ob("sum", FnName(fn))
		}
		at := w.At(in)
		var got []handlerSum
		ids := make([]int, 0, len(s.store))
		for id := range s.store {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			cl := s.store[id]
			var path []string
			a := cl.addr
			for a.Op == "fieldaddr" {
				path = append([]string{a.Aux}, path...)
				a = a.Args[0]
			}
			bi := -1
			for i, b := range clo.Args {
				if b == a {
					bi = i
				}
			}
			if bi < 0 {
				if a.Op != "alloc" {
					bad(at, "something else than a sum is changed: "+cl.addr.String())
				}
				continue
			}
			v := cl.val
			isOld := func(t *Term) bool { return t.Op == "load" && t.Args[0] == cl.addr }
			if v.Op != "bin" || v.Aux != "+" || !isOld(v.Args[0]) && !isOld(v.Args[1]) {
				bad(at, "what is done with a bucket is not adding it up: "+v.String())
				continue
			}
			x := v.Args[1]
			if !isOld(v.Args[0]) {
				x = v.Args[0]
			}
			x = x.StripConv()
			if x.Op != "load" || x.Args[0].Op != "fieldaddr" || bucketBase(x.Args[0].Args[0]).Op != "param" || bucketBase(x.Args[0].Args[0]).Aux != "p0" {
				bad(at, "what is added up is no field of the bucket: "+x.String())
				continue
			}
			got = append(got, handlerSum{bi, path, x.Args[0].Aux})
		}
		if n > 1 && fmt.Sprint(got) != fmt.Sprint(sums) {
			bad(at, "not every bucket is added up in the same way")
		}
		sums = got
	}
	outerLen := lenOfTerm
	e.Run(fn, nil, nil, func() { n = 0 })
	lenOfTerm = outerLen
	if !outer.Dry {
		c.Use(e, FnName(fn))
	}
	return sums
}

func meters(c *Ctx) {
	w := c.W
	bucket := map[string]types.Type{} // meter type -> bucket
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !isFn(ci.Common().StaticCallee(), ctrsPkg, "NewMetering") {
					continue
				}
				v := ci.Value()
				if v == nil {
					continue
				}
				owner := ""
				for _, ref := range *v.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Val == v {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							if n, ok := deref(fa.X.Type()).(*types.Named); ok {
								owner = n.Obj().Name()
							}
						}
					}
				}
				c.Ob("meter", FnName(f))
				args := ci.Common().Args
				var create, clear *ssa.Function
				for _, a := range args {
					g := funcOf(a)
					if g == nil {
						continue
					}
					if g.Signature.Params().Len() == 0 {
						create = g
					} else {
						clear = g
					}
				}
				if owner == "" || create == nil || clear == nil {
					c.Bad("meter", FnName(f), w.At(in), "what the window is for is not understood")
					continue
				}
				bt := bucketOf(c, create, clear)
				if bt == nil {
					continue
				}
				if o := bucket[owner]; o != nil && !types.Identical(o, bt) {
					c.Bad("meter", FnName(f), w.At(in), owner+" has windows of two kinds of bucket")
				}
				bucket[owner] = bt
			}
		}
	}
	for _, sp := range meterSpecs {
		if bucket[sp.typ] == nil {
			c.Bad("meter", sp.typ, "-", "no window is made for it")
			continue
		}
		checkMeter(c, sp, bucket[sp.typ])
	}
}

func init() {
	register("C31", "The sliding window's methods are explored on all abstract paths with positions compared modulo the number of buckets (loop values as initial value plus a constant step): which buckets are cleared, which are handed out, how often, and what is stored; the constructor, the bucket functions, Add and GetAllCounter are explored and their results compared with the sums.",
		func(c *Ctx) {
			r := meterWindow(c)
			meters(c)
			if r != nil {
				// periods asked for fit in the window
				for _, f := range c.W.Funcs {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							ci, ok := in.(ssa.CallInstruction)
							if !ok {
								continue
							}
							g := ci.Common().StaticCallee()
							if g == nil || g.Name() != "GetAllCounter" || relPkg(FnPkg(g)) != ctrsPkg {
								continue
							}
							c.Ob("period", c.W.At(in))
							if k, ok := ci.Common().Args[1].(*ssa.Const); ok && k.Value != nil {
								if v, _ := constant.Int64Val(k.Value); v < 1 || v >= r.n {
									c.Bad("period", FnName(f), c.W.At(in), fmt.Sprintf("%d seconds are asked for, the window keeps %d", v, r.n-1))
								}
							}
						}
					}
				}
			}
			c.Floor("window", 2)
			c.Floor("loop", 3)
			c.Floor("value", 5)
			c.Floor("period", 4)
		})
}
