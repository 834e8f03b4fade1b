package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const nioPkg = "netio"

// fieldAt reads a field of the object a pointer term refers to, in the current abstract memory.
func (e *Engine) fieldAt(s *State, obj *Term, name string) *Term {
	obj = unboxS(obj)
	st, ok := deref(obj.Typ).Underlying().(*types.Struct)
	if !ok {
		return e.TT.mk("fresh", "nofield", nil, nil)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			t := st.Field(i).Type()
			return e.Load(s, e.TT.mk("fieldaddr", name, types.NewPointer(t), nil, obj), t)
		}
	}
	return e.TT.mk("fresh", "nofield", nil, nil)
}

// isFieldLoad: t is what field name of obj held (whatever the moment).
func isFieldLoad(t, obj *Term, name string) bool {
	t = t.StripConv()
	return t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == name && t.Args[0].Args[0] == obj
}

// isConfLoad: t is a field of the configuration singleton.
func isConfLoad(t *Term, name string) bool {
	t = t.StripConv()
	if t.Op != "load" || t.Args[0].Op != "fieldaddr" || t.Args[0].Aux != name {
		return false
	}
	n, ok := deref(t.Args[0].Args[0].Typ).(*types.Named)
	return ok && n.Obj().Name() == "Configure"
}

func checkSendProfile(c *Ctx, fn *ssa.Function) {
	c.Ob("profile-parts", FnName(fn))
	e := NewEngine(c.W)
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(*Term) bool { return true }
	e.TermIval = func(t *Term) *ival {
		if t.Op == "load" && isConfLoad(t, "ProfileStepMaxCount") {
			return &ival{lo: 1, hi: 1 << 62}
		}
		return nil
	}
	ps := e.Params(fn)
	stepsT, tctx := ps[0], ps[1]
	rule := "profile-parts"
	p := newPartition(c, e, rule, FnName(fn), stepsT)
	bad := func(s *State, at, msg string) {
		if !p.learn {
			c.Bad(rule, FnName(fn), at, msg, s.Trace()...)
		}
	}
	cnt := func(s *State, at string) {
		for _, k := range sortedKeys(s.Vars) {
			if len(k) > 3 && k[:3] == "sp:" {
				if s.Get("pc:"+k[3:]) == "" && s.Get("pcall") == "" {
					bad(s, at, "the steps sent are not added to the trace's profile count")
				}
				if s.Get("pz:"+k[3:]) == "" {
					bad(s, at, "the bytes sent are not added to the trace's profile size")
				}
				s.Set(k, "")
			}
		}
		for _, k := range sortedKeys(s.Vars) {
			if len(k) > 3 && (k[:3] == "pc:" || k[:3] == "pz:") {
				s.Set(k, "")
			}
		}
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if isFn(k.Fn, ndPkg, "StepsToBytes") {
			return e.TT.mk("call", "StepsToBytes", k.Fn.Signature.Results().At(0).Type(), nil, k.Args...), true
		}
		n, ok := methodOn(k.Fn, usPkg, "UDPSender")
		if !ok && !(isFn(k.Fn, usPkg, "GetInstance")) {
			return nil, false
		}
		if !ok {
			return nil, true
		}
		if e.Dry {
			return nil, true
		}
		at := c.W.At(k.Instr)
		if n != "SendPackDirect" && n != "AddPack" {
			bad(s, at, "unexpected use of the sender: "+n)
			return nil, true
		}
		pk := unboxS(k.Args[1])
		nt, okT := deref(pk.Typ).(*types.Named)
		if !okT || nt.Obj().Name() != "XlogProfilePack" {
			bad(s, at, "the pack sent is not a profile pack")
			return nil, true
		}
		prof := e.fieldAt(s, pk, "Profile")
		if prof.Op != "call" || prof.Aux != "StepsToBytes" {
			bad(s, at, "the pack's profile is not the encoding of its steps: "+prof.String())
			return nil, true
		}
		chunk := prof.Args[0]
		for f, src := range map[string]string{"Txid": "Txid", "Service": "ServiceHash"} {
			if v := e.fieldAt(s, pk, f); !isFieldLoad(v, tctx, src) {
				bad(s, at, "the pack's "+f+" is not the trace's "+src+" but "+v.String())
			}
		}
		if v := e.fieldAt(s, pk, "ObjHash"); !isConfLoad(v, "ObjHash") {
			bad(s, at, "the pack's object hash is not the configured one but "+v.String())
		}
		s.Set("sp:"+fmt.Sprint(chunk.ID), "1")
		if p.learn {
			p.chunkAt(s, at, chunk, nil)
		} else {
			for _, t := range e.TT.list {
				if t.Op == "load" && isConfLoad(t, "ProfileStepMaxCount") {
					p.max = t
				}
			}
			p.chunkAt(s, at, chunk, nil)
		}
		return nil, true
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if addr.Op != "fieldaddr" || addr.Args[0] != tctx {
			return
		}
		at := c.W.At(in)
		d := toPoly(val, nil).add(toPoly(e.Load(s, addr, deref(addr.Typ)), nil), -1)
		if addr.Aux != "ProfileCount" && addr.Aux != "ProfileSize" {
			return
		}
		for _, t := range e.TT.list {
			if t.Op != "len" || !d.eq(toPoly(t, nil)) {
				continue
			}
			x := t.Args[0]
			if addr.Aux == "ProfileSize" && x.Op == "call" && x.Aux == "StepsToBytes" {
				x = x.Args[0]
				if s.Get("pz:"+fmt.Sprint(x.ID)) != "" {
					bad(s, at, "profile bytes are counted twice")
				}
				s.Set("pz:"+fmt.Sprint(x.ID), "1")
				return
			}
			if addr.Aux == "ProfileCount" {
				if _, _, ok := p.bounds(x); ok {
					if s.Get("pc:"+fmt.Sprint(x.ID)) != "" {
						bad(s, at, "profile steps are counted twice")
					}
					s.Set("pc:"+fmt.Sprint(x.ID), "1")
					return
				}
			}
		}
		// a slice bound difference
		if addr.Aux == "ProfileCount" {
			for _, t := range e.TT.list {
				if t.Op == "slice" {
					if lo, hi, ok := p.bounds(t); ok && hi.add(lo, -1).eq(d) {
						s.Set("pc:"+fmt.Sprint(t.ID), "1")
						return
					}
				}
			}
		}
		bad(s, at, fmt.Sprintf("%s grows by something else than what is sent", addr.Aux))
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := c.W.At(in)
		cnt(s, at)
		p.atReturn(s, at, func() bool { return e.IsNil(s, stepsT) })
	}
	p.hook()
	oh := e.OnHeader
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		cnt(s, c.W.FnAt(fn))
		oh(s, hdr, phis, back)
	}
	p.learn = true
	e.Run(fn, ps, nil, nil)
	p.learn = false
	e.Run(fn, ps, nil, nil)
	c.Use(e, FnName(fn))
}

// collMon follows the step buffer of a profile collector.
type collMon struct {
	c      *Ctx
	e      *Engine
	fn     *ssa.Function
	rule   string
	ps     []*Term
	s0, p0 *Term
}

func (m *collMon) bad(s *State, at, msg string) { m.c.Bad(m.rule, FnName(m.fn), at, msg, s.Trace()...) }

func newCollMon(c *Ctx, fn *ssa.Function, rule string) *collMon {
	c.Ob(rule, FnName(fn))
	m := &collMon{c: c, e: NewEngine(c.W), fn: fn, rule: rule}
	e := m.e
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(*Term) bool { return true }
	m.ps = e.Params(fn)
	st := deref(m.ps[0].Typ).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		t := e.TT.mk("load", "", f.Type(), nil, e.TT.mk("fieldaddr", f.Name(), types.NewPointer(f.Type()), nil, m.ps[0]))
		switch f.Name() {
		case "steps":
			m.s0 = t
		case "pos":
			m.p0 = t
		}
	}
	if m.s0 == nil || m.p0 == nil {
		c.Bad("anchor", "ProfileCollector.steps/pos", "-", "the step buffer fields were not found")
		return nil
	}
	return m
}

func (m *collMon) n(s *State) poly    { return parsePoly(s.Get("n")) }
func (m *collMon) arr(s *State) *Term { return m.e.TT.list[atoi(s.Get("A"))] }
func (m *collMon) lenOf(t *Term) poly {
	if t.Op == "make" {
		return toPoly(t.Args[0], nil)
	}
	return toPoly(m.e.TT.mk("len", "", types.Typ[types.Int], nil, t), nil)
}

// matches: X is exactly the first n entries of array A.
func (m *collMon) matches(s *State, x, a *Term, n poly) bool {
	if x == a {
		l := m.lenOf(a)
		return l.eq(n) || knownLE0(m.e, s, l.add(n, -1))
	}
	if x.Op == "slice" && x.Args[0] == a {
		if x.Args[1].Op != "none" {
			if v, ok := x.Args[1].Int(); !ok || v != 0 {
				return false
			}
		}
		hi := m.lenOf(a)
		if x.Args[2].Op != "none" {
			hi = toPoly(x.Args[2], nil)
		}
		return hi.eq(n) || x.Args[2].Op == "none" && knownLE0(m.e, s, hi.add(n, -1))
	}
	return false
}

func (m *collMon) init() map[string]string {
	return map[string]string{"A": fmt.Sprint(m.s0.ID), "n": toPoly(m.p0, nil).String()}
}

func (m *collMon) sent(s *State, at string, k *Call) {
	if !isFieldLoad(k.Args[1], m.ps[0], "tctx") {
		m.bad(s, at, "the steps are sent for another trace: "+k.Args[1].String())
	}
	if d := s.Get("det"); d != "" {
		a := m.e.TT.list[atoi(d)]
		if m.matches(s, k.Args[0], a, parsePoly(s.Get("detn"))) {
			s.Set("det", "")
			s.Set("detn", "")
			s.Set("cnt", s.Get("cnt")+"1")
			return
		}
	}
	if s.Get("fl") != "" {
		m.bad(s, at, "the buffered steps are sent twice")
		return
	}
	if !m.matches(s, k.Args[0], m.arr(s), m.n(s)) {
		m.bad(s, at, "what is sent is not exactly the buffered steps: "+k.Args[0].String())
		return
	}
	s.Set("fl", "1")
	s.Set("cnt", s.Get("cnt")+"1")
}

// detach: the buffer is given up; unsent steps must be sent later.
func (m *collMon) detach(s *State, at string) {
	if s.Get("fl") == "" && !m.n(s).zero() {
		if s.Get("det") != "" {
			m.bad(s, at, "buffered steps are given up")
		}
		s.Set("det", s.Get("A"))
		s.Set("detn", s.Get("n"))
	}
	s.Set("fl", "")
	s.Set("n", "")
}

func (m *collMon) run(ret func(s *State, at string)) {
	e, c := m.e, m.c
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if isFn(k.Fn, nioPkg, "SendProfile") {
			if !e.Dry {
				m.sent(s, c.W.At(k.Instr), k)
			}
			return nil, true
		}
		return nil, false
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		at := c.W.At(in)
		if addr.Op == "fieldaddr" && addr.Args[0] == m.ps[0] {
			switch addr.Aux {
			case "steps":
				if val != m.arr(s) {
					m.detach(s, at)
					s.Set("A", fmt.Sprint(val.ID))
				}
			case "pos":
				p := toPoly(val, nil)
				if p.zero() {
					m.detach(s, at)
				}
				s.Set("pos", p.String()+"!")
			}
			return
		}
		if addr.Op == "indexaddr" && deref(addr.Typ) != nil && len(m.ps) > 1 {
			if addr.Args[0] != m.arr(s) {
				m.bad(s, at, "the step is stored outside the buffer")
				return
			}
			if s.Get("det") == s.Get("A") {
				m.bad(s, at, "steps not sent yet are overwritten")
			}
			i := toPoly(addr.Args[1], nil)
			if !i.eq(m.n(s)) || s.Get("fl") != "" {
				m.bad(s, at, "the step is not stored behind the buffered steps")
			}
			if val != m.ps[1] {
				m.bad(s, at, "something else than the step is stored")
			}
			if s.Get("add") != "" {
				m.bad(s, at, "the step is stored twice")
			}
			s.Set("add", "1")
			if !i.zero() && !knownLE0(e, s, i.add(polyConst(1), 1).add(m.lenOf(m.arr(s)), -1)) {
				s.Set("inv", "1")
			}
			s.Set("n", m.n(s).add(polyConst(1), 1).String())
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) { ret(s, c.W.At(in)) }
	e.Run(m.fn, m.ps, m.init(), nil)
	c.Use(e, FnName(m.fn))
}

// levels decides the index/parent bookkeeping of Push, Pop and Add.
func checkLevels(c *Ctx, name string, set, process, pop bool, curStep, parIsCur bool) {
	fn := c.Need(nioPkg, "ProfileCollector", name)
	if fn == nil {
		return
	}
	rule := "step-levels"
	c.Ob(rule, FnName(fn))
	e := NewEngine(c.W)
	e.NoHavoc = func(*Call) bool { return true }
	ps := e.Params(fn)
	bad := func(s *State, at, msg string) { c.Bad(rule, FnName(fn), at, msg, s.Trace()...) }
	cur0 := func(t *Term) bool { return isFieldLoad(t, ps[0], "currentLevel") && t.StripConv().Aux == "" }
	par0 := func(t *Term) bool { return isFieldLoad(t, ps[0], "parentLevel") && t.StripConv().Aux == "" }
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		at := c.W.At(k.Instr)
		if n, ok := methodOn(k.Fn, nioPkg, "ProfileCollector"); ok && n == "Process" {
			if !e.Dry {
				if k.Args[0] != ps[0] || unboxS(k.Args[1]) != ps[1] {
					bad(s, at, "another step is recorded")
				}
				s.Set("proc", s.Get("proc")+"1")
				if set && s.Get("idx")+s.Get("par") != "11" {
					bad(s, at, "the step is recorded before its index and parent are set")
				}
			}
			return nil, true
		}
		if k.Method == nil || k.Recv != ps[1] {
			return nil, false
		}
		if e.Dry {
			return nil, true
		}
		switch k.Method.Name() {
		case "SetIndex":
			if !cur0(k.Args[0]) {
				bad(s, at, "the step's index is not the next free one: "+k.Args[0].String())
			}
			s.Set("idx", s.Get("idx")+"1")
		case "SetParent":
			if !par0(k.Args[0]) {
				bad(s, at, "the step's parent is not the open step: "+k.Args[0].String())
			}
			s.Set("par", s.Get("par")+"1")
		case "GetParent":
			return e.TT.mk("call", "GetParent", k.Method.Type().(*types.Signature).Results().At(0).Type(), nil, k.Recv), true
		case "GetIndex":
			v := e.TT.mk("call", "GetIndex", k.Method.Type().(*types.Signature).Results().At(0).Type(), nil, k.Recv)
			if s.Get("idx") == "1" {
				return e.TT.mk("load", "", v.Typ, nil, e.TT.mk("fieldaddr", "currentLevel", types.NewPointer(v.Typ), nil, ps[0])), true
			}
			return v, true
		}
		return nil, true
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := c.W.At(in)
		want := ""
		if set {
			want = "1"
		}
		if s.Get("idx") != want || s.Get("par") != want {
			bad(s, at, "index and parent are not set exactly once")
		}
		want = ""
		if process {
			want = "1"
		}
		if s.Get("proc") != want {
			bad(s, at, fmt.Sprintf("the step is recorded %d times, must be %d", len(s.Get("proc")), len(want)))
		}
		cv, pv := e.fieldAt(s, ps[0], "currentLevel"), e.fieldAt(s, ps[0], "parentLevel")
		d := polyConst(0)
		if curStep {
			d = polyConst(1)
		}
		c0 := e.TT.mk("load", "", cv.Typ, nil, e.TT.mk("fieldaddr", "currentLevel", types.NewPointer(types.Typ[types.Int32]), nil, ps[0]))
		if !toPoly(cv, nil).eq(toPoly(c0, nil).add(d, 1)) {
			bad(s, at, "the next free index is left at "+cv.String())
		}
		switch {
		case parIsCur:
			if !cur0(pv) {
				bad(s, at, "the open step is not the pushed one: "+pv.String())
			}
		case pop:
			if pv.Op != "call" || pv.Aux != "GetParent" {
				bad(s, at, "the open step is not the popped step's parent: "+pv.String())
			}
		default:
			if !par0(pv) {
				bad(s, at, "the open step changes: "+pv.String())
			}
		}
	}
	e.Run(fn, ps, nil, nil)
	c.Use(e, FnName(fn))
}

func init() {
	register("C07", "SendProfile is explored abstractly: the parts it sends must partition the steps (symbolic interval cover), each in a profile pack with the trace's ids and counted once. The collector's buffer is followed by a monitor (array, fill level, given-up contents) through Process and Close; Push, Pop and Add must keep the index and parent levels.",
		func(c *Ctx) {
			if fn := c.Need(nioPkg, "", "SendProfile"); fn != nil {
				checkSendProfile(c, fn)
			}
			if fn := c.Need(nioPkg, "ProfileCollector", "Process"); fn != nil {
				if m := newCollMon(c, fn, "buffer"); m != nil {
					m.run(func(s *State, at string) {
						e := m.e
						if s.Get("add") == "" {
							m.bad(s, at, "the step is not stored")
						}
						if s.Get("det") != "" {
							m.bad(s, at, "buffered steps are given up without being sent")
						}
						if s.Get("fl") != "" {
							m.bad(s, at, "steps that were sent stay in the buffer")
						}
						pv := toPoly(e.fieldAt(s, m.ps[0], "pos"), nil)
						if !pv.eq(m.n(s)) {
							m.bad(s, at, "the fill level does not match the buffer")
						}
						if s.Get("inv") != "" && !pv.zero() && !knownLE0(e, s, pv.add(polyConst(1), 1).add(m.lenOf(m.arr(s)), -1)) {
							m.bad(s, at, "a full buffer is left behind: the next step has no place")
						}
						if e.fieldAt(s, m.ps[0], "steps") != m.arr(s) {
							m.bad(s, at, "the buffer is not kept")
						}
					})
				}
			}
			if fn := c.Need(nioPkg, "ProfileCollector", "Close"); fn != nil {
				if m := newCollMon(c, fn, "buffer"); m != nil {
					m.run(func(s *State, at string) {
						ok := m.e.Eval(s, m.ps[1])
						if s.Get("cnt") == "" {
							if ok >= 0 && !knownLE0(m.e, s, toPoly(m.p0, nil)) {
								m.bad(s, at, "buffered steps are not sent when the profile is closed")
							}
							return
						}
						if ok <= 0 {
							m.bad(s, at, "the steps of a discarded profile are sent")
						}
						if s.Get("cnt") != "1" {
							m.bad(s, at, "the buffered steps are sent twice")
						}
					})
				}
			}
			checkLevels(c, "Push", true, false, false, true, true)
			checkLevels(c, "Pop", false, true, true, false, false)
			checkLevels(c, "Add", true, true, false, true, false)
			c.Floor("step-levels", 3)
			c.Floor("buffer", 2)
		})
}
