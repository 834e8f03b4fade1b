package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	stPkg  = "strace"
	tmPkg  = "strace/tctxmanager"
	lraPkg = "common/structure/lra"
	ctrPkg = "counter"
)

// ---------------------------------------------------------------- decision tables

type needMore struct{}
type infeasible struct{}

// asker answers one atomic question of a decision table from what a path knows.
type asker struct {
	e       *Engine
	s       *State
	choices []bool
	i       int
	memo    map[string]bool
}

// atom asks a question whose answer eval finds in the path's facts.
func (a *asker) atom(name string, eval func(*State) int) bool {
	if v := eval(a.s); v != 0 {
		return v > 0
	}
	if b, ok := a.memo[name]; ok {
		return b
	}
	if a.i == len(a.choices) {
		panic(needMore{})
	}
	b := a.choices[a.i]
	a.i++
	a.memo[name] = b
	return b
}

// cond asks for the truth of a condition term.
func (a *asker) cond(t *Term) bool {
	if v := a.e.Eval(a.s, t); v != 0 {
		return v > 0
	}
	if a.i == len(a.choices) {
		panic(needMore{})
	}
	b := a.choices[a.i]
	a.i++
	truth, x := b, t
	for x.Op == "not" {
		x, truth = x.Args[0], !truth
	}
	if !a.e.record(a.s, x, truth) {
		panic(infeasible{})
	}
	return b
}

// outcomes lists what a decision table yields for every completion of the path's knowledge.
func (e *Engine) outcomes(s *State, spec func(a *asker) string) []string {
	m := map[string]string{}
	var rec func(ch []bool)
	rec = func(ch []bool) {
		a := &asker{e: e, s: s.clone(), choices: ch, memo: map[string]bool{}}
		r, more := func() (r string, more bool) {
			defer func() {
				switch x := recover().(type) {
				case nil, infeasible:
				case needMore:
					more = true
				default:
					panic(x)
				}
			}()
			return spec(a), false
		}()
		if more {
			if len(ch) > 12 {
				m["undecided"] = "1"
				return
			}
			rec(append(append([]bool(nil), ch...), true))
			rec(append(append([]bool(nil), ch...), false))
			return
		}
		if r != "" {
			m[r] = "1"
		}
	}
	rec(nil)
	return sortedKeys(m)
}

func (e *Engine) intT(v int64) *Term {
	return e.TT.Const(constant.MakeInt64(v), types.Typ[types.Int64])
}

// eqInt is the condition t == v.
func (e *Engine) eqInt(t *Term, v int64) *Term {
	return e.TT.Bin(token.EQL, t, e.TT.Const(constant.MakeInt64(v), t.Typ), types.Typ[types.Bool])
}
func (e *Engine) eqT(a, b *Term) *Term { return e.TT.Bin(token.EQL, a, b, types.Typ[types.Bool]) }

// ---------------------------------------------------------------- the life of a service

func isTctxT(t types.Type) bool { return isNamedT(t, nioPkg, "TraceContext") }

func isNamedT(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Name() == name && relPkg(n.Obj().Pkg().Path()) == pkg
}

type lifeMon struct {
	c       *Ctx
	e       *Engine
	fn      *ssa.Function
	rule    string
	ps      []*Term
	sampler bool // explore the sampling decision too
	table   string
	lts     map[string]func(*State) int
	onXlog  func(s *State, at string, x *Term)
	onClose func(s *State, at string, tctx, w *Term)
	onMeter func(s *State, at string, el, er *Term)
}

func (m *lifeMon) bad(s *State, at, msg string) { m.c.Bad(m.rule, FnName(m.fn), at, msg, s.Trace()...) }

func textSender(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() != nil || relPkg(FnPkg(f)) != nioPkg || f.Parent() != nil {
		return false
	}
	sg := f.Signature
	return sg.Params().Len() == 1 && sg.Results().Len() == 1 && types.Identical(sg.Params().At(0).Type(), types.Typ[types.String]) && types.Identical(sg.Results().At(0).Type(), types.Typ[types.Int32])
}

// won: the path owns the end of the trace (it changed the once-flag itself).
func (m *lifeMon) won(s *State) bool {
	id := s.Get("cas")
	return id != "" && m.e.Eval(s, m.e.TT.list[atoi(id)]) > 0
}

func isCAS(k *Call) (addr, old, new *Term, ok bool) {
	f := k.Fn
	if f == nil || FnPkg(f) != "sync/atomic" {
		return
	}
	switch {
	case f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "CompareAndSwap") || f.Signature.Recv() != nil && f.Name() == "CompareAndSwap":
		return k.Args[0], k.Args[1], k.Args[2], true
	}
	return
}

func sameConst(t *Term, v int64) bool {
	if b, ok := t.Bool(); ok {
		return b == (v == 1)
	}
	i, ok := t.Int()
	return ok && i == v
}

// event marks something that ends a trace; it may only happen on the path that owns the end.
func (m *lifeMon) event(s *State, at, name string) {
	if !m.won(s) {
		m.bad(s, at, name+" although the path has not established that it is the one that ends the trace")
	}
	s.Set(name, s.Get(name)+"1")
}

// model is the common treatment of calls around a trace.
func (m *lifeMon) model(s *State, k *Call) (*Term, bool) {
	e, c := m.e, m.c
	at := c.W.At(k.Instr)
	if k.Method != nil && k.Method.Name() == "Value" && k.Method.Pkg() != nil && k.Method.Pkg().Path() == "context" {
		return e.TT.mk("call", "ctx.Value", k.Method.Type().(*types.Signature).Results().At(0).Type(), nil, k.Recv, k.Args[0]), true
	}
	if k.Fn == nil {
		return nil, false
	}
	if textSender(k.Fn) {
		return e.TT.mk("call", k.Fn.Name(), types.Typ[types.Int32], nil, k.Args...), true
	}
	if n, ok := methodOn(k.Fn, nioPkg, "ProfileCollector"); ok {
		if n == "Close" {
			if !e.Dry {
				m.event(s, at, "the profile is closed")
			}
			t := k.Args[0]
			if t.Op == "load" && t.Args[0].Op == "fieldaddr" && isTctxT(t.Args[0].Args[0].Typ) {
				tc := t.Args[0].Args[0]
				for _, f := range []string{"ProfileCount", "ProfileSize"} {
					a := e.TT.mk("fieldaddr", f, types.NewPointer(types.Typ[types.Int]), nil, tc)
					e.doStore(s, a, e.TT.mk("call", "closed."+f, types.Typ[types.Int], nil, tc), k.Site)
				}
				if m.onClose != nil && !e.Dry {
					m.onClose(s, at, tc, k.Args[1])
				}
			} else if !e.Dry {
				m.bad(s, at, "the profile closed is not the trace's")
			}
		}
		return nil, true
	}
	if n, ok := methodOn(k.Fn, ctrPkg, "ServiceMetering"); ok {
		if n == "Add" && !e.Dry {
			m.event(s, at, "the service is metered")
			if m.onMeter != nil {
				m.onMeter(s, at, k.Args[1], k.Args[2])
			}
		}
		return nil, true
	}
	if n, ok := methodOn(k.Fn, lraPkg, "Cache"); ok {
		if n == "Remove" && !e.Dry && k.Args[0].Op == "load" && k.Args[0].Args[0].Aux == m.table {
			m.event(s, at, "the trace is removed from the active table")
			key := unboxS(k.Args[1])
			if !(key.Op == "load" && key.Args[0].Op == "fieldaddr" && key.Args[0].Aux == "Txid" && isTctxT(key.Args[0].Args[0].Typ)) {
				m.bad(s, at, "the entry removed is not the trace's: "+key.String())
			}
		}
		return nil, true
	}
	if n, ok := methodOn(k.Fn, usPkg, "UDPSender"); ok {
		if (n == "SendPackDirect" || n == "AddPack") && !e.Dry {
			if pk := unboxS(k.Args[1]); isNamedT(pk.Typ, ndPkg, "XlogPack") {
				m.event(s, at, "the xlog is sent")
				if m.onXlog != nil {
					m.onXlog(s, at, pk)
				}
			}
		}
		return nil, true
	}
	if addr, old, nw, ok := isCAS(k); ok {
		if addr.Op == "fieldaddr" && isTctxT(addr.Args[0].Typ) && sameConst(old, 0) && sameConst(nw, 1) {
			if m.won(s) {
				return e.TT.Const(constant.MakeBool(false), types.Typ[types.Bool]), true
			}
			r := e.TT.mk("call", "firstEnd", types.Typ[types.Bool], nil, addr)
			s.Set("cas", fmt.Sprint(r.ID))
			return r, true
		}
		return nil, true
	}
	if FnPkg(k.Fn) == "sync" && k.Name != "" && !c.W.InRepo(k.Fn) {
		return nil, true
	}
	if !m.sampler {
		if r := k.Fn.Signature.Results(); r.Len() == 1 && isNamedT(r.At(0).Type(), ndPkg, "XlogDiscardType") && c.W.InRepo(k.Fn) {
			return e.TT.mk("call", "decision@"+k.Site, r.At(0).Type(), nil, k.Args...), true
		}
	}
	return nil, false
}

func newLife(c *Ctx, fn *ssa.Function, rule, table string) *lifeMon {
	m := &lifeMon{c: c, e: NewEngine(c.W), fn: fn, rule: rule, table: table}
	e := m.e
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(*Term) bool { return true }
	e.WidenAt = 1 << 30
	e.MaxStates = 800000
	m.ps = e.Params(fn)
	e.OnCall = m.model
	return m
}

// activeTable finds the table running traces are kept in: where the start of a service adds them.
func activeTable(c *Ctx) string {
	fn := c.Need(stPkg, "", "StartService")
	if fn == nil {
		return ""
	}
	tab := ""
	c.W.reaches(fn, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if n, ok := methodOn(ci.Common().StaticCallee(), lraPkg, "Cache"); ok && n == "Add" {
			v := ci.Common().Args[2]
			if mi, ok := v.(*ssa.MakeInterface); ok && isTctxT(mi.X.Type()) {
				if l, ok := ci.Common().Args[0].(*ssa.UnOp); ok {
					if g, ok := l.X.(*ssa.Global); ok {
						tab = relPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
					}
				}
			}
		}
		return false
	})
	if tab == "" {
		c.Bad("anchor", "active table", "-", "the table of running traces was not found")
	}
	return tab
}

// stuckHandler is the function registered to end stuck services.
func stuckHandler(c *Ctx) *ssa.Function {
	var h *ssa.Function
	for _, f := range c.W.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isFn(ci.Common().StaticCallee(), tmPkg, "RegisterEndStuckServiceForciblyFunc") {
					h = unbind(ci.Common().Args[0])
				}
			}
		}
	}
	if h == nil {
		c.Bad("anchor", "stuck handler", "-", "no function is registered to end stuck services")
	}
	return h
}

// endRoots are the ways a trace ends.
func endRoots(c *Ctx) []*ssa.Function {
	var r []*ssa.Function
	for _, n := range []string{"EndService", "EndHttpService"} {
		if f := c.Need(stPkg, "", n); f != nil {
			r = append(r, f)
		}
	}
	if h := stuckHandler(c); h != nil {
		r = append(r, h)
	}
	return r
}

// knownClosed: the path found the trace closed already, or found no trace.
func (m *lifeMon) noTrace(s *State) bool {
	e := m.e
	for id, f := range s.facts {
		t := e.TT.list[id]
		switch {
		case t.Op == "load" && t.Args[0].Op == "fieldaddr" && isTctxT(t.Args[0].Args[0].Typ) && t.Args[0].Aux == "Closed" && f.truth > 0:
			return true
		case t.Op == "istype" && isTctxT(t.Typ) && f.truth < 0:
			return true
		case isTctxT(t.Typ) && f.eq != nil && f.eq.IsNil():
			return true
		case t.Op == "param" && f.eq != nil && f.eq.IsNil() && types.IsInterface(t.Typ):
			return true
		case isConfLoad(t, "StuckServiceRemoveEnabled") && f.truth < 0:
			return true
		}
		if t.Op == "istype" && f.truth > 0 && isTctxT(t.Typ) {
			continue
		}
	}
	return false
}

func (m *lifeMon) atEnd(s *State, at string) {
	ev := []string{"the trace is removed from the active table", "the profile is closed", "the service is metered"}
	if !m.won(s) {
		if s.Get("cas") == "" && !m.noTrace(s) {
			m.bad(s, at, "a running trace is not ended")
		}
		return
	}
	for _, n := range ev {
		if s.Get(n) != "1" {
			m.bad(s, at, fmt.Sprintf("%s %d times when the trace ends", n, len(s.Get(n))))
		}
	}
	if len(s.Get("the xlog is sent")) > 1 {
		m.bad(s, at, "the xlog is sent more than once")
	}
}

// confTruth reads the truth of a boolean option from the path's facts.
func (e *Engine) confTruth(name string) func(*State) int {
	return func(s *State) int {
		for id, f := range s.facts {
			if f.truth != 0 && isConfLoad(e.TT.list[id], name) {
				return int(f.truth)
			}
		}
		return 0
	}
}

// confEmpty: a string option is empty.
func (e *Engine) confEmpty(name string) func(*State) int {
	return func(s *State) int {
		for id, f := range s.facts {
			t := e.TT.list[id]
			if isConfLoad(t, name) {
				if f.eq != nil {
					if v, ok := f.eq.Str(); ok && v == "" {
						return 1
					}
					return -1
				}
				for _, n := range f.nes {
					if v, ok := n.Str(); ok && v == "" {
						return -1
					}
				}
			}
			if t.Op == "len" && isConfLoad(t.Args[0], name) && f.iv != nil {
				if f.iv.hi == 0 {
					return 1
				}
				if f.iv.lo > 0 {
					return -1
				}
			}
		}
		return 0
	}
}

// less: x < y, from any comparison on the path that says the same.
func (e *Engine) less(isX, isY func(*Term) bool) func(*State) int {
	var xs, ys []*Term
	n := 0
	return func(s *State) int {
		for ; n < len(e.TT.list); n++ {
			if t := e.TT.list[n]; isX(t) {
				xs = append(xs, t)
			} else if isY(t) {
				ys = append(ys, t)
			}
		}
		for id, f := range s.facts {
			t := e.TT.list[id]
			if t.Op != "bin" || t.Aux != "<" || f.truth == 0 {
				continue
			}
			q := toPoly(t.Args[0], nil).add(toPoly(t.Args[1], nil), -1) // q < 0
			if f.truth < 0 {
				q = polyConst(-1).add(q, -1)
			}
			for _, x := range xs {
				for _, y := range ys {
					d := toPoly(x, nil).add(toPoly(y, nil), -1)
					if q.eq(d) {
						return 1
					}
					if q.eq(polyConst(-1).add(d, -1)) {
						return -1
					}
				}
			}
		}
		return 0
	}
}

// patternFields: which matcher field holds which configured pattern.
func patternFields(c *Ctx) map[string]string {
	r := map[string]string{}
	fn := c.Need(stPkg, "", "GetXlogSampler")
	if fn == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 || relPkg(FnPkg(f)) != stPkg {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			scan(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok && k.Common().StaticCallee() != nil {
					scan(k.Common().StaticCallee())
				}
			}
		}
		e := NewEngine(c.W)
		e.NoHavoc = func(*Call) bool { return true }
		e.PureCall = func(g *ssa.Function) bool { return isFn(g, "common/util", "NewCommaSeparatedChainedStrMatcher") }
		e.Opaque = e.PureCall
		e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
			if addr.Op != "fieldaddr" || val.Op != "call" || e.Dry {
				return
			}
			if strings.HasSuffix(val.Aux, "NewCommaSeparatedChainedStrMatcher") {
				v := val.Args[0]
				if v.Op == "load" {
					if n, ok := deref(v.Args[0].Args[0].Typ).(*types.Named); ok && n.Obj().Name() == "Configure" {
						r[v.Args[0].Aux] = addr.Aux
					}
				}
			}
		}
		e.Run(f, nil, nil, nil)
		c.Use(e, FnName(f))
	}
	scan(fn)
	return r
}

func isRand100(t *Term) bool {
	if t.Op != "call" || !strings.HasPrefix(t.Aux, "math/rand.Intn@") {
		return false
	}
	v, ok := t.Args[0].Int()
	return ok && v == 100
}

// discardTable is the sampling decision as the agent documents it.
func (m *lifeMon) discardTable(s *State, fields map[string]string, a *asker, errT *Term, name func(*Term) bool, part string) string {
	e := m.e
	opt := func(n string) bool { return a.atom(n, e.confTruth(n)) }
	match := func(p string) bool {
		if a.atom(p+"==empty", e.confEmpty(p)) {
			return false
		}
		return a.atom(p+" matches", func(s *State) int {
			for id, f := range s.facts {
				t := e.TT.list[id]
				if f.truth != 0 && t.Op == "call" && strings.HasSuffix(t.Aux, "IsMatch") && name(t.Args[1]) &&
					t.Args[0].Mentions(func(x *Term) bool { return (x.Op == "fieldaddr" || x.Op == "field") && x.Aux == fields[p] }) {
					return int(f.truth)
				}
			}
			return 0
		})
	}
	elapsed := func(t *Term) bool { return t.Op == "call" && strings.HasPrefix(t.Aux, "MillisToNow@") }
	lt := func(n string, x func(*Term) bool) bool {
		if m.lts == nil {
			m.lts = map[string]func(*State) int{}
		}
		if m.lts[n] == nil {
			m.lts[n] = e.less(x, func(t *Term) bool { return t.Op == "load" && isConfLoad(t, n) })
		}
		return a.atom(n, m.lts[n])
	}
	step := func(p string) string {
		if v := s.Get("step:" + p); v != "" {
			return v
		}
		rate := p + "OverRatePct"
		for i := 1; i <= 3; i++ {
			if lt(fmt.Sprintf("%sStep%dMs", p, i), elapsed) {
				rate = fmt.Sprintf("%sStep%dRatePct", p, i)
				break
			}
		}
		if lt(rate, isRand100) {
			return "NONE"
		}
		if opt(p + "OnlyProfile") {
			return "PROFILE"
		}
		return "ALL"
	}
	sample := func() string {
		if v := s.Get("sample"); v != "" {
			return v
		}
		if opt("XlogSamplingEnabled") && match("XlogSamplingExcludePatterns") {
			return "NONE"
		}
		for _, p := range []string{"XlogPatterned", "XlogPatterned2", "XlogPatterned3"} {
			if opt(p+"SamplingEnabled") && match(p+"SamplingServicePatterns") {
				return step(p + "Sampling")
			}
		}
		if opt("XlogSamplingEnabled") {
			return step("XlogSampling")
		}
		return "NONE"
	}
	switch {
	case part == "sample":
		return sample()
	case part != "":
		return step(part)
	}
	noErr := a.cond(e.eqInt(errT, 0))
	d := "NONE"
	if noErr {
		d = sample()
	}
	if match("XlogDiscardServicePatterns") {
		d = "FORCE"
		if !noErr && opt("XlogDiscardServiceShowError") {
			d = "NONE"
		}
	}
	return d
}

var discardNum = map[string]int64{"NONE": 1, "ALL": 2, "PROFILE": 3, "FORCE": 4}

func (m *lifeMon) tctxOf(s *State) *Term {
	if id := s.Get("cas"); id != "" {
		return m.e.TT.list[atoi(id)].Args[0].Args[0]
	}
	return nil
}

func init() {
	register("C09", "Every way a service ends (EndService, EndHttpService, the registered stuck handler) is explored on all abstract paths: a path that owns the end (it won the compare-and-swap on the trace) removes the trace from the active table, closes its profile, meters it once, sends its xlog as the discard decision says; other paths do nothing, and a running trace always gets there.",
		func(c *Ctx) {
			lraLemma(c, "table")
			tab := activeTable(c)
			if tab == "" {
				return
			}
			for _, fn := range endRoots(c) {
				c.Ob("end", FnName(fn))
				m := newLife(c, fn, "end", tab)
				e := m.e
				m.onClose = func(s *State, at string, tc, w *Term) { s.Set("w", fmt.Sprint(w.ID)) }
				e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
					if addr.Op == "fieldaddr" && addr.Aux == "DiscardType" && isNamedT(addr.Args[0].Typ, ndPkg, "XlogPack") {
						s.Set("D", fmt.Sprint(val.ID))
						s.Set("X", fmt.Sprint(addr.Args[0].ID))
					}
				}
				m.onMeter = func(s *State, at string, el, er *Term) {
					tc := m.tctxOf(s)
					if el.StripConv().Op != "call" || !strings.HasPrefix(el.StripConv().Aux, "MillisToNow@") {
						m.bad(s, at, "the time metered is not the service's elapsed time: "+el.String())
					}
					if tc == nil {
						return
					}
					isErr := e.TT.Not(e.eqInt(e.fieldAt(s, tc, "Error"), 0))
					if er != isErr && (e.Eval(s, er) == 0 || e.Eval(s, er) != e.Eval(s, isErr)) {
						m.bad(s, at, "the error flag metered is not whether the service failed: "+er.String())
					}
				}
				m.onXlog = func(s *State, at string, x *Term) {
					if s.Get("X") != fmt.Sprint(x.ID) {
						m.bad(s, at, "the xlog sent is not the trace's")
						return
					}
					s.Set("gx", fmt.Sprint(e.fieldAt(s, x, "Gxid").ID))
				}
				e.OnCall = func(s *State, k *Call) (*Term, bool) {
					if isFn(k.Fn, "common/util", "MillisToNow") {
						return e.TT.mk("call", "MillisToNow@"+k.Site, types.Typ[types.Int32], nil, k.Args...), true
					}
					return m.model(s, k)
				}
				e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
					at := c.W.At(in)
					m.atEnd(s, at)
					if !m.won(s) {
						return
					}
					if s.Get("D") == "" || s.Get("w") == "" {
						m.bad(s, at, "no xlog is made from the trace")
						return
					}
					D, w, tc := e.TT.list[atoi(s.Get("D"))], e.TT.list[atoi(s.Get("w"))], m.tctxOf(s)
					none := e.eqInt(D, 1)
					if w != none && (e.Eval(s, w) == 0 || e.Eval(s, w) != e.Eval(s, none)) {
						m.bad(s, at, "the profile is not written exactly when nothing is discarded: "+w.String())
					}
					want := e.outcomes(s, func(a *asker) string {
						sent := func(b bool) string { return map[bool]string{true: "sent", false: "dropped"}[b] }
						if a.cond(e.eqInt(D, 4)) {
							return sent(false)
						}
						if !a.cond(e.eqInt(D, 2)) {
							return sent(true)
						}
						g, t := e.fieldAt(s, tc, "Gxid"), e.fieldAt(s, tc, "Txid")
						return sent(!(a.cond(e.eqT(g, t)) || a.cond(e.eqInt(g, 0))))
					})
					got := "dropped"
					if s.Get("the xlog is sent") != "" {
						got = "sent"
					}
					if len(want) != 1 || want[0] != got {
						m.bad(s, at, "the xlog is "+got+" where the discard decision says "+strings.Join(want, " or "))
					}
				}
				e.Run(fn, m.ps, nil, nil)
				c.Use(e, FnName(fn))
			}
			c.Floor("end", 3)
		})

	register("C10", "The sampling decision is compared, path by path, with the documented table: for every abstract path through the end of a service, each completion of what the path knows (error, options, pattern matches, elapsed against steps, random draw against rates) must give the outcome the path has.",
		func(c *Ctx) {
			tab := activeTable(c)
			fields := patternFields(c)
			if tab == "" || fields == nil {
				return
			}
			for _, p := range []string{"XlogSamplingExcludePatterns", "XlogDiscardServicePatterns", "XlogPatternedSamplingServicePatterns", "XlogPatterned2SamplingServicePatterns", "XlogPatterned3SamplingServicePatterns"} {
				c.Check(fields[p] != "", "pattern-matcher", p, "-", "no matcher of the sampler is made from this pattern")
				if fields[p] == "" {
					return
				}
			}
			fn := c.Need(stPkg, "", "EndService")
			if fn == nil {
				return
			}
			m := newLife(c, fn, "decision", tab)
			m.sampler = true
			e := m.e
			rule := "decision"
			c.Ob(rule, FnName(fn))
			e.PureCall = func(f *ssa.Function) bool { return f.Name() == "IsMatch" && relPkg(FnPkg(f)) == "common/util" }
			e.Opaque = e.PureCall
			m.onClose = func(s *State, at string, tc, w *Term) { s.Set("w", fmt.Sprint(w.ID)) }
			e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
				if addr.Op == "fieldaddr" && addr.Aux == "DiscardType" && isNamedT(addr.Args[0].Typ, ndPkg, "XlogPack") {
					s.Set("D", fmt.Sprint(val.ID))
				}
			}
			e.OnCall = func(s *State, k *Call) (*Term, bool) {
				if isFn(k.Fn, "common/util", "MillisToNow") {
					return e.TT.mk("call", "MillisToNow@"+k.Site, types.Typ[types.Int32], nil, k.Args...), true
				}
				return m.model(s, k)
			}
			n := 0
			// A decision (or one step of it) that is already determined is summarised, so that paths can merge.
			name := func(t *Term) bool {
				return t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == "ServiceName" && isTctxT(t.Args[0].Args[0].Typ)
			}
			groups := []string{"XlogPatternedSampling", "XlogPatterned2Sampling", "XlogPatterned3Sampling", "XlogSampling"}
			drop := func(s *State, pred func(*Term) bool) {
				for id := range s.facts {
					t := e.TT.list[id]
					if !t.Mentions(pred) {
						continue
					}
					live := false // a value still in use keeps what is known about it
					for _, f := range s.frames {
						for v, x := range f.env {
							if (x == t || x.Mentions(func(y *Term) bool { return y == t })) && e.liveAt(f)[v] {
								live = true
							}
						}
					}
					if !live {
						delete(s.facts, id)
					}
				}
			}
			e.OnInstr = func(s *State, in ssa.Instruction) {
				r, ok := in.(*ssa.Return)
				if !ok || len(s.frames) == 1 || len(r.Results) != 1 || !isNamedT(r.Results[0].Type(), ndPkg, "XlogDiscardType") {
					return
				}
				for _, p := range groups {
					if s.Get("step:"+p) == "" {
						if o := e.outcomes(s, func(a *asker) string { return m.discardTable(s, fields, a, nil, name, p) }); len(o) == 1 {
							s.Set("step:"+p, o[0])
							drop(s, func(t *Term) bool {
								return isRand100(t) || t.Op == "call" && strings.HasPrefix(t.Aux, "MillisToNow@") || t.Op == "load" && isConfLoad(t, p+"OnlyProfile")
							})
						}
					}
				}
				if s.Get("sample") == "" {
					if o := e.outcomes(s, func(a *asker) string { return m.discardTable(s, fields, a, nil, name, "sample") }); len(o) == 1 {
						s.Set("sample", o[0])
						for _, p := range groups {
							s.Set("step:"+p, "")
						}
						drop(s, func(t *Term) bool {
							return t.Op == "load" && isConfLoad(t, t.Args[0].Aux) && t.Args[0].Aux != "XlogDiscardServicePatterns" && t.Args[0].Aux != "XlogDiscardServiceShowError" ||
								t.Op == "call" && strings.HasSuffix(t.Aux, "IsMatch") && !t.Args[0].Mentions(func(x *Term) bool { return x.Aux == fields["XlogDiscardServicePatterns"] }) ||
								isRand100(t) || t.Op == "call" && strings.HasPrefix(t.Aux, "MillisToNow@")
						})
					}
				}
			}
			e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
				if !m.won(s) {
					return
				}
				at := c.W.At(in)
				n++
				tc := m.tctxOf(s)
				if s.Get("D") == "" {
					m.bad(s, at, "no xlog is made from the trace")
					return
				}
				D := e.TT.list[atoi(s.Get("D"))]
				errT := e.fieldAt(s, tc, "Error")
				want := e.outcomes(s, func(a *asker) string { return m.discardTable(s, fields, a, errT, name, "") })
				got, ok := D.Int()
				if !ok {
					m.bad(s, at, "the decision is not one of the discard types: "+D.String())
					return
				}
				if len(want) != 1 || discardNum[want[0]] != got {
					m.bad(s, at, fmt.Sprintf("the service gets discard type %d where the table says %s", got, strings.Join(want, " or ")))
				}
			}
			e.Run(fn, m.ps, nil, nil)
			c.Use(e, FnName(fn))
			c.counts["decision_paths"] = n
			if n < 20 {
				c.Bad("floor", "decision paths", "-", fmt.Sprintf("only %d paths decided, dozens were confirmed", n))
			}
			c.Floor("pattern-matcher", 5)
		})
}
