package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: the count of active services by elapsed time, and what happens to stuck ones.

type activeMon struct {
	c     *Ctx
	e     *Engine
	fn    *ssa.Function
	table string
	hooks map[string]bool // variables a stuck handler is registered in
	quiet bool
	class map[string]int    // counter identity -> class
	delta map[string]string // loop variable -> its step, when always the same
	init  map[string]int64  // loop variable -> first value
	vals  *Term
	isN   map[string]bool
}

const activeMax = 2000

func (m *activeMon) bad(s *State, at, msg string) {
	if !m.e.Dry && !m.quiet {
		m.c.Bad("classify", FnName(m.fn), at, msg, s.Trace()...)
	}
}

// item: the trace of this iteration.
func (m *activeMon) item(s *State, t *Term) bool {
	t = unassert(t.Strip())
	if t.Op == "load" && t.Args[0].Op == "indexaddr" {
		b := t.Args[0].Args[0]
		for b.Op == "slice" {
			b = b.Args[0]
		}
		return b == m.vals && fmt.Sprint(toPoly(t.Args[0].Args[1], nil)) == s.Get("idx")
	}
	return false
}

func (m *activeMon) run() {
	e, c := m.e, m.c
	w := c.W
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	e.Opaque = func(f *ssa.Function) bool { return relPkg(FnPkg(f)) != tmPkg }
	start := func(t *Term) *Term {
		if t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == "StartTime" && isTctxT(deref(t.Args[0].Args[0].Typ)) {
			return t.Args[0].Args[0]
		}
		return nil
	}
	ns := func(k *Call, now, from *Term) (*Term, bool) {
		if !strings.HasPrefix(now.Aux, "time.Now@") {
			return nil, false
		}
		tr := start(from)
		if tr == nil {
			return nil, false
		}
		return e.TT.mk("call", "elapsedns", k.Instr.Value().Type(), nil, tr), true
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		f := k.Fn
		at := w.At(k.Instr)
		if f == nil {
			if k.Recv != nil && m.hooks[globalOf(k.Recv)] {
				s.Set("hook", s.Get("hook")+"1")
				if !m.item(s, k.Args[0]) {
					m.bad(s, at, "the handler of stuck services is not given the stuck service: "+k.Args[0].String())
				}
				return nil, true
			}
			return nil, false
		}
		var rt types.Type
		if v := k.Instr.Value(); v != nil {
			rt = v.Type()
		}
		if n, ok := methodOn(f, lraPkg, "Cache"); ok && n == "GetValues" {
			if globalOf(k.Args[0]) == m.table {
				return m.vals, true
			}
			return nil, false
		}
		switch {
		case isExt(f, "time", "Now"):
			r := e.TT.mk("call", "time.Now@"+k.Site, rt, nil)
			e.forget(s, r)
			return r, true
		case isExt(f, "time", "Since"):
			if tr := start(k.Args[0]); tr != nil {
				return e.TT.mk("call", "elapsedns", rt, nil, tr), true
			}
		case isExtMethod(f, "time", "Time", "Sub"):
			return ns(k, k.Args[0], k.Args[1])
		case isExtMethod(f, "time", "Duration", "Milliseconds"):
			return e.TT.Bin(token.QUO, k.Args[0], e.intT(1000000), rt), true
		case isFn(f, nioPkg, "SendAlert"):
			lv, ok := k.Args[0].StripConv().Int()
			name := ""
			if ok {
				name = map[int64]string{constOf(w, ndPkg, "AlertError"): "error", constOf(w, ndPkg, "AlertWarn"): "warn"}[lv]
			}
			if name == "" {
				// chosen before
				name = "?"
			}
			if v, ok := k.Args[1].Str(); !ok || v != "STUCK_SERVICE" {
				name = "other"
			}
			s.Set("alert", s.Get("alert")+name+" ")
			if !k.Args[2].Mentions(func(x *Term) bool {
				return x.Op == "load" && x.Args[0].Op == "fieldaddr" && x.Args[0].Aux == "ServiceName" && m.item(s, x.Args[0].Args[0])
			}) {
				m.bad(s, at, "the alert does not name the stuck service")
			}
			return nil, true
		}
		return nil, false
	}
	inc := func(s *State, id string, d poly) {
		if len(d) == 0 {
			return
		}
		s.Set("inc", s.Get("inc")+fmt.Sprintf("%s by %v;", id, d))
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if e.Dry || addr.Op != "indexaddr" {
			return
		}
		if a, ok := deref(addr.Args[0].Typ).Underlying().(*types.Array); !ok || a.Len() != 3 {
			return
		}
		d := toPoly(val, nil).add(toPoly(m.cell(s, addr), nil), -1)
		i, ok := addr.Args[1].StripConv().Int()
		id := fmt.Sprintf("a%d:%d", addr.Args[0].ID, i)
		if !ok {
			id = "a counter not known"
		}
		if s.Get("loop") == "in" {
			inc(s, id, d)
		}
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		kind, count, _ := e.LoopIf(s, in, cond, taken)
		if kind != "iter" && kind != "done" || count == nil {
			return
		}
		full := count.Op == "len" && count.Args[0] == m.vals
		if x := count.Strip(); x.Op == "len" && x.Args[0].Op == "slice" && x.Args[0].Args[0] == m.vals && x.Args[0].Args[3].Op == "none" && len(x.Args[0].Args) == 4 {
			if sl := x.Args[0]; sl.Args[1].Op == "none" {
				if k, ok := sl.Args[2].Int(); ok && k >= activeMax {
					full = true
				}
			}
		}
		if k, ok := count.Int(); ok && k >= activeMax {
			full = true
		}
		if !full {
			return
		}
		if kind == "done" {
			s.Set("loop", "done")
			return
		}
		s.Set("loop", "in")
		x := cond
		if x.Op == "not" {
			x = x.Args[0]
		}
		if _, fixed := count.Int(); !fixed || s.Get("idx") == "" {
			s.Set("idx", fmt.Sprint(toPoly(x.Args[0], nil)))
		}
	}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		for p, v := range phis {
			d := toPoly(v, nil).add(toPoly(p, nil), -1)
			id := "v" + p.String()
			if !back {
				if k, ok := v.Int(); ok {
					m.init[id] = k
				}
				continue
			}
			if o, ok := m.delta[id]; ok && o != fmt.Sprint(d) {
				m.delta[id] = "varies"
			} else {
				m.delta[id] = fmt.Sprint(d)
			}
			if _, ok := m.class[id]; ok && s.Get("loop") == "in" {
				inc(s, id, d)
			}
		}
		if !back || s.Get("loop") != "in" {
			return
		}
		m.iteration(s, w.FnAt(m.fn))
		for _, k := range []string{"loop", "inc", "hook", "alert", "idx"} {
			s.Set(k, "")
		}
		// the next service starts without knowledge of the settings
		for id := range s.facts {
			if t := e.TT.list[id]; t.Mentions(func(x *Term) bool { return x.Op == "load" && (m.hooks[globalOf(x)] || x.Args[0].Op == "fieldaddr") }) {
				delete(s.facts, id)
			}
		}
	}
	// a helper that returns the counts
	e.OnInstr = func(s *State, in ssa.Instruction) {
		if r, ok := in.(*ssa.Return); ok && len(s.frames) > 1 && len(r.Results) == 1 && types.Identical(r.Results[0].Type(), m.fn.Signature.Results().At(0).Type()) {
			if u, ok := r.Results[0].(*ssa.UnOp); ok && u.Op == token.MUL {
				s.Set("arr", fmt.Sprint(e.val(s, s.top(), u.X).ID))
			}
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		at := w.At(in)
		switch s.Get("loop") {
		case "done":
		case "in":
			if !m.bounded(s) {
				m.bad(s, at, fmt.Sprintf("services are left out although there are less than %d", activeMax))
			}
		default:
			if lo := e.Ival(s, e.TT.mk("len", "", types.Typ[types.Int], nil, m.vals)); lo.hi != 0 && !m.bounded(s) {
				m.bad(s, at, "the active services are not counted")
			}
			return
		}
		var arr *Term
		if u, ok := in.Results[0].(*ssa.UnOp); ok {
			arr = e.val(s, s.top(), u.X)
		} else if s.Get("arr") != "" {
			arr = e.TT.list[atoi(s.Get("arr"))]
		}
		if arr == nil {
			m.bad(s, at, "the counts returned are not understood")
			return
		}
		for i := int64(0); i < 3; i++ {
			cell := m.cell(s, e.TT.mk("indexaddr", "", nil, nil, arr, e.intT(i)))
			if arr.Op == "alloc" {
				for _, cl := range s.store {
					if cl.addr.Op == "indexaddr" && cl.addr.Args[0] == arr {
						if k, ok := cl.addr.Args[1].Int(); ok && k == i {
							cell = cl.val
						}
					}
				}
			}
			id := fmt.Sprintf("a%d:%d", arr.ID, i)
			if cell != nil && cell.Op == "phi" {
				id = "v" + cell.String()
			}
			if o, ok := m.class[id]; ok && o != int(i) {
				m.bad(s, at, "two counts are the same")
			}
			m.class[id] = int(i)
		}
	}
	m.class, m.delta, m.init = map[string]int{}, map[string]string{}, map[string]int64{}
	m.quiet = true
	e.Run(m.fn, nil, nil, nil)
	m.quiet = false
	e.Run(m.fn, nil, nil, nil)
	c.Use(e, FnName(m.fn))
}

// cell: the value of an array element now.
func (m *activeMon) cell(s *State, addr *Term) *Term {
	for _, cl := range s.store {
		if cl.addr.Op == "indexaddr" && cl.addr.Args[0] == addr.Args[0] && cl.addr.Args[1].StripConv() == addr.Args[1].StripConv() {
			return cl.val
		}
	}
	if cl, ok := s.store[addr.Args[0].ID]; ok && cl.val.Op != "zero" {
		return m.e.TT.mk("index", "", types.Typ[types.Int64], nil, cl.val, addr.Args[1])
	}
	return m.e.intT(0)
}

// bounded: a variable that counts iterations has reached the bound.
func (m *activeMon) bounded(s *State) bool {
	for id, f := range s.facts {
		found := false
		t := m.e.TT.list[id]
		var q poly
		if t.Op == "bin" && len(t.Args) == 2 && f.truth != 0 {
			q = toPoly(t.Args[0], nil).add(toPoly(t.Args[1], nil), -1)
			if t.Aux == "<" && f.truth < 0 {
				q = polyConst(-1).add(q, -1)
			} else if t.Aux != "<" && (t.Aux != "==" || f.truth < 0) {
				q = nil
			}
		}
		t.Mentions(func(x *Term) bool {
			if x.Op == "phi" || x.Op == "loopcell" {
				k := "v" + x.String()
				if i, ok := m.init[k]; ok && m.delta[k] == fmt.Sprint(polyConst(1)) {
					if m.e.Ival(s, x).lo-i >= activeMax {
						found = true
					}
					if q == nil {
						return false
					}
					// q < 0 or q == 0, with q = d - x
					for mono, d := range q.add(toPoly(x, nil), 1) {
						if mono != "" || len(q.add(toPoly(x, nil), 1)) != 1 {
							return false
						}
						if t.Aux == "<" {
							d++
						}
						if d-i >= activeMax {
							found = true
						}
					}
				}
			}
			return false
		})
		if found {
			return true
		}
	}
	return false
}

func (m *activeMon) iteration(s *State, at string) {
	e := m.e
	if !m.quiet {
		m.c.Ob("iteration", fmt.Sprint(s.Trace()))
	}
	isEl := func(t *Term) bool {
		t = t.StripConv()
		return t.Op == "bin" && t.Aux == "/" && sameConst(t.Args[1].StripConv(), 1000000) && t.Args[0].StripConv().Aux == "elapsedns" && m.item(s, t.Args[0].StripConv().Args[0])
	}
	conf := func(n string) func(*Term) bool { return func(t *Term) bool { return isConfLoad(t, n) } }
	over := func(n string) func(*State) int { return e.less(conf(n), isEl) }
	want := e.outcomes(s, func(a *asker) string {
		r := "2"
		if !a.atom("yellow", over("TraceActiveserviceYellowTime")) {
			r = "0"
		} else if !a.atom("red", over("TraceActiveserviceRedTime")) {
			r = "1"
		}
		if !a.atom("stuck", over("StuckServiceBaseTimeMs")) {
			return r
		}
		if a.atom("hook", func(s *State) int {
			for id := range s.facts {
				t := e.TT.list[id]
				if m.hooks[globalOf(t)] {
					if e.IsNil(s, t) {
						return -1
					}
					if e.NonNil(s, t) {
						return 1
					}
				}
			}
			return 0
		}) {
			r += " hook"
		}
		if a.atom("as-error", e.confTruth("StuckServiceAlertEnabled")) {
			return r + " error"
		}
		return r + " warn"
	})
	got := ""
	for _, p := range strings.Split(strings.TrimSuffix(s.Get("inc"), ";"), ";") {
		f := strings.SplitN(p, " by ", 2)
		if k, ok := m.class[f[0]]; ok {
			if len(f) != 2 || f[1] != fmt.Sprint(polyConst(1)) {
				m.bad(s, at, "a service is not counted as one: "+p)
			}
			got += fmt.Sprintf("%d ", k)
		} else if strings.HasPrefix(f[0], "a counter") {
			got += "? "
		}
	}
	if s.Get("hook") != "" {
		got += strings.Repeat("hook ", len(s.Get("hook")))
	}
	got = strings.TrimSpace(got + s.Get("alert"))
	if len(want) != 1 || want[0] != got {
		m.bad(s, at, fmt.Sprintf("a service that should be %v is %q (class 0 up to the yellow time, 1 up to the red time, 2 over it; handler and alert when stuck)", want, got))
	}
}

func constOf(w *World, pkg, name string) int64 {
	if sp := w.SSA[rootPkg+"/"+pkg]; sp != nil {
		if k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
			v, _ := constant.Int64Val(k.Val())
			return v
		}
	}
	return -1 << 40
}

// sendAlert: an alert is sent as it was given.
func sendAlert(c *Ctx) {
	fn := c.Need(nioPkg, "", "SendAlert")
	if fn == nil {
		return
	}
	w := c.W
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	par := func(i int) *Term { return e.TT.mk("param", fmt.Sprintf("p%d", i), fn.Params[i].Type(), nil) }
	bad := func(s *State, at, msg string) { c.Bad("alert", FnName(fn), at, msg, s.Trace()...) }
	send := func(s *State, at string, p *Term) {
		if e.Dry {
			return
		}
		s.Set("sent", s.Get("sent")+"1")
		o := unboxS(p)
		if !isNamedT(o.Typ, ndPkg, "AlertPack") {
			bad(s, at, "what is sent is no alert")
			return
		}
		for f, ok := range map[string]func(v *Term) bool{
			"Level":   func(v *Term) bool { return v.StripConv() == par(0) },
			"Title":   func(v *Term) bool { return v == par(1) },
			"Message": func(v *Term) bool { return v == par(2) },
			"ObjType": func(v *Term) bool { return isConfLoad(v, "ObjType") },
			"ObjHash": func(v *Term) bool { return isConfLoad(v, "ObjHash") },
		} {
			if v := e.fieldAt(s, o, f); v == nil || !ok(v) {
				bad(s, at, fmt.Sprintf("%s of the alert is %v", f, v))
			}
		}
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if n, ok := methodOn(k.Fn, usPkg, "UDPSender"); ok && (n == "SendPackDirect" || n == "AddPack") {
			send(s, w.At(k.Instr), k.Args[1])
			return nil, true
		}
		if isFn(k.Fn, usPkg, "GetInstance") {
			return e.TT.mk("call", "sender", k.Instr.Value().Type(), nil), true
		}
		return nil, false
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		c.Ob("alert", fmt.Sprint(s.Trace()))
		n := len(s.Get("sent"))
		empty := e.Ival(s, e.TT.mk("len", "", types.Typ[types.Int], nil, par(1)))
		switch {
		case empty.lo > 0 && n != 1:
			bad(s, w.At(in), fmt.Sprintf("an alert with a title is sent %d times", n))
		case empty.hi == 0 && n != 0:
			bad(s, w.At(in), "an alert without a title is sent")
		case empty.lo <= 0 && empty.hi > 0 && n != 1:
			bad(s, w.At(in), "an alert is not sent")
		}
	}
	e.Run(fn, nil, nil, nil)
	c.Use(e, FnName(fn))
}

func init() {
	register("C32", "The counting of active services is explored for every kind of iteration: which count grows, whether the stuck handler is called and which alert is sent are compared with a decision table over the elapsed time and the configured limits; every service up to the bound has to be visited, and alerts are followed to the pack sent.", func(c *Ctx) {
		fn := c.Need(tmPkg, "", "GetActiveCount")
		if fn == nil {
			return
		}
		m := &activeMon{c: c, e: NewEngine(c.W), fn: fn, table: activeTable(c), hooks: map[string]bool{}}
		reg := c.Need(tmPkg, "", "RegisterEndStuckServiceForciblyFunc")
		if reg == nil {
			return
		}
		kept := map[ssa.Value]bool{}
		var keep func(v ssa.Value)
		keep = func(v ssa.Value) {
			if kept[v] || v.Referrers() == nil {
				return
			}
			kept[v] = true
			for _, in := range *v.Referrers() {
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok && x.Val == v {
						m.hooks[relPkg(g.Pkg.Pkg.Path())+"."+g.Name()] = true
					}
				case ssa.CallInstruction:
					if f := x.Common().StaticCallee(); f != nil && c.W.InRepo(f) {
						for i, a := range x.Common().Args {
							if a == v && i < len(f.Params) {
								keep(f.Params[i])
							}
						}
					}
				case *ssa.ChangeType:
					keep(x)
				}
			}
		}
		keep(reg.Params[0])
		if len(m.hooks) == 0 {
			c.Bad("classify", FnName(reg), c.W.FnAt(reg), "the handler registered for stuck services is not kept")
		}
		m.vals = m.e.TT.mk("call", "active services", types.NewSlice(types.NewInterfaceType(nil, nil)), nil)
		m.run()
		sendAlert(c)
		lraLemma(c, "table")
		c.Floor("iteration", 5)
		c.Floor("alert", 2)
	})
}
