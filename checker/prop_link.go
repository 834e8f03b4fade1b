package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ctxKeyTerm is the key under which a context carries its trace: what GetTraceContext looks up.
func ctxKeyTerm(c *Ctx, e *Engine) *Term {
	fn := c.Need(tmPkg, "", "GetTraceContext")
	if fn == nil {
		return nil
	}
	var key *Term
	e2 := NewEngine(c.W)
	e2.TT = e.TT
	e2.OnCall = func(s *State, k *Call) (*Term, bool) {
		if k.Method != nil && k.Fn == nil && k.Method.Name() == "Value" {
			key = k.Args[0]
		}
		return nil, false
	}
	e2.Run(fn, nil, nil, nil)
	c.Use(e2, FnName(fn))
	return key
}

// linkMon follows the creation of a trace by one of the start functions.
type linkMon struct {
	*traceMon
	tab   string
	value *Term
}

func newLink(c *Ctx, fn *ssa.Function, rule, tab string) *linkMon {
	m := &linkMon{traceMon: newTrace(c, fn, rule), tab: tab}
	m.onReg = func(s *State, at string, t, key, val *Term) {
		if !(t.Op == "load" && t.Args[0].Aux == tab) {
			return
		}
		tc := unboxS(val)
		if !isTctxT(tc.Typ) || tc.Op != "alloc" {
			m.bad(s, at, "something else than the new trace is registered: "+tc.String())
			return
		}
		if unboxS(key) != m.e.fieldAt(s, tc, "Txid") {
			m.bad(s, at, "the trace is registered under another id: "+unboxS(key).String())
		}
		if s.Get("reg") != "" {
			m.bad(s, at, "two traces are started")
		}
		s.Set("reg", fmt.Sprint(tc.ID))
	}
	return m
}

func (m *linkMon) newTctx(s *State) *Term {
	if id := s.Get("reg"); id != "" {
		return m.e.TT.list[atoi(id)]
	}
	return nil
}

// started checks a new trace as it is handed out.
func (m *linkMon) started(s *State, at string, base, ctx, tc, name, remote *Term, xtype int64) {
	e := m.e
	if !(ctx.Op == "call" && ctx.Aux == "WithValue" && ctx.Args[0] == base && unboxS(ctx.Args[2]) == tc) {
		m.bad(s, at, "the context handed out does not carry the new trace on top of the caller's context: "+ctx.String())
	} else if !m.sameKey(ctx.Args[1]) {
		m.bad(s, at, "the trace is stored under another key than it is looked up with: "+ctx.Args[1].String())
	}
	if id := e.fieldAt(s, tc, "Txid"); !(id.Op == "call" && strings.HasPrefix(id.Aux, "keygen.Next@")) {
		m.bad(s, at, "the trace has no generated id: "+id.String())
	}
	if t := e.fieldAt(s, tc, "StartTime"); !(t.Op == "call" && strings.HasPrefix(t.Aux, "time.Now")) {
		m.bad(s, at, "the start time is not now: "+t.String())
	}
	if p := e.fieldAt(s, tc, "Profile"); !(p.Op == "call" && p.Aux == "NewProfileCollector" && p.Args[0] == tc) {
		m.bad(s, at, "the trace has no profile of its own: "+p.String())
	}
	if v := e.fieldAt(s, tc, "ServiceName"); v != name && name != nil {
		m.bad(s, at, "the service name is "+v.String())
	}
	if v := e.fieldAt(s, tc, "ServiceHash"); !m.hash(v, m.text("SendServiceName", e.fieldAt(s, tc, "ServiceName")), s) {
		m.bad(s, at, "the service hash is not the name's: "+v.String())
	}
	if v := e.fieldAt(s, tc, "RemoteIp"); remote != nil && !v.Mentions(func(t *Term) bool { return t == remote }) {
		m.bad(s, at, "the client address is not the one given: "+v.String())
	}
	if xtype >= 0 {
		if v := e.fieldAt(s, tc, "XType"); !sameConst(v, xtype) {
			m.bad(s, at, fmt.Sprintf("the trace's type is %s, must be %d", v, xtype))
		}
	}
}

func (m *linkMon) sameKey(k *Term) bool {
	if m.value == nil {
		m.value = ctxKeyTerm(m.c, m.e)
	}
	return m.value == k
}

func (m *linkMon) ownGxid(s *State, at string, tc *Term) {
	e := m.e
	if g := e.fieldAt(s, tc, "Gxid"); g != e.fieldAt(s, tc, "Txid") {
		m.bad(s, at, "a new trace does not start its own group: gxid "+g.String())
	}
}

func (m *linkMon) run(ret func(s *State, at string, res []*Term)) {
	m.e.OnReturn = func(s *State, in *ssa.Return, res []*Term) { ret(s, m.c.W.At(in), res) }
	m.e.Run(m.fn, m.ps, nil, nil)
	m.c.Use(m.e, FnName(m.fn))
}

func (m *linkMon) nilCtx(s *State) bool { return m.e.IsNil(s, m.ps[0]) }

func init() {
	register("C13", "The functions that start traces are explored on all abstract paths (GoWithTrace with its goroutine): the context handed out, the registration, ids, names and every inherited field of the new trace, the parent's async step and the propagated headers are compared with what linking the transactions requires.",
		func(c *Ctx) {
			tab := activeTable(c)
			if tab == "" {
				return
			}
			startFn := func(name string, xtype int64, check func(m *linkMon, s *State, at string, tc *Term)) {
				fn := c.Need(stPkg, "", name)
				if fn == nil {
					return
				}
				m := newLink(c, fn, "start", tab)
				e := m.e
				n := 0
				m.run(func(s *State, at string, res []*Term) {
					tc := m.newTctx(s)
					if old := m.tctx(s); old != nil {
						if tc != nil {
							m.bad(s, at, "a second trace is started for a context that carries one")
						}
						if res[0] != m.ps[0] {
							m.bad(s, at, "a context that carries a trace is not returned as it is")
						}
						return
					}
					if e.IsNil(s, res[0]) || res[0] == m.ps[0] && m.nilCtx(s) {
						m.bad(s, at, "a nil context is returned")
					}
					if tc == nil {
						if name == "StartHttpService" && m.nilCtx(s) {
							return
						}
						m.bad(s, at, "no trace is started")
						return
					}
					n++
					if !m.untracked(s) && !m.nilCtx(s) {
						m.bad(s, at, "a trace is started without looking for one in the context")
					}
					base := m.ps[0]
					if m.nilCtx(s) {
						base = e.TT.mk("call", "Background", base.Typ, nil)
					}
					var nm, remote *Term
					if name == "StartService" {
						nm, remote = m.ps[1], m.ps[2]
					}
					m.started(s, at, base, res[0], tc, nm, remote, xtype)
					m.ownGxid(s, at, tc)
					if check != nil {
						check(m, s, at, tc)
					}
				})
				if n == 0 {
					c.Bad("start", FnName(fn), c.W.FnAt(fn), "no path starts a trace")
				}
			}
			startFn("StartService", 1, nil)
			startFn("StartHttpService", 0, func(m *linkMon, s *State, at string, tc *Term) {
				e := m.e
				req := m.ps[1]
				if v := e.fieldAt(s, tc, "HttpMethod"); !isFieldLoad(v, req, "Method") {
					m.bad(s, at, "the method is not the request's: "+v.String())
				}
				for f, g := range map[string]string{"UserAgent": "SendUserAgent", "Referer": "SendReferer"} {
					if v := e.fieldAt(s, tc, f); !(v.Op == "call" && v.Aux == g && v.Args[0].Op == "call" && v.Args[0].Aux == "http."+f && v.Args[0].Args[0] == req) {
						m.bad(s, at, fmt.Sprintf("the %s is not the hash of the request's: %s", f, v))
					}
				}
				nm := e.fieldAt(s, tc, "ServiceName")
				has := func(f string) bool {
					return m.mentionsDeep(s, nm, func(t *Term) bool { return t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == f })
				}
				if !has("Path") || !has("Method") {
					m.bad(s, at, "the service is not named after the request's path and method: "+nm.String())
				}
			})

			if fn := c.Need(stPkg, "", "StartNewInheritanceService"); fn != nil {
				m := newLink(c, fn, "inherit", tab)
				e := m.e
				par := m.ps[1]
				n := 0
				m.run(func(s *State, at string, res []*Term) {
					tc := m.newTctx(s)
					base := m.ps[0]
					if m.nilCtx(s) {
						base = e.TT.mk("call", "Background", base.Typ, nil)
					}
					if tc == nil {
						if !e.IsNil(s, par) {
							m.bad(s, at, "no trace is started")
						}
						if res[0] != base || !res[1].IsNil() {
							m.bad(s, at, "without a parent the caller's context is not returned")
						}
						return
					}
					n++
					if res[1] != tc {
						m.bad(s, at, "the trace returned is not the new one: "+res[1].String())
					}
					m.started(s, at, base, res[0], tc, m.old(par, "ServiceName"), m.old(par, "RemoteIp"), -1)
					for _, f := range []string{"Gxid", "XType", "IsStream", "Error", "HttpMethod", "HttpQuery", "HttpContentType", "SqlCount", "SqlTime", "Sqltext", "ApicallName", "ApicallCount", "ApicallTime", "ApicallTarget",
						"Userid", "UserAgent", "UserAgentString", "Referer", "Login", "Desc", "Text1", "Text2", "Text3", "Text4", "Text5"} {
						if v := e.fieldAt(s, tc, f); !isFieldLoad(v, par, f) {
							m.bad(s, at, fmt.Sprintf("%s is not the parent's: %s", f, v))
						}
					}
					if v := e.fieldAt(s, tc, "Caller"); !isFieldLoad(v, par, "Txid") {
						m.bad(s, at, "the caller is not the parent: "+v.String())
					}
					if v := e.fieldAt(s, tc, "CallerObjHash"); !isConfLoad(v, "ObjHash") {
						m.bad(s, at, "the caller's object is not this agent: "+v.String())
					}
					for _, f := range []string{"IsChildTx", "Inherit"} {
						if b, ok := e.fieldAt(s, tc, f).Bool(); !ok || !b {
							m.bad(s, at, "the trace is not marked as child: "+f)
						}
					}
				})
				if n == 0 {
					c.Bad("inherit", FnName(fn), c.W.FnAt(fn), "no path starts a trace")
				}
			}

			if fn := c.Need(stPkg, "", "GoWithTrace"); fn != nil {
				m := newLink(c, fn, "goroutine", tab)
				e := m.e
				e.GoInline = true
				n, ran := 0, 0
				m.onStep = func(s *State, at, op string, coll, step *Term) {
					par := m.tctx(s)
					if !isNamedT(step.Typ, ndPkg, "AsyncServiceStep") {
						return
					}
					if s.Async() {
						m.bad(s, at, "the parent's profile is changed from the new goroutine")
					}
					tc := m.newTctx(s)
					if par == nil || tc == nil || !isFieldLoad(coll, par, "Profile") || op != "Add" {
						m.bad(s, at, "the async step is not added to the parent's profile")
						return
					}
					if v := e.fieldAt(s, step, "Txid"); v != e.fieldAt(s, tc, "Txid") {
						m.bad(s, at, "the async step does not name the child: "+v.String())
					}
					if v := e.fieldAt(s, step, "Hash"); !m.hash(v, m.text("SendApicall", m.ps[1]), s) {
						m.bad(s, at, "the async step's hash is not the service name's: "+v.String())
					}
					s.Set("astep", s.Get("astep")+"1")
				}
				e.OnCall = func(s *State, k *Call) (*Term, bool) {
					if k.Defer && k.Fn != nil && c.W.reaches(k.Fn, isEndCall) {
						if e.Dry {
							return nil, true
						}
						at := c.W.At(k.Instr)
						tc := m.newTctx(s)
						ok := tc != nil
						if ok {
							ok = false
							for _, a := range append([]*Term{k.Recv}, k.Args...) {
								if a != nil && m.mentionsDeep(s, a, func(t *Term) bool { return t == tc }) {
									ok = true
								}
							}
						}
						if !ok {
							m.bad(s, at, "the trace ended with the goroutine is not the child")
						}
						if s.Get("run") == "" {
							m.bad(s, at, "the child is ended before the function ran")
						}
						s.Set("end", s.Get("end")+"1")
						return nil, true
					}
					return m.model(s, k)
				}
				m.onDyn = func(s *State, k *Call) {
					at := c.W.At(k.Instr)
					if k.Recv != m.ps[2] {
						return
					}
					ran++
					if !s.Async() {
						m.bad(s, at, "the function runs in the caller's goroutine")
					}
					s.Set("run", s.Get("run")+"1")
					if len(s.Get("run")) > 1 {
						m.bad(s, at, "the function runs more than once")
					}
					for i := len(s.frames) - 1; i >= 0; i-- {
						for _, d := range s.frames[i].defers {
							if d.fn != nil && d.fn.Fn != nil && callsRecover(d.fn.Fn) {
								m.bad(s, at, "a panic of the application's function would be swallowed")
							}
						}
						if s.frames[i].isGo {
							break
						}
					}
					tc, par := m.newTctx(s), m.tctx(s)
					if tc == nil {
						if par != nil {
							m.bad(s, at, "no child trace is started")
						} else if k.Args[0] != m.ps[0] {
							m.bad(s, at, "without a trace the caller's context is not passed on: "+k.Args[0].String())
						}
						return
					}
					n++
					m.started(s, at, m.ps[0], k.Args[0], tc, m.ps[1], nil, 4)
					if s.Get("astep") != "1" {
						m.bad(s, at, "the parent records no async step for the child")
					}
					if par == nil {
						m.bad(s, at, "a child is started without a parent")
						return
					}
					if v := e.fieldAt(s, tc, "Caller"); !isFieldLoad(v, par, "Txid") {
						m.bad(s, at, "the caller is not the parent: "+v.String())
					}
					g, pg := e.fieldAt(s, tc, "Gxid"), e.fieldAt(s, par, "Gxid")
					switch e.Eval(s, e.eqInt(m.old(par, "Gxid"), 0)) {
					case 1:
						if !isFieldLoad(g, par, "Txid") || !isFieldLoad(pg, par, "Txid") {
							m.bad(s, at, "a parent without group does not become the group: "+g.String())
						}
					case -1:
						if !isFieldLoad(g, par, "Gxid") || pg != m.old(par, "Gxid") {
							m.bad(s, at, "the child is not in the parent's group: "+g.String())
						}
					default:
						m.bad(s, at, "the group does not depend on the parent's: "+g.String())
					}
					if !s.hasDefer(func(d deferred) bool { return d.fn != nil && d.fn.Fn != nil && c.W.reaches(d.fn.Fn, isEndCall) }) {
						m.bad(s, at, "the child would not be ended when the function panics")
					}
				}
				m.run(func(s *State, at string, res []*Term) {
					if s.Get("run") != "1" {
						m.bad(s, at, "the function is not run")
					}
					if m.newTctx(s) != nil && s.Get("end") != "1" {
						m.bad(s, at, "the child is not ended exactly once")
					}
				})
				if n == 0 || ran == 0 {
					c.Bad("goroutine", FnName(fn), c.W.FnAt(fn), "no path runs the function with a child trace")
				}
			}

			if fn := c.Need(stPkg, "", "StartApiCallWithPropagation"); fn != nil {
				m := newLink(c, fn, "propagation", tab)
				e := m.e
				want := []string{"X-Scouter-Gxid", "X-Scouter-Caller", "X-Scouter-Callee", "X-Scouter-Caller-Obj"}
				m.onStep = func(s *State, at, op string, coll, step *Term) { s.Set("step", fmt.Sprint(step.ID)) }
				m.onHdr = func(s *State, at string, h, k, v *Term) {
					key, ok := k.Str()
					if !ok {
						m.bad(s, at, "a header with an unknown name is set: "+k.String())
						return
					}
					if !isFieldLoad(h, m.ps[1], "Header") {
						m.bad(s, at, "the headers changed are not the request's")
					}
					if s.Get("h:"+key) != "" {
						m.bad(s, at, "header "+key+" is set twice")
					}
					s.Set("h:"+key, fmt.Sprint(v.ID))
				}
				n := 0
				m.run(func(s *State, at string, res []*Term) {
					tc := m.tctx(s)
					if tc == nil || s.Get("step") == "" {
						return
					}
					if e.IsNil(s, m.ps[1]) {
						return
					}
					n++
					step := e.TT.list[atoi(s.Get("step"))]
					is32 := func(v, x *Term) bool { return v.Op == "call" && v.Aux == "IntToXlogString32" && v.Args[0] == x }
					for _, h := range want {
						id := s.Get("h:" + h)
						if id == "" {
							m.bad(s, at, "header "+h+" is not set")
							continue
						}
						v := e.TT.list[atoi(id)]
						ok := false
						switch h {
						case "X-Scouter-Gxid":
							ok = is32(v, e.fieldAt(s, tc, "Gxid"))
							if z := e.Eval(s, e.eqInt(m.old(tc, "Gxid"), 0)); z == 0 || z > 0 && !isFieldLoad(e.fieldAt(s, tc, "Gxid"), tc, "Txid") || z < 0 && e.fieldAt(s, tc, "Gxid") != m.old(tc, "Gxid") {
								ok = false
							}
						case "X-Scouter-Caller":
							ok = is32(v, e.fieldAt(s, tc, "Txid"))
						case "X-Scouter-Callee":
							ok = is32(v, e.fieldAt(s, step, "Txid"))
						case "X-Scouter-Caller-Obj":
							ok = v.Op == "call" && strings.HasPrefix(v.Aux, "strconv.") && v.Mentions(func(t *Term) bool { return t.Op == "load" && isConfLoad(t, "ObjHash") })
							if len(v.Args) > 1 {
								if b, isI := v.Args[1].Int(); !isI || b != 10 {
									ok = false
								}
							}
						}
						if !ok {
							m.bad(s, at, "header "+h+" carries "+v.String())
						}
					}
				})
				if n == 0 {
					c.Bad("propagation", FnName(fn), c.W.FnAt(fn), "no path sets headers")
				}
			}
			c.Floor("start", 2)
		})
}

// isEndCall: the instruction calls the active-table removal (the end of a trace).
func isEndCall(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n, ok := methodOn(ci.Common().StaticCallee(), lraPkg, "Cache")
	return ok && n == "Remove"
}

// callsRecover: the function itself stops a panic when deferred.
func callsRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (s *State) hasDefer(pred func(d deferred) bool) bool {
	for _, f := range s.frames {
		for _, d := range f.defers {
			if pred(d) {
				return true
			}
		}
	}
	return false
}

// mentionsDeep looks through slices built on the stack (strings.Join arguments) as well.
func (m *traceMon) mentionsDeep(s *State, t *Term, pred func(*Term) bool) bool {
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		if pred(t) {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		if t.Op == "alloc" {
			for _, cl := range s.store {
				if baseOf(cl.addr) == t && walk(cl.val) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}
