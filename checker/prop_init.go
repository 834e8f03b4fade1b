package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Run-once initialisers and the start of the agent.

// doSite is one use of a sync.Once.
type doSite struct {
	once string // the variable (or field) of the Once
	in   *ssa.Function
	at   ssa.Instruction
	fns  []*ssa.Function // what it runs
}

func onceSites(w *World, lw *lockWorld) []doSite {
	var r []doSite
	for _, f := range w.Funcs {
		fr := &lockFrame{lw: lw, fn: f}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || FnPkg(g) != "sync" || g.Name() != "Do" || len(ci.Common().Args) != 2 {
					continue
				}
				once := ""
				switch x := ci.Common().Args[0].(type) {
				case *ssa.Global:
					once = relPkg(x.Pkg.Pkg.Path()) + "." + x.Name()
				case *ssa.FieldAddr:
					once = typeName(x.X.Type()) + "." + fieldNameOf(x)
				default:
					once = "a local Once of " + FnName(f)
				}
				r = append(r, doSite{once, f, in, fr.funcs(ci.Common().Args[1])})
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].at.Pos() < r[j].at.Pos() })
	return r
}

func fieldNameOf(x *ssa.FieldAddr) string {
	if st, ok := deref(x.X.Type()).Underlying().(*types.Struct); ok {
		return st.Field(x.Field).Name()
	}
	return ""
}

type onceWorld struct {
	w     *World
	lw    *lockWorld
	sites []doSite
	reach map[*ssa.Function]map[*ssa.Function]bool
}

// staticReach: the functions a function runs itself (no goroutines, no interface calls).
func (ow *onceWorld) staticReach(f *ssa.Function) map[*ssa.Function]bool {
	if r := ow.reach[f]; r != nil {
		return r
	}
	r := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if g == nil || r[g] || !ow.w.InRepo(g) || g.Blocks == nil {
			return
		}
		r[g] = true
		fr := &lockFrame{lw: ow.lw, fn: g}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				c := ci.Common()
				if t := unbindCall(c); t != nil {
					walk(t)
				} else if !c.IsInvoke() {
					for _, t := range fr.funcs(c.Value) {
						walk(t)
					}
				}
				for _, a := range c.Args {
					if isFuncType(a.Type()) {
						if t := c.StaticCallee(); t != nil && (!ow.w.InRepo(t) || t.Blocks == nil) {
							for _, h := range fr.funcs(a) {
								walk(h)
							}
						}
					}
				}
			}
		}
	}
	walk(f)
	ow.reach[f] = r
	return r
}

// ensures: every return of f comes after the Once ran.
func (ow *onceWorld) ensures(f *ssa.Function, once string, seen map[*ssa.Function]bool) bool {
	if f == nil || f.Blocks == nil || seen[f] {
		return false
	}
	seen[f] = true
	defer delete(seen, f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ow.isEnsuring(in, once, seen) && always(b) {
				return true
			}
		}
	}
	return false
}

func (ow *onceWorld) isEnsuring(in ssa.Instruction, once string, seen map[*ssa.Function]bool) bool {
	for _, s := range ow.sites {
		if s.at == in && s.once == once {
			return true
		}
	}
	if c, ok := in.(*ssa.Call); ok {
		if g := c.Call.StaticCallee(); g != nil && ow.w.InRepo(g) {
			return ow.ensures(g, once, seen)
		}
	}
	return false
}

// ready: what the Once sets up is there when the instruction runs.
func (ow *onceWorld) ready(in ssa.Instruction, once string, g *ssa.Global, seen map[*ssa.Function]bool) bool {
	f := in.Parent()
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if i != in && before(i, in) {
				if ow.isEnsuring(i, once, map[*ssa.Function]bool{}) {
					return true
				}
				if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					return true
				}
			}
		}
	}
	if seen[f] {
		return true
	}
	seen[f] = true
	// set up when the package is loaded
	if g.Pkg != nil {
		for _, h := range ow.w.Funcs {
			if h.Pkg == g.Pkg && (h.Name() == "init" || len(h.Name()) > 5 && h.Name()[:5] == "init#") && ow.ensures(h, once, map[*ssa.Function]bool{}) {
				return true
			}
		}
		if h := g.Pkg.Func("init"); h != nil {
			for _, b := range h.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok {
						if t := c.Call.StaticCallee(); t != nil && t.Pkg == g.Pkg && t.Name() != "init" && ow.ensures(t, once, map[*ssa.Function]bool{}) {
							return true
						}
					}
				}
			}
		}
	}
	// every use of the function comes later
	if f.Parent() == nil && ast.IsExported(f.Name()) && f.Signature.Recv() == nil {
		return false
	}
	n := 0
	for _, h := range ow.w.Funcs {
		for _, b := range h.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if o == nil || *o == nil {
						continue
					}
					fv, ok := (*o).(*ssa.Function)
					if !ok || fv != f && unbind(fv) != f {
						continue
					}
					n++
					if !ow.ready(i, once, g, seen) {
						return false
					}
				}
			}
		}
	}
	if recv := f.Signature.Recv(); recv != nil && n == 0 {
		return true
	}
	return n > 0
}

// ---- what a start does

type startEvent struct {
	at   ssa.Instruction
	in   *ssa.Function
	call *ssa.CallCommon
	fr   *lockFrame
	sure bool
	once bool
	loop bool
}

// startCalls: every call the function makes itself, with those of its run-once initialisers and the
// functions of the repository it calls.
func startCalls(ow *onceWorld, f *ssa.Function, stop func(g *ssa.Function) bool) []startEvent {
	cw := newContain(ow.w)
	var r []startEvent
	var walk func(f *ssa.Function, fr *lockFrame, sure, once, loop bool, path map[*ssa.Function]bool)
	walk = func(f *ssa.Function, fr *lockFrame, sure, once, loop bool, path map[*ssa.Function]bool) {
		if f == nil || path[f] || f.Blocks == nil || !ow.w.InRepo(f) {
			return
		}
		path[f] = true
		defer delete(path, f)
		if fr == nil {
			fr = &lockFrame{lw: ow.lw, fn: f}
		}
		for _, b := range f.Blocks {
			if b == f.Recover {
				continue
			}
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				s := sure && always(b)
				l := loop || inLoop(b)
				r = append(r, startEvent{in, f, &x.Call, fr, s, once, l})
				g := x.Call.StaticCallee()
				if g != nil && FnPkg(g) == "sync" && g.Name() == "Do" {
					for _, h := range fr.funcs(x.Call.Args[1]) {
						walk(h, nil, s, true, false, path)
					}
					continue
				}
				var ts []*ssa.Function
				if g != nil {
					ts = []*ssa.Function{unbind(g)}
				} else if !x.Call.IsInvoke() {
					ts = fr.funcs(x.Call.Value)
				}
				for _, t := range ts {
					if !stop(t) {
						walk(t, cw.bind(fr, t, &x.Call), s && len(ts) == 1, once, l, path)
					} else if g == nil {
						// each entry of a table is run once
						cc := ssa.CallCommon{Value: t, Args: x.Call.Args}
						r = append(r, startEvent{in, f, &cc, fr, s, once, loop || l && !fromTable(x.Call.Value)})
					}
				}
			}
		}
	}
	walk(f, nil, true, false, false, map[*ssa.Function]bool{})
	return r
}

// fromTable: the function is an element of a table written in the function.
func fromTable(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	base := ia.X
	if sl, ok := base.(*ssa.Slice); ok {
		base = sl.X
	}
	_, ok = base.(*ssa.Alloc)
	return ok
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

func init() {
	register("C37", "Over all uses of sync.Once: each Once runs one initialiser only and it does not wait for itself (a static call path back to the same Once); the variables the initialiser sets are stored nowhere else; every read of them is dominated by the Once having run (in the function, in all uses of the function, or when the package is loaded). No function hands out a variable that it fills itself without a Once or a lock.", func(c *Ctx) {
		w := c.W
		lw := theLocks(w)
		ow := &onceWorld{w: w, lw: lw, sites: onceSites(w, lw), reach: map[*ssa.Function]map[*ssa.Function]bool{}}
		byOnce := map[string]map[*ssa.Function]bool{}
		at := map[string]string{}
		for _, s := range ow.sites {
			if byOnce[s.once] == nil {
				byOnce[s.once] = map[*ssa.Function]bool{}
			}
			at[s.once] = w.At(s.at)
			c.Fn(s.in)
			if len(s.fns) == 0 {
				byOnce[s.once][nil] = true
			}
			for _, f := range s.fns {
				byOnce[s.once][f] = true
				c.Fn(f)
			}
		}
		owner := map[*ssa.Global]string{} // variable -> its Once
		for _, o := range sortedKeys(byOnce) {
			fns := byOnce[o]
			c.Check(len(fns) == 1, "one-initialiser", o, at[o], fmt.Sprintf("%d different initialisers share one Once: only the first to come runs", len(fns)))
			re := ""
			for f := range fns {
				if f == nil {
					continue
				}
				for g := range ow.staticReach(f) {
					for _, s := range ow.sites {
						if s.in == g && s.once == o {
							re = FnName(g) + " at " + w.At(s.at)
						}
					}
				}
			}
			c.Check(re == "", "no-re-entry", o, at[o], "the initialiser waits for itself: it calls "+re)
			for f := range fns {
				if f == nil {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if g, ok := st.Addr.(*ssa.Global); ok {
								owner[g] = o
							}
						}
						// a constructor helper
						if ci, ok := in.(*ssa.Call); ok {
							if h := ci.Call.StaticCallee(); h != nil && w.InRepo(h) && h.Pkg == f.Pkg && h.Blocks != nil && onlyCalledFrom(w, h, f) {
								for _, hb := range h.Blocks {
									for _, hi := range hb.Instrs {
										if st, ok := hi.(*ssa.Store); ok {
											if g, ok := st.Addr.(*ssa.Global); ok {
												owner[g] = o
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}
		// variables the initialiser sets, used elsewhere
		var gs []*ssa.Global
		for g := range owner {
			gs = append(gs, g)
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].Pos() < gs[j].Pos() })
		pointer := func(g *ssa.Global) bool {
			switch deref(g.Type()).Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Signature, *types.Slice:
				return true
			}
			return false
		}
		for _, g := range gs {
			o := owner[g]
			name := relPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
			if !pointer(g) {
				continue
			}
			for _, f := range w.Funcs {
				inInit := false
				for h := range byOnce[o] {
					if h != nil && (f == h || onlyCalledFrom(w, f, h)) {
						inInit = true
					}
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						switch x := in.(type) {
						case *ssa.Store:
							if x.Addr == ssa.Value(g) && !inInit {
								c.Bad("set-once", name+" in "+FnName(f), w.At(in), "what "+o+" sets up once is replaced here")
							}
						case *ssa.UnOp:
							if x.Op == token.MUL && x.X == ssa.Value(g) {
								c.Check(inInit || ow.ready(in, o, g, map[*ssa.Function]bool{}), "ready", name+" in "+FnName(f), w.At(in), "used although "+o+" may not have run")
							}
						}
					}
				}
			}
			c.Ob("set-once", name)
		}
		// shared instances made without a Once
		for _, f := range w.Funcs {
			if f.Parent() != nil || f.Signature.Recv() != nil || f.Synthetic != "" {
				continue
			}
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || b == f.Recover {
					continue
				}
				for _, v := range ret.Results {
					u, ok := v.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						continue
					}
					g, ok := u.X.(*ssa.Global)
					if !ok || g.Pkg != f.Pkg || !pointer(g) {
						continue
					}
					name := FnName(f) + " returns " + g.Name()
					c.Ob("shared-instance", name)
					if owner[g] != "" {
						continue
					}
					for h := range ow.staticReach(f) {
						for _, hb := range h.Blocks {
							for _, hi := range hb.Instrs {
								if st, ok := hi.(*ssa.Store); ok && st.Addr == ssa.Value(g) && h.Name() != "init" && !underLock(h, g) {
									c.Bad("shared-instance", name, w.At(hi), "every caller that finds it missing makes one of its own: there is no Once")
								}
							}
						}
					}
				}
			}
		}
		c.Floor("one-initialiser", 5)
		c.Floor("no-re-entry", 5)
		c.Floor("set-once", 4)
		c.Floor("ready", 4)
		c.Floor("shared-instance", 3)
	})
	register("C38", "A call-graph walk from Init through its run-once initialiser decides that each step of the start of the agent is taken exactly once, on every path, inside the Once: the hook that reports panics, the handler for stuck services, the announcement of the object and of changed names, and the background tasks. Nothing else in the repository takes one of these steps, and loading the package runs Init.", func(c *Ctx) {
		w := c.W
		lw := theLocks(w)
		ow := &onceWorld{w: w, lw: lw, sites: onceSites(w, lw), reach: map[*ssa.Function]map[*ssa.Function]bool{}}
		init := c.Need("", "", "Init")
		steps := []struct {
			pkg, name, what string
			arg             func(fr *lockFrame, v ssa.Value) string // what it must be given
			exclusive       bool
		}{
			{"common", "RegisterSendPanicF", "reports of panics", func(fr *lockFrame, v ssa.Value) string {
				for _, g := range fr.funcs(v) {
					if ow.w.reaches(g, func(in ssa.Instruction) bool {
						return callsNamed(in, nioPkg, "SendAlert") || callsNamed(in, usPkg, "AddPack")
					}) {
						return ""
					}
				}
				return "what is registered sends no alert"
			}, true},
			{tmPkg, "RegisterEndStuckServiceForciblyFunc", "handling of stuck services", func(fr *lockFrame, v ssa.Value) string {
				for _, g := range fr.funcs(v) {
					if ow.w.reaches(g, func(in ssa.Instruction) bool { return callsNamed(in, tmPkg, "End") }) {
						return ""
					}
				}
				return "what is registered does not end the service"
			}, true},
			{cfPkg, "AddObjChangedObserver", "announcement of a changed object name", func(fr *lockFrame, v ssa.Value) string {
				mi, ok := v.(*ssa.MakeInterface)
				if !ok {
					return ""
				}
				for _, g := range w.Funcs {
					if rc := g.Signature.Recv(); rc != nil && g.Name() == "Run" && types.Identical(deref(rc.Type()), deref(mi.X.Type())) {
						if ow.w.reaches(g, func(in ssa.Instruction) bool { return callsNamed(in, nioPkg, "SendObjName") }) {
							return ""
						}
					}
				}
				return "what is registered does not send the object name"
			}, true},
			{tcpPkg, "StartTcp", "connection for commands", nil, true},
			{"task/agenttask", "Start", "announcement of the object", nil, true},
			{"task/countertask", "Start", "counters", nil, true},
		}
		targets := map[*ssa.Function]int{}
		var fns []*ssa.Function
		for i, s := range steps {
			f := c.Need(s.pkg, "", s.name)
			fns = append(fns, f)
			if f != nil {
				targets[f] = i
			}
		}
		if init == nil {
			return
		}
		conf := c.Need(cfPkg, "", "GetInstance")
		evs := startCalls(ow, init, func(g *ssa.Function) bool {
			_, ok := targets[g]
			return ok || g == conf || relPkg(FnPkg(g)) == cfPkg || relPkg(FnPkg(g)) == "common/logger"
		})
		hits := map[int][]startEvent{}
		confs := 0
		mine := map[ssa.Instruction]bool{}
		for _, e := range evs {
			c.Fn(e.in)
			g := e.call.StaticCallee()
			if g == nil {
				continue
			}
			if g == conf && e.sure {
				confs++
			}
			if i, ok := targets[g]; ok {
				hits[i] = append(hits[i], e)
				mine[e.at] = true
			}
		}
		for i, s := range steps {
			f := fns[i]
			if f == nil {
				continue
			}
			con := "start of " + s.what
			es := hits[i]
			switch {
			case len(es) == 0:
				c.Bad("step", con, w.FnAt(init), "Init never calls "+FnName(f))
			case len(es) > 1:
				c.Bad("step", con, w.At(es[1].at), fmt.Sprintf("%s is called %d times", FnName(f), len(es)))
			case es[0].loop:
				c.Bad("step", con, w.At(es[0].at), FnName(f)+" is called in a loop")
			case !es[0].sure:
				c.Bad("step", con, w.At(es[0].at), FnName(f)+" is not called on every path")
			case !es[0].once:
				c.Bad("step", con, w.At(es[0].at), FnName(f)+" is called again by every call of Init")
			default:
				why := ""
				if s.arg != nil && len(es[0].call.Args) > 0 {
					why = s.arg(es[0].fr, es[0].call.Args[0])
				}
				c.Check(why == "", "step", con, w.At(es[0].at), why)
			}
			for _, h := range w.Funcs {
				for _, b := range h.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && unbindCall(ci.Common()) == f && !mine[in] {
							c.Bad("elsewhere", con+" in "+FnName(h), w.At(in), "taken a second time outside the start of the agent")
						}
					}
				}
			}
		}
		c.Check(confs > 0 || len(hits) == len(steps), "step", "start of the configuration", w.FnAt(init), "Init does not load the configuration")
		// loading the package starts the agent
		loads := false
		for _, f := range w.Funcs {
			if f.Pkg == init.Pkg && (f.Name() == "init" || len(f.Name()) > 5 && f.Name()[:5] == "init#") && f.Parent() == nil {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(*ssa.Call); ok && ci.Call.StaticCallee() == init && always(b) {
							loads = true
						}
					}
				}
			}
		}
		c.Check(loads, "load", "loading the package", w.FnAt(init), "loading the package does not run Init")
		c.Floor("step", 7)
	})
}

// underLock: the function takes a lock before it looks at the variable.
func underLock(h *ssa.Function, g *ssa.Global) bool {
	var lock ssa.Instruction
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				if t := ci.Call.StaticCallee(); t != nil && FnPkg(t) == "sync" && t.Name() == "Lock" && (lock == nil || before(in, lock)) {
					lock = in
				}
			}
		}
	}
	if lock == nil {
		return false
	}
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if o != nil && *o == ssa.Value(g) && !before(lock, in) {
					return false
				}
			}
		}
	}
	return true
}

func callsNamed(in ssa.Instruction, pkg, name string) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	g := ci.Common().StaticCallee()
	return g != nil && g.Name() == name && relPkg(FnPkg(g)) == pkg
}

// onlyCalledFrom: h is an unexported function that only f uses.
func onlyCalledFrom(w *World, h, f *ssa.Function) bool {
	if ast.IsExported(h.Name()) || h == f {
		return false
	}
	n := 0
	for _, g := range w.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if o != nil && *o == ssa.Value(h) {
						if g != f {
							return false
						}
						n++
					}
				}
			}
		}
	}
	return n > 0
}
