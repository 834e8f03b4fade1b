package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: the tracing calls without a trace, and with nil arguments.

type nilMon struct {
	c    *Ctx
	e    *Engine
	fn   *ssa.Function
	rule string
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map:
		return true
	}
	return false
}

const nilAll = -2

func isStep(t types.Type) bool {
	return isNamedT(deref(t), ndPkg, "MethodStep") || isNamedT(deref(t), ndPkg, "ApiCallStep")
}

// mayBeNil: an argument callers may leave nil. The step AddStep records and
// the request StartHttpService serves have to be given.
func mayBeNil(fn *ssa.Function, i int) bool {
	t := fn.Params[i].Type()
	switch {
	case !isPtrLike(t), ctxT(t), types.IsInterface(t) && !isErrType(t):
		return false
	}
	return fn.Name() != "StartHttpService"
}

// runNil explores fn with the parameters given; traced is what the context carries.
func runNil(c *Ctx, fn *ssa.Function, rule string, ctx int, ctxNil bool, traced bool, nilArg int, effects bool) {
	w := c.W
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	e.GoInline = true
	e.Opaque = func(f *ssa.Function) bool {
		p := relPkg(FnPkg(f))
		return p != stPkg && p != tmPkg
	}
	ps := e.Params(fn)
	nilT := func(t types.Type) *Term { return e.TT.mk("nil", "", nil, nil) }
	if ctxNil {
		ps[ctx] = nilT(fn.Params[ctx].Type())
	}
	if nilArg >= 0 {
		ps[nilArg] = nilT(fn.Params[nilArg].Type())
	}
	if nilArg == nilAll {
		for i := range fn.Params {
			if mayBeNil(fn, i) {
				ps[i] = nilT(fn.Params[i].Type())
			}
		}
	}
	bad := func(s *State, at, msg string) {
		if !e.Dry {
			c.Bad(rule, FnName(fn), at, msg, s.Trace()...)
		}
	}
	tctxT := types.NewPointer(w.Type(nioPkg, "TraceContext"))
	with := func() string {
		switch {
		case nilArg == nilAll && ctxNil:
			return "with a nil context and nil arguments"
		case nilArg == nilAll:
			return "without a trace and with nil arguments"
		case nilArg >= 0:
			return "with nil for " + fn.Params[nilArg].Name()
		case ctxNil:
			return "with a nil context"
		}
		return "without a trace"
	}()
	local := func(t *Term) bool {
		for t.Op == "fieldaddr" || t.Op == "indexaddr" || t.Op == "slice" {
			t = t.Args[0]
		}
		return t.Op == "alloc" || t.Op == "make" || t.Op == "call" && strings.HasPrefix(t.Aux, "own ")
	}
	effect := func(s *State, at, what string) {
		if effects {
			bad(s, at, with+" it still "+what)
		}
	}
	// a context known not to be nil
	good := func(t *Term) bool {
		t = unboxS(t)
		return t.Op == "call" && strings.HasPrefix(t.Aux, "ctx ") || !ctxNil && t == ps[ctx]
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		at := w.At(k.Instr)
		var rt types.Type
		if v := k.Instr.Value(); v != nil {
			rt = v.Type()
		}
		if k.Kind == "builtin" {
			return nil, false
		}
		if k.Fn == nil {
			if k.Method != nil && k.Method.Name() == "Value" && k.Recv != nil && ctxT(k.Method.Type().(*types.Signature).Recv().Type()) {
				if !ctxNil && unboxS(k.Recv) == ps[ctx] || k.Recv == ps[ctx] {
					if traced {
						t := e.TT.mk("call", "trace", tctxT, nil)
						e.Assume(s, e.TT.Bin(token.EQL, t, nilT(nil), types.Typ[types.Bool]), false, k.Site)
						return e.TT.mk("iface", "", tctxT, nil, t), true
					}
					return nilT(nil), true
				}
				return nilT(nil), true
			}
			if k.Recv != nil && k.Recv.Op == "param" && isFuncType(k.Recv.Typ) {
				s.Set("user", s.Get("user")+"1")
				for i, a := range k.Args {
					if ctxT(fnParam(k, i)) {
						if a != ps[ctx] && !ctxNil && !e.IsNil(s, ps[ctx]) || ctxNil && !a.IsNil() && !good(a) {
							bad(s, at, with+" the function does not get the context given but "+a.String())
						}
					}
				}
				return nil, true
			}
			return nil, false
		}
		f := k.Fn
		if isExt(f, "context", "Background") || isExt(f, "context", "TODO") || isExt(f, "context", "WithValue") {
			return e.TT.mk("call", "ctx "+f.Name()+"@"+k.Site, rt, nil, k.Args...), true
		}
		p := relPkg(FnPkg(f))
		switch {
		case p == "common" || p == "common/logger" || p == confPkg:
			return nil, false
		case p == nioPkg || p == ctrPkg || p == usPkg || p == lraPkg && f.Name() != "Get" && f.Name() != "Contains" || p == kgPkg:
			if n := f.Name(); strings.HasPrefix(n, "Get") {
				return nil, false
			}
			effect(s, at, "calls "+FnName(f))
		case isExtMethod(f, "net/http", "Header", "Add") || isExtMethod(f, "net/http", "Header", "Set") || isExtMethod(f, "net/http", "Header", "Del"):
			effect(s, at, "changes the header of the request")
		}
		return nil, false
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if !local(addr) {
			effect(s, w.At(in), "changes "+addr.String())
		}
	}
	e.OnMapSet = func(s *State, in ssa.Instruction, m, k, v *Term) {
		if !local(m) {
			effect(s, w.At(in), "changes "+m.String())
		}
	}
	e.OnInstr = func(s *State, in ssa.Instruction) {
		if e.Dry {
			return
		}
		var x ssa.Value
		what := "follows a nil pointer"
		switch i := in.(type) {
		case *ssa.FieldAddr:
			x = i.X
		case *ssa.UnOp:
			if i.Op.String() == "*" {
				x = i.X
			}
		case *ssa.Store:
			x = i.Addr
		case ssa.CallInstruction:
			cc := i.Common()
			if cc.IsInvoke() {
				x = cc.Value
				what = "calls " + cc.Method.Name() + " of nil"
			} else if _, ok := cc.Value.(*ssa.Builtin); !ok && cc.StaticCallee() == nil {
				x = cc.Value
				what = "calls a nil function"
			} else if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(cc.Args) > 0 && len(g.Blocks) > 0 {
				// a method that reads its receiver
				if _, ptr := g.Signature.Recv().Type().(*types.Pointer); ptr && !w.InRepo(g) && usesRecv(g) {
					x = cc.Args[0]
					what = "calls " + g.Name() + " of nil"
				}
			}
		case *ssa.MapUpdate:
			x = i.Map
			what = "writes to a nil map"
		}
		if x == nil {
			return
		}
		if _, ok := x.(*ssa.Global); ok {
			return
		}
		if _, ok := x.(*ssa.Alloc); ok {
			return
		}
		if t := e.val(s, s.top(), x); e.IsNil(s, t) {
			bad(s, w.At(in), with+" it "+what)
		}
	}
	user := -1
	for i, p := range fn.Params {
		if isFuncType(p.Type()) {
			user = i
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		at := w.At(in)
		c.Ob(rule, with+" "+FnName(fn)+fmt.Sprint(s.Trace()))
		if user >= 0 && effects && s.Get("user") != "1" {
			bad(s, at, fmt.Sprintf("%s the function given is called %d times", with, len(s.Get("user"))))
		}
		for i, r := range res {
			t := fn.Signature.Results().At(i).Type()
			switch {
			case ctxT(t):
				if !good(r) && !e.NonNil(s, r) {
					bad(s, at, with+" the context returned may be nil: "+r.String())
				}
				if effects && nilArg >= 0 && !ctxNil && !e.IsNil(s, ps[ctx]) && r != ps[ctx] {
					bad(s, at, with+" not the context given is returned")
				}
			case effects:
				zero := r.IsNil()
				if b, ok := r.Bool(); ok && !b {
					zero = true
				}
				if e.Eval(s, r) < 0 && isBoolT(t) || isPtrLike(t) && e.IsNil(s, r) {
					zero = true
				}
				if !zero {
					bad(s, at, with+" it returns "+r.String())
				}
			}
		}
	}
	e.Run(fn, ps, nil, nil)
	c.Use(e, FnName(fn))
}

func fnParam(k *Call, i int) types.Type {
	sig, ok := k.Recv.Typ.Underlying().(*types.Signature)
	if !ok || i >= sig.Params().Len() {
		return types.Typ[types.Invalid]
	}
	return sig.Params().At(i).Type()
}

// usesRecv: the method touches its receiver at all.
func usesRecv(g *ssa.Function) bool {
	return len(g.Params) > 0 && len(*g.Params[0].Referrers()) > 0
}

func init() {
	register("C26", "Every exported tracing call is explored once with a nil context, once with a context that carries no trace, and once with each pointer it may be given set to nil; on every path, nil is never followed, and where there is nothing to trace no record, counter, table, request or other memory outside the call is touched.", func(c *Ctx) {
		api := tracingAPI(c.W)
		for _, n := range []string{"StartHttpService", "EndHttpService", "StartService", "EndService", "GoWithTrace", "StartMethod", "EndMethod", "StartApiCall", "EndApiCall", "AddMessageStep"} {
			c.Need(stPkg, "", n)
		}
		for _, fn := range api {
			ctx, starts := -1, false
			for i, p := range fn.Params {
				if ctxT(p.Type()) {
					ctx = i
					break
				}
			}
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				starts = starts || ctxT(fn.Signature.Results().At(i).Type())
			}
			for _, n := range []int{-1, nilAll} {
				if n == nilAll && !slices.ContainsFunc(fn.Params, func(p *ssa.Parameter) bool { return mayBeNil(fn, slices.Index(fn.Params, p)) }) {
					continue
				}
				runNil(c, fn, "nil-context", ctx, true, false, n, !starts)
				if !starts {
					runNil(c, fn, "no-trace", ctx, false, false, n, true)
				}
			}
			for i, p := range fn.Params {
				if !mayBeNil(fn, i) {
					continue
				}
				parent := isNamedT(deref(p.Type()), nioPkg, "TraceContext")
				runNil(c, fn, "nil-argument", ctx, false, true, i, isStep(p.Type()) || parent)
			}
		}
		c.Floor("nil-context", 20)
		c.Floor("no-trace", 16)
		c.Floor("nil-argument", 6)
	})
}
