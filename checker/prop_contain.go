package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Containment of panics: which functions may let one escape, judged by the recovering functions
// they defer and by what runs outside their reach.

// recovers directly: Go only stops a panic when the deferred function itself calls recover.
func directRecover(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				if bi, ok := ci.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// alwaysRecovers: every path of the function calls recover, and does not panic on.
func alwaysRecovers(f *ssa.Function) bool {
	if !directRecover(f) {
		return false
	}
	var rec ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				if bi, ok := ci.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" && (rec == nil || before(in, rec)) {
					rec = in
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Return:
				if !before(rec, in) {
					return false
				}
			case *ssa.Panic:
				return false
			}
		}
	}
	return true
}

type containWorld struct {
	w    *World
	lw   *lockWorld
	memo map[*ssa.Function]string // "" contained, else why not
	busy map[*ssa.Function]bool
	user map[*ssa.Function]bool // functions whose own function parameters belong to the user
	fns  map[*ssa.Function]bool
}

func newContain(w *World) *containWorld {
	return &containWorld{w: w, lw: theLocks(w), memo: map[*ssa.Function]string{}, busy: map[*ssa.Function]bool{}, user: map[*ssa.Function]bool{}, fns: map[*ssa.Function]bool{}}
}

// deferTarget: the function a defer statement runs.
func deferTarget(d *ssa.Defer) *ssa.Function {
	if d.Call.IsInvoke() {
		return nil
	}
	if g := d.Call.StaticCallee(); g != nil {
		return unbind(g)
	}
	if g := unbind(d.Call.Value); g != nil {
		return g
	}
	// the function another one returned
	if c, ok := d.Call.Value.(*ssa.Call); ok {
		if g := c.Call.StaticCallee(); g != nil && g.Blocks != nil {
			var r *ssa.Function
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					h := unbind(ret.Results[0])
					if h == nil || r != nil && r != h {
						return nil
					}
					r = h
				}
			}
			return r
		}
	}
	return nil
}

func (cw *containWorld) guards(f *ssa.Function) []*ssa.Defer {
	var r []*ssa.Defer
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if g := deferTarget(d); g != nil && alwaysRecovers(g) {
					r = append(r, d)
				}
			}
		}
	}
	return r
}

// escapes says why a panic may leave f, or "".
func (cw *containWorld) escapes(f *ssa.Function) string { return cw.escapes2(f, nil) }

func (cw *containWorld) escapes2(f *ssa.Function, fr *lockFrame) string {
	if fr == nil {
		if r, ok := cw.memo[f]; ok {
			return r
		}
	}
	if cw.busy[f] {
		return ""
	}
	cw.busy[f] = true
	defer delete(cw.busy, f)
	cw.fns[f] = true
	if fr == nil {
		fr = &lockFrame{lw: cw.lw, fn: f}
	}
	gs := cw.guards(f)
	why := ""
	for _, b := range f.Blocks {
		if b == f.Recover {
			continue
		}
		for _, in := range b.Instrs {
			if why != "" {
				break
			}
			covered := false
			for _, d := range gs {
				if ssa.Instruction(d) != in && before(d, in) {
					covered = true
				}
			}
			if covered {
				continue
			}
			if d, ok := in.(*ssa.Defer); ok {
				// it runs after the guards below it, or without any
				g := deferTarget(d)
				switch {
				case g != nil && alwaysRecovers(g):
					why = cw.reporter(g)
				case g == nil || !cw.w.InRepo(g) || g.Blocks == nil:
					if d.Call.IsInvoke() {
						why = "a deferred call runs outside the guard"
					}
				default:
					why = cw.escapes2(g, cw.bind(fr, g, &d.Call))
				}
			} else {
				why = cw.mayPanic(fr, in)
			}
			if why != "" && !strings.Contains(why, " at ") {
				why += " at " + cw.w.At(in)
			}
		}
	}
	if len(fr.bind) == 0 {
		cw.memo[f] = why
	}
	return why
}

// bind: what the callee knows about the function values it is given.
func (cw *containWorld) bind(fr *lockFrame, g *ssa.Function, c *ssa.CallCommon) *lockFrame {
	n := &lockFrame{lw: cw.lw, fn: g, bind: map[ssa.Value]bound{}}
	if c == nil {
		return nil
	}
	for i, p := range g.Params {
		if i < len(c.Args) && isFuncType(p.Type()) {
			n.bind[p] = fr.boundOf(c.Args[i])
		}
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok && len(mc.Bindings) == len(g.FreeVars) {
		for i, fv := range g.FreeVars {
			if isFuncType(fv.Type()) {
				n.bind[fv] = fr.boundOf(mc.Bindings[i])
			}
		}
	}
	if len(n.bind) == 0 {
		return nil
	}
	return n
}

// reporter: what a recovering function does afterwards must not panic again.
func (cw *containWorld) reporter(f *ssa.Function) string {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) string
	rec = func(g *ssa.Function) string {
		if seen[g] {
			return ""
		}
		seen[g] = true
		cw.fns[g] = true
		if len(cw.guards(g)) > 0 {
			return cw.escapes(g)
		}
		fr := &lockFrame{lw: cw.lw, fn: g}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Panic:
					return "the reporter of panics panics itself at " + cw.w.At(in)
				case *ssa.TypeAssert:
					if !x.CommaOk {
						return "the reporter of panics asserts the type of what it caught at " + cw.w.At(in)
					}
				case *ssa.Call:
					c := &x.Call
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					if h := c.StaticCallee(); h != nil {
						if cw.w.InRepo(h) && h.Blocks != nil {
							if why := rec(h); why != "" {
								return why
							}
						}
						continue
					}
					var ts []*ssa.Function
					if c.IsInvoke() {
						if c.Method.Name() == "Error" || c.Method.Name() == "String" {
							return "the reporter of panics calls a method of what it caught at " + cw.w.At(in)
						}
						continue
					}
					ts = fr.funcs(c.Value)
					if l, _ := addrOfLoad(fr, c.Value); l != "" {
						ts = append(ts, cw.registered(l)...)
					}
					for _, t := range ts {
						if why := cw.escapes(t); why != "" {
							return "the reporter of panics calls " + FnName(t) + ", which may panic: " + why
						}
					}
				}
			}
		}
		return ""
	}
	return rec(f)
}

func addrOfLoad(fr *lockFrame, v ssa.Value) (string, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return fr.addrLoc(u.X)
	}
	return "", false
}

// registered: functions given to a function that keeps them in the variable.
func (cw *containWorld) registered(l string) []*ssa.Function { return cw.lw.stored[l] }

// closes: some channel of the element type is closed in the repository.
func (w *World) closes(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return true
	}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						if c, ok := ci.Common().Args[0].Type().Underlying().(*types.Chan); !ok || types.Identical(c.Elem(), ch.Elem()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// mayPanic says why an instruction outside any guard may panic.
func (cw *containWorld) mayPanic(fr *lockFrame, in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Panic:
		return "panics"
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return "a type assertion may fail"
		}
	case *ssa.IndexAddr:
		if _, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			if _, ok := x.Index.(*ssa.Const); ok {
				return ""
			}
		}
		if b, ok := x.Index.(*ssa.BinOp); ok && b.Op == token.ADD {
			if p, ok := b.X.(*ssa.Phi); ok && p.Comment == "rangeindex" {
				return "" // the index of a range loop over this very value
			}
		}
		return "an index may be out of range"
	case *ssa.Index:
		return "an index may be out of range"
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			return ""
		}
		if _, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			return ""
		}
		return "slice bounds may be out of range"
	case *ssa.MapUpdate:
		return "an assignment to a map that may be nil"
	case *ssa.Send:
		if !cw.w.closes(x.Chan.Type()) {
			return "" // nothing ever closes a channel of this type
		}
		return "a send on a channel that may be closed"
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isIntT(x.X.Type()) {
			if c, ok := x.Y.(*ssa.Const); !ok || c.Value == nil || constant.Sign(c.Value) == 0 {
				return "a division that may be by zero"
			}
		}
	case *ssa.FieldAddr:
		if p, ok := x.X.(*ssa.Parameter); ok && cw.user[p.Parent()] && !nonNilAt(p, in.Block()) {
			return "a pointer the application gives, which may be nil, is followed"
		}
		return nilWhy(x.X, in)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return nilWhy(x.X, in)
		}
	case *ssa.Call:
		return cw.callPanics(fr, &x.Call, in)
	}
	return ""
}

// nilWhy: a pointer from somewhere else that nobody compared with nil.
func nilWhy(p ssa.Value, at ssa.Instruction) string {
	switch x := p.(type) {
	case *ssa.UnOp, *ssa.Call, *ssa.Extract, *ssa.Lookup:
		if u, ok := x.(*ssa.UnOp); ok {
			if _, ok := u.X.(*ssa.Alloc); ok {
				return ""
			}
			if fv, ok := u.X.(*ssa.FreeVar); ok && fv != nil {
				return ""
			}
			if _, ok := u.X.(*ssa.Global); ok {
				return ""
			}
		}
		if x.Referrers() != nil {
			for _, r := range *x.Referrers() {
				if bo, ok := r.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
					return ""
				}
			}
		}
		return "a pointer that may be nil is followed"
	}
	return ""
}

func (cw *containWorld) callPanics(fr *lockFrame, c *ssa.CallCommon, in ssa.Instruction) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "close" || b.Name() == "panic" {
			return b.Name() + " may panic"
		}
		return ""
	}
	if c.IsInvoke() {
		if c.Method.Pkg() == nil { // error
			return "a method of an unknown type may panic"
		}
		ts := cw.lw.impls(c)
		if p := c.Method.Pkg().Path(); !strings.HasPrefix(p, modPath) || len(ts) == 0 {
			return "a method of an unknown type may panic"
		}
		for _, t := range ts {
			if why := cw.escapes(t); why != "" {
				return "calls " + FnName(t) + ": " + why
			}
		}
		return ""
	}
	if g := c.StaticCallee(); g != nil {
		if cw.w.InRepo(g) && g.Blocks != nil {
			if why := cw.escapes2(g, cw.bind(fr, g, c)); why != "" {
				return "calls " + FnName(g) + ": " + why
			}
			return ""
		}
		if strings.HasPrefix(g.Name(), "Must") {
			return "calls " + g.Name() + ", which panics on errors"
		}
		for _, a := range c.Args {
			if isFuncType(a.Type()) {
				for _, t := range fr.funcs(a) {
					if why := cw.escapes(t); why != "" {
						return "runs " + FnName(t) + ": " + why
					}
				}
			}
		}
		return ""
	}
	ts := fr.funcs(c.Value)
	if len(ts) == 0 {
		if cw.users(fr.fn, c.Value) {
			return "" // the user's own function
		}
		return "calls a function that is not known"
	}
	for _, t := range ts {
		if why := cw.escapes(t); why != "" {
			return "calls " + FnName(t) + ": " + why
		}
	}
	return ""
}

// users: the function value is a parameter of a function of the tracing interface.
func (cw *containWorld) users(f *ssa.Function, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		return cw.users(f, x.X)
	case *ssa.Alloc: // a captured parameter
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) && cw.users(f, st.Val) {
				return true
			}
		}
	case *ssa.Parameter:
		if cw.user[x.Parent()] {
			return true
		}
		// handed on by one
		fn, idx := x.Parent(), -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		n := 0
		for _, h := range cw.w.Funcs {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && unbindCall(ci.Common()) == fn && !ci.Common().IsInvoke() && idx < len(ci.Common().Args) {
						n++
						if !cw.users(h, ci.Common().Args[idx]) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.FreeVar:
		p := x.Parent().Parent()
		if p == nil {
			return false
		}
		for i, fv := range x.Parent().FreeVars {
			if fv != x {
				continue
			}
			for _, b := range p.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(x.Parent()) {
						return cw.users(p, mc.Bindings[i])
					}
				}
			}
		}
	}
	return false
}

func unbindCall(c *ssa.CallCommon) *ssa.Function {
	if g := c.StaticCallee(); g != nil {
		return unbind(g)
	}
	return nil
}

func ctxT(t types.Type) bool { return t.String() == "context.Context" }

// tracingAPI: the functions an application calls.
func tracingAPI(w *World) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() != nil || !ast.IsExported(f.Name()) || relPkg(FnPkg(f)) != stPkg {
			continue
		}
		if ps := f.Signature.Params(); ps.Len() > 0 && ctxT(ps.At(0).Type()) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return FnName(r[i]) < FnName(r[j]) })
	return r
}

// kills: calls that end or reconfigure the host process.
func kills(g *ssa.Function) string {
	p, n := FnPkg(g), g.Name()
	recv := ""
	if rc := g.Signature.Recv(); rc != nil {
		if nm, ok := deref(rc.Type()).(*types.Named); ok {
			recv = nm.Obj().Name()
		}
	}
	switch {
	case p == "os" && n == "Exit", p == "syscall" && (n == "Exit" || n == "Kill" || n == "Exec" || n == "Tgkill"):
		return "ends the process"
	case p == "log" && (strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic")):
		return "ends the process"
	case p == "runtime" && n == "Goexit":
		return "ends the goroutine"
	case p == "os" && recv == "Process" && (n == "Kill" || n == "Signal"):
		return "ends a process"
	case p == "os/signal":
		return "changes how the process handles signals"
	case p == "os" && (n == "Chdir" || n == "Setenv" || n == "Unsetenv" || n == "Clearenv"), p == "syscall" && n == "Chdir":
		return "changes the environment of the process"
	case p == "runtime" && n == "GOMAXPROCS", p == "runtime/debug" && (strings.HasPrefix(n, "SetMax") || strings.HasPrefix(n, "SetMemory") || n == "SetGCPercent" || n == "SetPanicOnFault"):
		return "changes the runtime of the process"
	case p == "log" && recv == "" && strings.HasPrefix(n, "Set"):
		return "changes the standard logger of the process"
	case p == "net/http" && recv == "" && (n == "Handle" || n == "HandleFunc"):
		return "changes the default HTTP handler of the process"
	}
	return ""
}

// afterPanic: the context a start function returns after a recovered panic.
func afterPanic(c *Ctx, cw *containWorld, f *ssa.Function) {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if !ctxT(res.At(i).Type()) {
			continue
		}
		con := FnName(f)
		if f.Recover == nil {
			c.Check(len(cw.guards(f)) == 0, "after-panic", con, c.W.FnAt(f), "returns no context after a recovered panic")
			continue
		}
		// the variable the recovered return gives back
		var cellv *ssa.Alloc
		for _, in := range f.Recover.Instrs {
			if r, ok := in.(*ssa.Return); ok && i < len(r.Results) {
				if u, ok := r.Results[i].(*ssa.UnOp); ok {
					cellv, _ = u.X.(*ssa.Alloc)
				}
			}
		}
		if cellv == nil {
			c.Bad("after-panic", con, c.W.FnAt(f), "returns no context after a recovered panic")
			continue
		}
		c.Ob("after-panic", con)
		type st struct {
			set  bool
			from ssa.Value // the variable or parameter the context was copied from
		}
		// source: where a context value was read
		source := func(v ssa.Value) ssa.Value {
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				return u.X
			}
			return v
		}
		at := map[*ssa.BasicBlock]*st{f.Blocks[0]: {}}
		fr := &lockFrame{lw: cw.lw, fn: f}
		var bad ssa.Instruction
		why := ""
		for ch := true; ch; {
			ch = false
			for _, b := range f.Blocks {
				if at[b] == nil {
					continue
				}
				s := *at[b]
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.Store); ok && x.Addr == ssa.Value(cellv) {
						s = st{ctxSet(x.Val, x, map[ssa.Value]bool{}), source(x.Val)}
						continue
					}
					if !s.set {
						if _, ok := in.(*ssa.Defer); ok {
							continue
						}
						if w := cw.mayPanic(fr, in); w != "" {
							bad, why = in, w
						}
					}
				}
				for k, n := range b.Succs {
					o := s
					if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
						if bo, ok := i.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL && k == 1 || bo.Op == token.NEQ && k == 0) {
							v := source(bo.X)
							if c, ok := bo.X.(*ssa.Const); ok && c.IsNil() {
								v = source(bo.Y)
							} else if c, ok := bo.Y.(*ssa.Const); !ok || !c.IsNil() {
								v = nil
							}
							if v != nil && (v == ssa.Value(cellv) || v == s.from) {
								o.set = true
							}
						}
					}
					old := at[n]
					if old == nil {
						at[n] = &st{o.set, o.from}
						ch = true
						continue
					}
					if old.set && !o.set {
						old.set = false
						ch = true
					}
					if old.from != nil && old.from != o.from {
						old.from = nil
						ch = true
					}
				}
			}
		}
		if bad != nil {
			c.Bad("after-panic", con, c.W.At(bad), "when this panics ("+why+") the caller gets a nil context")
		}
	}
}

// ctxSet: the context is not nil here.
func ctxSet(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.Parameter:
		return nonNilAt(x, at.Block())
	case *ssa.UnOp: // a parameter kept in a variable
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					if _, isP := st.Val.(*ssa.Parameter); !isP && !ctxSet(st.Val, st, seen) {
						return false
					}
				}
			}
			// some test of the variable leads here
			for _, b := range at.Parent().Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(a) && nonNilTest(u, at.Block()) {
						return true
					}
				}
			}
			return false
		}
		return true
	case *ssa.Phi:
		for i, e := range x.Edges {
			if p, ok := e.(*ssa.Parameter); ok {
				if nonNilAt(p, x.Block().Preds[i]) || nonNilEdge(p, x.Block().Preds[i], x.Block()) {
					continue
				}
				return false
			}
			if !ctxSet(e, at, seen) {
				return false
			}
		}
		return true
	}
	return true
}

// nonNilTest: a test of v dominates b, and v is nil only on a branch that does not lead to b
// unless it was replaced.
func nonNilTest(v ssa.Value, b *ssa.BasicBlock) bool {
	for _, r := range *v.Referrers() {
		if bo, ok := r.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && bo.Block().Dominates(b) {
			return true
		}
	}
	return false
}

func nonNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	for _, r := range *v.Referrers() {
		bo, ok := r.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		for _, u := range *bo.Referrers() {
			if i, ok := u.(*ssa.If); ok {
				s := i.Block().Succs[1]
				if bo.Op == token.NEQ {
					s = i.Block().Succs[0]
				}
				if len(s.Preds) == 1 && s.Dominates(b) {
					return true
				}
			}
		}
	}
	return false
}

func nonNilEdge(v ssa.Value, from, to *ssa.BasicBlock) bool {
	i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := i.Cond.(*ssa.BinOp)
	if !ok || bo.X != v && bo.Y != v {
		return false
	}
	return bo.Op == token.EQL && from.Succs[1] == to || bo.Op == token.NEQ && from.Succs[0] == to
}

// waits: reasons why a call may block the caller for long.
func (cw *containWorld) blocks(f *ssa.Function, seen map[*ssa.Function]bool, fr *lockFrame) (string, ssa.Instruction) {
	if fr == nil {
		if seen[f] {
			return "", nil
		}
		fr = &lockFrame{lw: cw.lw, fn: f}
	} else if seen[f] && len(fr.bind) == 0 {
		return "", nil
	}
	seen[f] = true
	cw.fns[f] = true
	if why, at := cw.polls(f); why != "" {
		return why, at
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return "receives from a channel", in
				}
			case *ssa.Send:
				return "sends on a channel without an alternative", in
			case *ssa.Select:
				if x.Blocking {
					return "waits for a channel", in
				}
			case *ssa.Call, *ssa.Defer:
				c := in.(ssa.CallInstruction).Common()
				var ts []*ssa.Function
				if g := c.StaticCallee(); g != nil {
					ts = []*ssa.Function{unbind(g)}
					if g.Synthetic == "" {
						ts[0] = g
					}
				} else if c.IsInvoke() {
					ts = cw.lw.impls(c)
				} else {
					ts = fr.funcs(c.Value)
				}
				for _, t := range ts {
					if cw.w.InRepo(t) && t.Blocks != nil {
						if why, at := cw.blocks(t, seen, cw.bind(fr, t, c)); why != "" {
							return why, at
						}
						continue
					}
					if why := cw.lw.blocking(t); why != "" {
						return why, in
					}
					if FnPkg(t) == "os/exec" {
						return "runs another program", in
					}
					if FnPkg(t) == "net" && (strings.HasPrefix(t.Name(), "Lookup") || strings.HasPrefix(t.Name(), "Dial") || strings.HasPrefix(t.Name(), "Resolve")) {
						return "uses the network", in
					}
					for _, a := range c.Args {
						if isFuncType(a.Type()) {
							if FnPkg(t) == "sync" && t.Name() == "Do" {
								continue // happens once
							}
							for _, h := range fr.funcs(a) {
								if cw.w.InRepo(h) && h.Blocks != nil {
									if why, at := cw.blocks(h, seen, nil); why != "" {
										return why, at
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return "", nil
}

// polls: a loop of f that can only end when another goroutine does something: nothing it does brings its end nearer.
func (cw *containWorld) polls(f *ssa.Function) (string, ssa.Instruction) {
	for h, body := range loopsOf(f) {
		exits, progress := false, false
		var first ssa.Instruction
		for b := range body {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && FnPkg(g) == "runtime" && g.Name() == "Gosched" {
						return "polls, giving the processor away in a loop", in
					}
				}
				if !cw.pollOnly(in, h, map[*ssa.Function]bool{}) {
					progress = true
				}
			}
			for _, sc := range b.Succs {
				if !body[sc] {
					exits = true
				}
			}
		}
		for _, in := range h.Instrs {
			first = in
			if in.Pos().IsValid() {
				break
			}
		}
		if !exits && !progress {
			return "never leaves a loop", first
		}
		if !progress {
			return "polls in a loop until another goroutine changes something", first
		}
	}
	return "", nil
}

// pollOnly: the instruction only looks.
func (cw *containWorld) pollOnly(in ssa.Instruction, h *ssa.BasicBlock, seen map[*ssa.Function]bool) bool {
	switch x := in.(type) {
	case *ssa.Phi:
		return x.Block() != h
	case *ssa.Store:
		_, local := x.Addr.(*ssa.Alloc)
		return local && h == nil
	case *ssa.MapUpdate, *ssa.Next, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Panic:
		return h == nil && !isMapUpdate(in)
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if cw.w.InRepo(g) && g.Blocks != nil {
			if seen[g] {
				return false
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if !cw.pollOnly(i, nil, seen) {
						return false
					}
				}
			}
			delete(seen, g)
			return true
		}
		switch FnPkg(g) {
		case "sync/atomic":
			if n := len(x.Call.Args); strings.HasPrefix(g.Name(), "CompareAndSwap") && n > 2 {
				_, fixed := x.Call.Args[n-2].(*ssa.Const) // with the value just read it is a retry, which succeeds in the end
				return fixed
			}
			return strings.HasPrefix(g.Name(), "Load")
		case "sync":
			return strings.HasSuffix(g.Name(), "ock")
		case "time":
			return g.Name() == "Now" || g.Name() == "Since" || g.Name() == "Until" || g.Signature.Recv() != nil
		}
		return false
	}
	return true
}

func isMapUpdate(in ssa.Instruction) bool {
	switch in.(type) {
	case *ssa.MapUpdate, *ssa.Next, *ssa.Send, *ssa.Select, *ssa.Go:
		return true
	}
	return false
}

// otherGoroutine: library functions that run the function they are given on a goroutine of their own.
func otherGoroutine(g *ssa.Function) bool {
	switch FnPkg(g) {
	case "time":
		return g.Name() == "AfterFunc"
	case "runtime":
		return g.Name() == "SetFinalizer" || g.Name() == "AddCleanup"
	case "context":
		return g.Name() == "AfterFunc"
	case "sync":
		return g.Name() == "Go"
	}
	return g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "errgroup") && (g.Name() == "Go" || g.Name() == "TryGo")
}

func (cw *containWorld) done(c *Ctx) {
	for f := range cw.fns {
		c.Fn(f)
	}
}

func init() {
	register("C15", "A panic-escape analysis over the call graph: for every function an application calls, each instruction that may panic (by kind, or by calling something that lets a panic escape) has to be dominated by the deferral of a function that itself recovers on every path; deferred calls outside the guard and what a recovering function does afterwards are judged alike. A dataflow over the named results decides that a start function gives back a context after a recovered panic.", func(c *Ctx) {
		cw := newContain(c.W)
		api := tracingAPI(c.W)
		for _, f := range api {
			cw.user[f] = true
		}
		for _, n := range []string{"StartHttpService", "EndHttpService", "StartService", "EndService", "GoWithTrace", "StartMethod", "EndMethod", "StartApiCall", "EndApiCall"} {
			c.Need(stPkg, "", n)
		}
		for _, f := range api {
			why := cw.escapes(f)
			c.Check(why == "", "contained", FnName(f), c.W.FnAt(f), "a panic of the agent reaches the application: "+why)
			afterPanic(c, cw, f)
		}
		if f := c.Need("", "", "Init"); f != nil {
			why := cw.escapes(f)
			c.Check(why == "", "contained", FnName(f), c.W.FnAt(f), "a panic of the agent reaches the application: "+why)
		}
		cw.done(c)
		c.Floor("contained", 20)
		c.Floor("after-panic", 3)
	})
	register("C16", "The same panic-escape analysis decides every goroutine the agent starts (found as go statements over all functions, function values resolved): nothing in it may let a panic escape, apart from the function the application gave. All calls of the agent are searched for those that end the process, or change its signals, environment, runtime, logger or HTTP handlers.", func(c *Ctx) {
		cw := newContain(c.W)
		for _, f := range tracingAPI(c.W) {
			cw.user[f] = true
		}
		for _, f := range c.W.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if g := ci.Common().StaticCallee(); g != nil && !c.W.InRepo(g) {
						c.Ob("call", FnName(f)+" calls "+FnPkg(g)+"."+g.Name())
						why := kills(g)
						if strings.HasPrefix(g.Name(), "Must") && why == "" {
							for _, a := range ci.Common().Args {
								if _, ok := a.(*ssa.Const); !ok {
									why = "ends the process or panics when it fails"
								}
							}
						}
						if why != "" {
							c.Bad("host", FnName(f)+" calls "+FnPkg(g)+"."+g.Name(), c.W.At(in), why)
						}
						if otherGoroutine(g) {
							fr := &lockFrame{lw: cw.lw, fn: f}
							for _, a := range ci.Common().Args {
								if mi, ok := a.(*ssa.MakeInterface); ok {
									a = mi.X
								}
								if !isFuncType(a.Type()) {
									continue
								}
								for _, t := range fr.funcs(a) {
									if cw.w.InRepo(t) && t.Blocks != nil {
										why := cw.escapes2(t, cw.bind(fr, t, ci.Common()))
										c.Check(why == "", "goroutine", "run later from "+FnName(f)+": "+FnName(t), c.W.At(in), "a panic in this goroutine ends the host process: "+why)
									}
								}
							}
						}
					}
					g, ok := in.(*ssa.Go)
					if !ok {
						continue
					}
					fr := &lockFrame{lw: cw.lw, fn: f}
					var ts []*ssa.Function
					if t := g.Call.StaticCallee(); t != nil {
						ts = []*ssa.Function{unbind(t)}
					} else if !g.Call.IsInvoke() {
						ts = fr.funcs(g.Call.Value)
					}
					con := "goroutine started in " + FnName(f)
					if len(ts) == 0 {
						c.Check(cw.users(f, g.Call.Value), "goroutine", con, c.W.At(in), "what this goroutine runs is not known")
					}
					for _, t := range ts {
						con := con + ": " + FnName(t)
						for _, a := range g.Call.Args {
							if isFuncType(a.Type()) {
								if h := unbind(a); h != nil {
									con += " " + FnName(h)
								}
							}
						}
						if !c.W.InRepo(t) || t.Blocks == nil {
							c.Ob("goroutine", con)
							continue
						}
						why := cw.escapes2(t, cw.bind(fr, t, &g.Call))
						c.Check(why == "", "goroutine", con, c.W.At(in), "a panic in this goroutine ends the host process: "+why)
					}
				}
			}
		}
		for _, p := range c.W.Pkgs {
			for _, i := range sortedKeys(p.Imports) {
				if i == "net/http/pprof" || i == "expvar" {
					c.Bad("host", p.PkgPath+" imports "+i, p.PkgPath, "loading "+i+" adds handlers to the default HTTP handler of the process")
				}
			}
		}
		cw.done(c)
		c.Floor("goroutine", 14)
		c.Floor("call", 100)
	})
	register("C17", "An effect analysis over the call graph of every function an application calls (interface calls and function values resolved, goroutines excluded): none reaches a sleep, a channel operation without an alternative, a wait for another goroutine, another program, or the network beyond writing a datagram.", func(c *Ctx) {
		cw := newContain(c.W)
		for _, f := range tracingAPI(c.W) {
			why, at := cw.blocks(f, map[*ssa.Function]bool{}, nil)
			where := c.W.FnAt(f)
			if at != nil {
				where = c.W.At(at)
			}
			name := ""
			if at != nil {
				name = " in " + FnName(at.Parent())
			}
			c.Check(why == "", "non-blocking", FnName(f), where, fmt.Sprintf("a call of the tracing interface may block the application: %s%s", why, name))
		}
		cw.done(c)
		c.Floor("non-blocking", 18)
	})
}
