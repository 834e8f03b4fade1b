package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// goStart is one goroutine the program starts.
type goStart struct {
	At    *ssa.Go
	In    *ssa.Function
	Fn    *ssa.Function // what finally runs (after unwrapping the guards), nil when unknown
	Guard string        // name of the guard function around it, or ""
}

// unbind resolves a function value to the function whose body runs.
func unbind(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		if x.Synthetic != "" && len(x.Blocks) == 1 {
			for _, in := range x.Blocks[0].Instrs {
				if ci, ok := in.(*ssa.Call); ok {
					if g := ci.Call.StaticCallee(); g != nil {
						return g
					}
				}
			}
		}
		return x
	case *ssa.MakeClosure:
		return unbind(x.Fn)
	case *ssa.ChangeType:
		return unbind(x.X)
	}
	return nil
}

func isFuncType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// funcVal is a function a value may hold, and where that value is written down.
type funcVal struct {
	fn *ssa.Function
	in *ssa.Function
}

// funcVals: what a function value may be, through parameters, variables, tables and results.
func (w *World) funcVals(v ssa.Value, in *ssa.Function) []funcVal {
	if w.callSites == nil {
		w.callSites = map[*ssa.Function][]ssa.CallInstruction{}
		w.bindings = map[*ssa.Function][]*ssa.MakeClosure{}
		w.stores = map[string][]*ssa.Store{}
		for _, f := range w.Funcs {
			for _, b := range f.Blocks {
				for _, x := range b.Instrs {
					if ci, ok := x.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil {
							w.callSites[g] = append(w.callSites[g], ci)
						}
					}
					if mc, ok := x.(*ssa.MakeClosure); ok {
						g := mc.Fn.(*ssa.Function)
						w.bindings[g] = append(w.bindings[g], mc)
					}
					if st, ok := x.(*ssa.Store); ok && isFuncType(st.Val.Type()) {
						k := cellKey(st.Addr)
						w.stores[k] = append(w.stores[k], st)
					}
				}
			}
		}
	}
	seen := map[ssa.Value]bool{}
	var r []funcVal
	var walk func(v ssa.Value, in *ssa.Function)
	cell := func(a ssa.Value) {
		for _, st := range w.stores[cellKey(a)] {
			walk(st.Val, st.Parent())
		}
	}
	walk = func(v ssa.Value, in *ssa.Function) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Function:
			delete(seen, v)
			r = append(r, funcVal{unbind(x), in})
		case *ssa.MakeClosure:
			r = append(r, funcVal{unbind(x), in})
		case *ssa.ChangeType:
			walk(x.X, in)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, in)
			}
		case *ssa.Parameter:
			f := x.Parent()
			for i, p := range f.Params {
				if p != x {
					continue
				}
				for _, ci := range w.callSites[f] {
					if i < len(ci.Common().Args) {
						walk(ci.Common().Args[i], ci.Parent())
					}
				}
			}
		case *ssa.FreeVar:
			f := x.Parent()
			for i, p := range f.FreeVars {
				if p != x {
					continue
				}
				for _, mc := range w.bindings[f] {
					walk(mc.Bindings[i], mc.Parent())
				}
			}
		case *ssa.UnOp:
			if x.Op.String() == "*" {
				cell(x.X)
			}
		case *ssa.Alloc:
			cell(x) // a captured variable
		case *ssa.Field:
			cell(x)
		case *ssa.Index:
			if u, ok := x.X.(*ssa.UnOp); ok {
				cell(u.X)
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && w.InRepo(g) && isFuncType(x.Type()) {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
						walk(ret.Results[0], g)
					}
				}
			}
		}
	}
	walk(v, in)
	return r
}

// cellKey names the storage an address belongs to: a variable, an array as a whole, a field of a type.
func cellKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.IndexAddr:
		return cellKey(x.X)
	case *ssa.Slice:
		return cellKey(x.X)
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", deref(x.X.Type()), x.Field)
	case *ssa.Field:
		return fmt.Sprintf("%s.%d", x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			return cellKey(x.X)
		}
	case *ssa.FreeVar:
		// the variable captured
		f := x.Parent()
		for i, p := range f.FreeVars {
			if p == x && f.Parent() != nil {
				for _, b := range f.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
							return cellKey(mc.Bindings[i])
						}
					}
				}
			}
		}
	}
	return fmt.Sprintf("%p", a)
}

func goStarts(w *World) []goStart {
	if w.starts != nil {
		return w.starts
	}
	var r []goStart
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				var ts []funcVal
				if !g.Call.IsInvoke() {
					ts = w.funcVals(g.Call.Value, f)
				}
				if len(ts) == 0 {
					r = append(r, goStart{At: g, In: f})
				}
				for _, t := range ts {
					// a guard: a repository function that is given the function to run
					var inner []funcVal
					if w.InRepo(t.fn) {
						for _, a := range g.Call.Args {
							if isFuncType(a.Type()) {
								inner = append(inner, w.funcVals(a, f)...)
							}
						}
					}
					for _, i := range inner {
						r = append(r, goStart{At: g, In: i.in, Fn: i.fn, Guard: FnName(t.fn)})
					}
					if len(inner) == 0 {
						r = append(r, goStart{At: g, In: t.in, Fn: t.fn})
					}
				}
			}
		}
	}
	w.starts = r
	return r
}

// reaches: a call path inside the repository leads from f to a function with the property.
func (w *World) reaches(f *ssa.Function, pred func(in ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !w.InRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					return true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if walk(ci.Common().StaticCallee()) {
						return true
					}
				}
				for _, o := range in.Operands(nil) {
					switch x := (*o).(type) {
					case *ssa.MakeClosure:
						if walk(unbind(x)) {
							return true
						}
					case *ssa.Function:
						if walk(unbind(x)) {
							return true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if walk(unbind(mc)) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}
