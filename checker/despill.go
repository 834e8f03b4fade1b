package main

import (
	"go/token"
	"go/types"
	"slices"
	"unsafe"

	"reflect"

	"golang.org/x/tools/go/ssa"
)

// despill turns variables that function literals capture but nobody changes back into plain
// values: the variable is stored once, where it is declared, and otherwise only read. The
// literal then captures the value itself.
func despill(funcs []*ssa.Function) {
	for _, fn := range funcs {
		for _, b := range fn.Blocks {
			for _, in := range slices.Clone(b.Instrs) {
				if a, ok := in.(*ssa.Alloc); ok {
					despillOne(a)
				}
			}
		}
	}
}

func despillOne(a *ssa.Alloc) {
	var st *ssa.Store
	var loads []*ssa.UnOp
	var made []*ssa.MakeClosure
	var fvs []*ssa.FreeVar
	before := map[ssa.Instruction]bool{} // what must come after the store
	// uses of the cell itself: loads, and captures by literals that only read it
	var uses func(v ssa.Value, top bool) bool
	uses = func(v ssa.Value, top bool) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
				loads = append(loads, x)
			case *ssa.Store:
				if !top || x.Addr != v || x.Val == v || st != nil {
					return false
				}
				st = x
				continue
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				if len(f.FreeVars) != len(x.Bindings) || f.Blocks == nil {
					return false
				}
				for i, o := range x.Bindings {
					if o == v {
						fvs = append(fvs, f.FreeVars[i])
						if !uses(f.FreeVars[i], false) {
							return false
						}
					}
				}
				if !slices.Contains(made, x) {
					made = append(made, x)
				}
			default:
				return false
			}
			if top {
				before[r] = true
			}
		}
		return true
	}
	if !uses(a, true) || st == nil || st.Block() != a.Block() || len(made) == 0 {
		return
	}
	sb := st.Block()
	at := slices.Index(sb.Instrs, ssa.Instruction(st))
	for r := range before {
		if r.Block() == sb && slices.Index(sb.Instrs, r) < at || r.Block() != sb && !sb.Dominates(r.Block()) {
			return
		}
	}
	drop := func(in ssa.Instruction) {
		b := in.Block()
		if i := slices.Index(b.Instrs, in); i >= 0 {
			b.Instrs = slices.Delete(b.Instrs, i, i+1)
		}
	}
	unref := func(v ssa.Value, in ssa.Instruction) {
		if rs := v.Referrers(); rs != nil {
			*rs = slices.DeleteFunc(*rs, func(r ssa.Instruction) bool { return r == in })
		}
	}
	elem := deref(a.Type())
	for _, fv := range fvs {
		f := reflect.ValueOf(fv).Elem().FieldByName("typ")
		*(*types.Type)(unsafe.Pointer(f.UnsafeAddr())) = elem
	}
	value := func(cell ssa.Value) ssa.Value {
		if cell == ssa.Value(a) {
			return st.Val
		}
		return cell
	}
	for _, l := range loads {
		v := value(l.X)
		for _, r := range slices.Clone(*l.Referrers()) {
			for _, o := range r.Operands(nil) {
				if *o == ssa.Value(l) {
					*o = v
					if rs := v.Referrers(); rs != nil {
						*rs = append(*rs, r)
					}
				}
			}
		}
		unref(l.X, l)
		drop(l)
	}
	for _, mc := range made {
		for i, o := range mc.Bindings {
			if o == ssa.Value(a) {
				mc.Bindings[i] = st.Val
				if rs := st.Val.Referrers(); rs != nil {
					*rs = append(*rs, mc)
				}
			}
		}
	}
	unref(st.Val, st)
	drop(st)
	drop(a)
}
