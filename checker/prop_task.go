package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Background tasks: which functions never return, with the conditions of their loops folded, and
// whether every round of an endless loop waits.

type bools struct{ t, f bool }

func (b bools) or(c bools) bools { return bools{b.t || c.t, b.f || c.f} }

// ending: how a function may come back to its caller.
type ending struct {
	normal    bool    // through a return
	recovered bool    // after a recovered panic
	res       []bools // the truth values of its results
}

type taskWorld struct {
	w    *World
	cw   *containWorld
	busy map[*ssa.Function]bool
	memo map[*ssa.Function]*taskRun
	fns  map[*ssa.Function]bool
}

func newTasks(w *World) *taskWorld {
	tw := &taskWorld{w: w, cw: newContain(w), busy: map[*ssa.Function]bool{}, memo: map[*ssa.Function]*taskRun{}, fns: map[*ssa.Function]bool{}}
	for _, f := range tracingAPI(w) {
		tw.cw.user[f] = true
	}
	return tw
}

// taskRun is one function with what is known of the functions it is given.
type taskRun struct {
	tw    *taskWorld
	f     *ssa.Function
	fr    *lockFrame
	reach map[*ssa.BasicBlock]bool
	cut   map[*ssa.BasicBlock]ssa.Instruction // the call after which nothing of the block runs
	end   ending
	why   string // how it may end
	at    ssa.Instruction
	sub   map[ssa.Instruction]*taskRun
}

func (tw *taskWorld) run(f *ssa.Function, fr *lockFrame) *taskRun {
	if fr == nil || len(fr.bind) == 0 {
		if r := tw.memo[f]; r != nil {
			return r
		}
		fr = &lockFrame{lw: tw.cw.lw, fn: f}
	}
	r := &taskRun{tw: tw, f: f, fr: fr, reach: map[*ssa.BasicBlock]bool{}, cut: map[*ssa.BasicBlock]ssa.Instruction{}, sub: map[ssa.Instruction]*taskRun{}}
	if tw.busy[f] || f.Blocks == nil {
		r.end = ending{normal: true, recovered: true}
		r.why = "calls itself"
		return r
	}
	tw.busy[f] = true
	defer delete(tw.busy, f)
	tw.fns[f] = true
	r.flow()
	if len(fr.bind) == 0 {
		tw.memo[f] = r
	}
	return r
}

// callee: the functions of the repository a call instruction runs now.
func (r *taskRun) callees(c *ssa.CallCommon) []*ssa.Function {
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	if c.IsInvoke() {
		return r.tw.cw.lw.impls(c)
	}
	return r.fr.funcs(c.Value)
}

func (r *taskRun) subRun(in ssa.Instruction, g *ssa.Function, c *ssa.CallCommon) *taskRun {
	fr := r.tw.cw.bind(r.fr, g, c)
	s := r.tw.run(g, fr)
	r.sub[in] = s
	return s
}

func (r *taskRun) never(in ssa.Instruction, c *ssa.CallCommon) bool {
	ts := r.callees(c)
	if len(ts) == 0 {
		return false
	}
	for _, t := range ts {
		if !r.tw.w.InRepo(t) || t.Blocks == nil {
			return false
		}
		if s := r.subRun(in, t, c); s.end.normal || s.end.recovered {
			return false
		}
	}
	return true
}

func (r *taskRun) flow() {
	gs := r.tw.cw.guards(r.f)
	work := []*ssa.BasicBlock{r.f.Blocks[0]}
	r.reach[r.f.Blocks[0]] = true
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if r.never(x, &x.Call) {
					r.cut[b] = x
					stop = true
				}
			case *ssa.Panic:
				stop = true
			}
			if stop {
				break
			}
		}
		if stop {
			continue
		}
		succ := b.Succs
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			v := r.eval(i.Cond, 0)
			succ = nil
			if v.t {
				succ = append(succ, b.Succs[0])
			}
			if v.f {
				succ = append(succ, b.Succs[1])
			}
		}
		for _, n := range succ {
			if !r.reach[n] {
				r.reach[n] = true
				work = append(work, n)
			}
		}
	}
	r.end.res = make([]bools, r.f.Signature.Results().Len())
	for _, b := range r.f.Blocks {
		if !r.reach[b] || r.cut[b] != nil || b == r.f.Recover {
			continue
		}
		if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			r.end.normal = true
			r.why, r.at = "returns", x
			for i, v := range x.Results {
				r.end.res[i] = r.end.res[i].or(r.eval(v, 0))
			}
		}
	}
	// a panic recovered here
	if len(gs) > 0 {
		for _, b := range r.f.Blocks {
			if !r.reach[b] || b == r.f.Recover {
				continue
			}
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Call); ok && !r.end.recovered {
					covered := false
					for _, d := range gs {
						covered = covered || before(d, in)
					}
					if covered && (r.tw.cw.mayPanic(r.fr, in) != "" || r.cut[b] == in) {
						r.end.recovered = true
						if !r.end.normal {
							r.why, r.at = "ends after a recovered panic", in
						}
					}
				} else if !ok && r.tw.cw.mayPanic(r.fr, in) != "" {
					r.end.recovered = true
				}
				if r.cut[b] == in {
					break
				}
			}
		}
		if r.end.recovered && r.f.Recover != nil {
			if x, ok := r.f.Recover.Instrs[len(r.f.Recover.Instrs)-1].(*ssa.Return); ok {
				for i, v := range x.Results {
					r.end.res[i] = r.end.res[i].or(r.eval(v, 0))
				}
			}
		}
	}
}

// eval: the truth values an expression may have.
func (r *taskRun) eval(v ssa.Value, depth int) bools {
	any := bools{true, true}
	if depth > 20 {
		return any
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			b := constant.BoolVal(x.Value)
			return bools{b, !b}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			b := r.eval(x.X, depth+1)
			return bools{b.f, b.t}
		case token.MUL:
			switch a := x.X.(type) {
			case *ssa.Alloc:
				// a local variable: what is stored where control may get to
				if !isBoolT(deref(a.Type())) {
					return any
				}
				res := bools{false, !r.setBefore(a, x)}
				for _, u := range *a.Referrers() {
					switch y := u.(type) {
					case *ssa.Store:
						if y.Addr != ssa.Value(a) {
							return any
						}
						if b := y.Block(); b.Parent() != r.f || r.reach[b] && (r.cut[b] == nil || before(y, r.cut[b])) {
							res = res.or(r.eval(y.Val, depth+1))
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return any
					}
				}
				return res
			case *ssa.FieldAddr, *ssa.Global:
				return r.flag(a)
			}
		}
	case *ssa.Phi:
		var res bools
		for i, e := range x.Edges {
			if r.reach[x.Block().Preds[i]] {
				res = res.or(r.eval(e, depth+1))
			}
		}
		if res == (bools{}) {
			return any
		}
		return res
	case *ssa.Call:
		return r.evalCall(x, 0)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return r.evalCall(c, x.Index)
		}
		if u, ok := x.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && x.Index == 1 {
			if ch, ok := u.X.Type().Underlying().(*types.Chan); ok && ch.Elem().String() == "time.Time" && ch.Dir() == types.RecvOnly {
				return bools{true, false} // a ticker's channel is never closed
			}
		}
	}
	return any
}

// setBefore: the variable was given a value before the load on every way to it.
func (r *taskRun) setBefore(a *ssa.Alloc, load *ssa.UnOp) bool {
	for _, u := range *a.Referrers() {
		st, ok := u.(*ssa.Store)
		if !ok || st.Addr != ssa.Value(a) || st.Block().Parent() != r.f {
			continue
		}
		if load.Block() != r.f.Recover {
			if before(st, load) {
				return true
			}
			continue
		}
		// recovered: it was set before there was a guard
		all := true
		for _, d := range r.tw.cw.guards(r.f) {
			all = all && before(st, d)
		}
		if all {
			return true
		}
	}
	return false
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (r *taskRun) evalCall(c *ssa.Call, i int) bools {
	var res bools
	for _, t := range r.callees(&c.Call) {
		if !r.tw.w.InRepo(t) || t.Blocks == nil {
			return bools{true, true}
		}
		s := r.subRun(c, t, &c.Call)
		if i >= len(s.end.res) {
			return bools{true, true}
		}
		res = res.or(s.end.res[i])
	}
	if res == (bools{}) {
		return bools{true, true}
	}
	return res
}

// flag: a field or variable that nothing ever gives another value than the one constant.
func (r *taskRun) flag(addr ssa.Value) bools {
	any := bools{true, true}
	if !isBoolT(deref(addr.Type())) {
		return any
	}
	var key string
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		key = fmt.Sprint(deref(fa.X.Type()).String(), "#", fa.Field)
	}
	var res bools
	n := 0
	for _, f := range r.tw.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var a, val ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					a, val = x.Addr, x.Val
				default:
					// its address must not go anywhere else
					for _, o := range in.Operands(nil) {
						if o != nil && *o == addr && key == "" {
							if u, ok := in.(*ssa.UnOp); !ok || u.Op != token.MUL {
								return any
							}
						}
					}
					continue
				}
				same := a == addr
				if fa, ok := a.(*ssa.FieldAddr); ok && key != "" {
					same = key == fmt.Sprint(deref(fa.X.Type()).String(), "#", fa.Field)
				}
				if !same {
					continue
				}
				n++
				c, ok := val.(*ssa.Const)
				if !ok || c.Value == nil {
					return any
				}
				bv := constant.BoolVal(c.Value)
				res = res.or(bools{bv, !bv})
			}
		}
	}
	if n == 0 {
		return bools{false, true}
	}
	return res
}

// ---- waiting

// waitTime: the constant a duration is, or 0.
func (tw *taskWorld) waitTime(v ssa.Value, depth int) int64 {
	if depth > 8 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return x.Int64()
		}
	case *ssa.ChangeType:
		return tw.waitTime(x.X, depth+1)
	case *ssa.Convert:
		return tw.waitTime(x.X, depth+1)
	case *ssa.BinOp:
		a, b := tw.waitTime(x.X, depth+1), tw.waitTime(x.Y, depth+1)
		switch {
		case a <= 0 || b <= 0:
			return 0
		case x.Op == token.MUL:
			return a * b
		case x.Op == token.ADD:
			return a + b
		case x.Op == token.QUO:
			return a / b
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			var r int64
			for _, f := range tw.w.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
							n := tw.waitTime(st.Val, depth+1)
							if n <= 0 || r != 0 && r != n {
								return 0
							}
							r = n
						}
					}
				}
			}
			if r == 0 && g.Pkg != nil {
				if in := g.Pkg.Func("init"); in != nil {
					for _, b := range in.Blocks {
						for _, i := range b.Instrs {
							if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
								r = tw.waitTime(st.Val, depth+1)
							}
						}
					}
				}
			}
			return r
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			return tw.allStores(a, depth)
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			return tw.free(fv, depth)
		}
	case *ssa.FreeVar:
		return tw.free(x, depth)
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		var r int64
		for _, h := range tw.w.Funcs {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().IsInvoke() || unbindCall(ci.Common()) != f || idx >= len(ci.Common().Args) {
						continue
					}
					n := tw.waitTime(ci.Common().Args[idx], depth+1)
					if n <= 0 {
						return 0
					}
					if n > r {
						r = n
					}
				}
			}
		}
		return r
	}
	return 0
}

func (tw *taskWorld) allStores(a *ssa.Alloc, depth int) int64 {
	var r int64
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			n := tw.waitTime(st.Val, depth+1)
			if n <= 0 {
				return 0
			}
			if n > r {
				r = n
			}
		}
	}
	return r
}

func (tw *taskWorld) free(fv *ssa.FreeVar, depth int) int64 {
	p := fv.Parent().Parent()
	for i, v := range fv.Parent().FreeVars {
		if v != fv || p == nil {
			continue
		}
		for _, b := range p.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fv.Parent()) {
					if a, ok := mc.Bindings[i].(*ssa.Alloc); ok {
						return tw.allStores(a, depth)
					}
					return tw.waitTime(mc.Bindings[i], depth+1)
				}
			}
		}
	}
	return 0
}

const longestWait = int64(10e9)

// waits: this instruction always waits. long is how it waits too long.
func (r *taskRun) waits(in ssa.Instruction, nonEmpty bool) (ok bool, long string) {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW, ""
	case *ssa.Select:
		return x.Blocking, ""
	case *ssa.Call:
		ts := r.callees(&x.Call)
		if len(ts) == 0 {
			return false, ""
		}
		for _, t := range ts {
			if !r.tw.w.InRepo(t) || t.Blocks == nil {
				if FnPkg(t) == "time" && t.Name() == "Sleep" {
					n := r.tw.waitTime(x.Call.Args[0], 0)
					if n > longestWait {
						long = fmt.Sprintf("sleeps %d s", n/1e9)
					}
					if n <= 0 {
						return false, ""
					}
					continue
				}
				return false, ""
			}
			s := r.subRun(x, t, &x.Call)
			if nonEmpty && s.mayReceive(map[*ssa.Function]bool{}) {
				continue
			}
			m, l := s.mustWait()
			if l != "" {
				long = l
			}
			if !m {
				return false, long
			}
		}
		return true, long
	}
	return false, ""
}

func (r *taskRun) mayReceive(seen map[*ssa.Function]bool) bool {
	if seen[r.f] {
		return false
	}
	seen[r.f] = true
	for _, b := range r.f.Blocks {
		if !r.reach[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.RecvOnly {
						return true
					}
				}
			case *ssa.Call:
				for _, t := range r.callees(&x.Call) {
					if r.tw.w.InRepo(t) && t.Blocks != nil && r.subRun(x, t, &x.Call).mayReceive(seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// mustWait: every way from the entry back to the caller waits.
func (r *taskRun) mustWait() (bool, string) {
	bad, long := r.dry(r.f.Blocks[0], 0, nil)
	return bad == nil, long
}

// panicFirst: the call may panic before it waits.
func (r *taskRun) panicFirst(in ssa.Instruction, seen map[*ssa.Function]bool) bool {
	x, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	for _, t := range r.callees(&x.Call) {
		if !r.tw.w.InRepo(t) || t.Blocks == nil || seen[t] || r.tw.cw.escapes2(t, r.tw.cw.bind(r.fr, t, &x.Call)) == "" {
			continue
		}
		seen[t] = true
		s := r.subRun(x, t, &x.Call)
		done := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock) bool
		walk = func(b *ssa.BasicBlock) bool {
			if done[b] {
				return false
			}
			done[b] = true
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if s.panicFirst(c, seen) {
						return true
					}
					if w, _ := s.waits(c, true); w {
						return false
					}
					inRepo := false
					for _, g := range s.callees(&c.Call) {
						inRepo = inRepo || s.tw.w.InRepo(g) && g.Blocks != nil
					}
					if !inRepo && s.tw.cw.mayPanic(s.fr, c) != "" {
						return true
					}
					continue
				}
				if w, _ := s.waits(i, true); w {
					return false
				}
				if s.tw.cw.mayPanic(s.fr, i) != "" {
					return true
				}
			}
			for k, n := range b.Succs {
				if s.reach[n] && s.edge(b, k) && walk(n) {
					return true
				}
			}
			return false
		}
		if walk(t.Blocks[0]) {
			return true
		}
	}
	return false
}

type dryPoint struct {
	b        *ssa.BasicBlock
	nonEmpty bool
}

// dry looks for a way from a block, starting at an instruction, that comes to the target block
// (or back to the caller) without waiting.
func (r *taskRun) dry(from *ssa.BasicBlock, start int, target *ssa.BasicBlock) (ssa.Instruction, string) {
	gs := r.tw.cw.guards(r.f)
	seen := map[dryPoint]bool{}
	work := []dryPoint{{from, false}}
	first := true
	long := ""
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		b := p.b
		if !first && b == target {
			return b.Instrs[0], long
		}
		if !first && seen[p] {
			continue
		}
		if !first {
			seen[p] = true
		}
		i0 := 0
		if first {
			i0 = start
		}
		first = false
		stop := false
		for _, in := range b.Instrs[i0:] {
			ok, l := r.waits(in, p.nonEmpty)
			if l != "" {
				long = l
			}
			if ok && target == nil && len(gs) > 0 && r.panicFirst(in, map[*ssa.Function]bool{}) {
				ok = false
			}
			if ok {
				stop = true
				break
			}
			if target == nil {
				if _, isR := in.(*ssa.Return); isR && b != r.f.Recover {
					return in, long
				}
				for _, d := range gs {
					if ssa.Instruction(d) != in && before(d, in) && r.tw.cw.mayPanic(r.fr, in) != "" {
						return in, long
					}
				}
			}
			if r.cut[b] == in {
				stop = true
				break
			}
		}
		if stop {
			continue
		}
		for k, n := range b.Succs {
			if !r.reach[n] || !r.edge(b, k) {
				continue
			}
			work = append(work, dryPoint{n, p.nonEmpty || r.nonEmptyEdge(b, k)})
		}
	}
	return nil, long
}

// edge: the edge may be taken.
func (r *taskRun) edge(b *ssa.BasicBlock, k int) bool {
	if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		v := r.eval(i.Cond, 0)
		return k == 0 && v.t || k == 1 && v.f
	}
	return true
}

// nonEmptyEdge: on this edge the length of a channel is known not to be zero.
func (r *taskRun) nonEmptyEdge(b *ssa.BasicBlock, k int) bool {
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := bo.X, bo.Y, bo.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	c, ok := y.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int || !r.chanLen(x, 0) {
		return false
	}
	n := c.Int64()
	t := k == 0
	switch op {
	case token.EQL:
		return t && n > 0 || !t && n == 0
	case token.NEQ:
		return t && n == 0 || !t && n > 0
	case token.GTR:
		return t && n >= 0
	case token.GEQ:
		return t && n > 0
	case token.LSS:
		return !t && n > 0
	case token.LEQ:
		return !t && n >= 0
	}
	return false
}

func (r *taskRun) chanLen(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() != "len" {
				return false
			}
			_, isC := x.Call.Args[0].Type().Underlying().(*types.Chan)
			return isC
		}
		g := x.Call.StaticCallee()
		if g == nil || !r.tw.w.InRepo(g) || g.Blocks == nil {
			return false
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(ret.Results) != 1 || !r.chanLen(ret.Results[0], depth+1)) {
				return false
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, isC := e.(*ssa.Const); !isC && !r.chanLen(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, u := range *a.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) && !r.chanLen(st.Val, depth+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// endless: the headers of the loops nothing leaves, here and in the functions called that never return.
func (r *taskRun) endless(each func(r *taskRun, h *ssa.BasicBlock), seen map[*taskRun]bool) {
	if seen[r] {
		return
	}
	seen[r] = true
	for _, s := range sccs(r) {
		// the block of the component that everything in it is reached through
		if h := s[0]; true {
			for _, b := range s {
				if b.Dominates(h) {
					h = b
				}
			}
			each(r, h)
		}
	}
	for _, b := range r.f.Blocks {
		if r.reach[b] && r.cut[b] != nil {
			if s := r.sub[r.cut[b]]; s != nil {
				s.endless(each, seen)
			}
		}
	}
	// functions run under a guard by an endless loop
	for in, s := range r.sub {
		if b := in.Block(); r.reach[b] && !s.end.normal {
			s.endless(each, seen)
		}
	}
}

// sccs: the strongly connected parts of the reachable flow graph that control cannot leave.
func sccs(r *taskRun) [][]*ssa.BasicBlock {
	idx, low := map[*ssa.BasicBlock]int{}, map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	n := 0
	var out [][]*ssa.BasicBlock
	succ := func(b *ssa.BasicBlock) []*ssa.BasicBlock {
		if r.cut[b] != nil {
			return nil
		}
		var s []*ssa.BasicBlock
		for k, x := range b.Succs {
			if r.reach[x] && r.edge(b, k) {
				s = append(s, x)
			}
		}
		return s
	}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		n++
		idx[b], low[b] = n, n
		st = append(st, b)
		on[b] = true
		for _, s := range succ(b) {
			if idx[s] == 0 {
				visit(s)
				if low[s] < low[b] {
					low[b] = low[s]
				}
			} else if on[s] && idx[s] < low[b] {
				low[b] = idx[s]
			}
		}
		if low[b] == idx[b] {
			var comp []*ssa.BasicBlock
			in := map[*ssa.BasicBlock]bool{}
			for {
				t := st[len(st)-1]
				st = st[:len(st)-1]
				on[t] = false
				comp = append(comp, t)
				in[t] = true
				if t == b {
					break
				}
			}
			leaves, cyc := false, false
			for _, t := range comp {
				for _, s := range succ(t) {
					if in[s] {
						cyc = true
					} else {
						leaves = true
					}
				}
			}
			if cyc && !leaves {
				out = append(out, comp)
			}
		}
	}
	visit(r.f.Blocks[0])
	return out
}

// ---- what a start function starts

type started struct {
	at   *ssa.Go
	in   *ssa.Function
	fn   *ssa.Function
	name string
	run  *taskRun
	esc  string
	sure bool // on every path
}

// starts: the goroutines a start function starts itself.
func (tw *taskWorld) starts(f *ssa.Function) []started {
	var r []started
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, fr *lockFrame, sure bool)
	walk = func(f *ssa.Function, fr *lockFrame, sure bool) {
		if f == nil || seen[f] || f.Blocks == nil || !tw.w.InRepo(f) {
			return
		}
		seen[f] = true
		defer delete(seen, f)
		if fr == nil {
			fr = &lockFrame{lw: tw.cw.lw, fn: f}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s := sure && always(b)
				switch x := in.(type) {
				case *ssa.Go:
					var ts []*ssa.Function
					if t := x.Call.StaticCallee(); t != nil {
						ts = []*ssa.Function{unbind(t)}
					} else if !x.Call.IsInvoke() {
						ts = fr.funcs(x.Call.Value)
					}
					for _, t := range ts {
						if !tw.w.InRepo(t) || t.Blocks == nil {
							continue
						}
						// one goroutine per function that may be handed in
						nf := tw.cw.bind(fr, t, &x.Call)
						var alts []*lockFrame
						name := FnName(t)
						var inner []string
						if nf != nil {
							for _, p := range t.Params {
								if bd, ok := nf.bind[p]; ok {
									for _, h := range bd.fns {
										alts = append(alts, &lockFrame{lw: tw.cw.lw, fn: t, bind: map[ssa.Value]bound{p: {fns: []*ssa.Function{h}}}})
										inner = append(inner, FnName(h))
									}
								}
							}
						}
						if len(alts) == 0 {
							alts, inner = []*lockFrame{nf}, []string{""}
						}
						for i, a := range alts {
							n := name
							if inner[i] != "" {
								n += "(" + inner[i] + ")"
							}
							r = append(r, started{x, f, t, n, tw.run(t, a), tw.cw.escapes2(t, a), s})
						}
					}
				case *ssa.Call:
					for _, a := range x.Call.Args {
						if isFuncType(a.Type()) {
							for _, h := range fr.funcs(a) {
								if g := x.Call.StaticCallee(); g != nil && FnPkg(g) == "sync" {
									walk(h, nil, s)
								}
							}
						}
					}
					if g := x.Call.StaticCallee(); g != nil {
						if relPkg(FnPkg(g)) == relPkg(FnPkg(f)) || relPkg(FnPkg(g)) == "common" {
							walk(g, tw.cw.bind(fr, g, &x.Call), s)
						}
					}
				}
			}
		}
	}
	walk(f, nil, true)
	return r
}

// always: no way through the function goes around the block, apart from the iterations of a loop
// over a table.
func always(b *ssa.BasicBlock) bool {
	f := b.Parent()
	seen := map[*ssa.BasicBlock]bool{b: true}
	// a loop around the block that has no other condition
	for _, h := range f.Blocks {
		if h.Dominates(b) && h != b && strings.HasPrefix(h.Comment, "range") {
			for _, s := range h.Succs {
				if s.Dominates(b) {
					seen[h] = true
				}
			}
		}
	}
	var free func(x *ssa.BasicBlock) bool
	free = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			return true
		}
		for _, s := range x.Succs {
			if free(s) {
				return true
			}
		}
		return false
	}
	return !free(f.Blocks[0])
}

func init() {
	register("C27", "A termination and waiting analysis of every background task: from each function that starts tasks, each goroutine is resolved through guards and function values; a flow analysis with loop conditions, results of guards and never-changed flags folded decides that it cannot return, also not after a recovered panic. In each loop nothing leaves, every round has to pass an instruction that waits, for a known time of at most 10 seconds or for a channel (a receive from a channel known not to be empty counts as work done).", func(c *Ctx) {
		tw := newTasks(c.W)
		for _, x := range []struct {
			pkg, name string
			n         int
			what      string
		}{
			{cfPkg, "GetInstance", 1, "reloading the configuration"},
			{usPkg, "GetInstance", 2, "sending queued data and following the collector address"},
			{"task/agenttask", "Start", 1, "announcing the object"},
			{"task/countertask", "Start", 2, "sending counters"},
			{tcpPkg, "StartTcp", 1, "the connection for commands"},
		} {
			f := c.Need(x.pkg, "", x.name)
			if f == nil {
				continue
			}
			good := map[string]bool{}
			var bad []string
			at := c.W.FnAt(f)
			ss := tw.starts(f)
			sort.Slice(ss, func(i, j int) bool { return ss[i].name < ss[j].name })
			for _, s := range ss {
				switch {
				case s.run.end.normal || s.run.end.recovered:
					why := deepWhy(s.run)
					bad = append(bad, s.name+" may end: "+why)
				case s.esc != "":
					bad = append(bad, s.name+" ends with a panic: "+s.esc)
				case !s.sure:
					bad = append(bad, s.name+" is not started on every path")
				default:
					good[s.name] = true
				}
			}
			con := FnName(f) + " starts " + x.what
			c.Check(len(good) >= x.n, "runs-forever", con, at, fmt.Sprintf("%d of %d tasks run as long as the process: %s", len(good), x.n, strings.Join(bad, "; ")))
			for _, s := range ss {
				if !good[s.name] {
					continue
				}
				s.run.endless(func(r *taskRun, h *ssa.BasicBlock) {
					con := s.name + ": loop of " + FnName(r.f)
					badAt, long := r.dry(h, 0, h)
					c.Check(badAt == nil, "waits", con, c.W.At(h.Instrs[len(h.Instrs)-1]), "a round of this endless loop may pass without waiting for anything")
					c.Check(long == "", "waits", con, c.W.At(h.Instrs[len(h.Instrs)-1]), "a round of this loop "+long)
				}, map[*taskRun]bool{})
			}
		}
		for f := range tw.fns {
			c.Fn(f)
		}
		c.Floor("runs-forever", 5)
		c.Floor("waits", 7)
	})
}

// deepWhy names the function with a loop, run under a guard, that may end.
func deepWhy(r *taskRun) string {
	seen := map[*taskRun]bool{}
	var find func(r *taskRun) *taskRun
	find = func(r *taskRun) *taskRun {
		if seen[r] {
			return nil
		}
		seen[r] = true
		for _, b := range r.f.Blocks {
			for _, in := range b.Instrs {
				s := r.sub[in]
				if s == nil {
					continue
				}
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == nil && s.end.normal && hasLoop(s.f) && s.at != nil {
					return s
				}
				if len(s.fr.bind) > 0 {
					if x := find(s); x != nil {
						return x
					}
				}
			}
		}
		return nil
	}
	if s := find(r); s != nil {
		r = s
	}
	if r.at != nil {
		return FnName(r.f) + " " + r.why + " at " + r.tw.w.At(r.at)
	}
	return r.why
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}
