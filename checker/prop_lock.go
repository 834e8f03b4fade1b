package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An interprocedural lock-set analysis. Locks and data are identified by the variable or
// structure field they live in. must: locks held on every path; may: on some path.

type lockSet map[string]int // lock -> 1 shared, 2 exclusive

func (l lockSet) String() string {
	var r []string
	for _, k := range sortedKeys(l) {
		r = append(r, fmt.Sprintf("%s:%d", k, l[k]))
	}
	return strings.Join(r, ",")
}

func (l lockSet) copy() lockSet {
	r := lockSet{}
	for k, v := range l {
		r[k] = v
	}
	return r
}

type lockState struct {
	must, may lockSet
	past      map[string]bool // "lock|data": read while holding the lock, which was given back since
	cur       map[string]bool // "lock|r|data", "lock|w|data": used since the lock was taken
}

func copySet(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		r[k] = true
	}
	return r
}

func newLockState() *lockState {
	return &lockState{lockSet{}, lockSet{}, map[string]bool{}, map[string]bool{}}
}

func (s *lockState) copy() *lockState {
	return &lockState{s.must.copy(), s.may.copy(), copySet(s.past), copySet(s.cur)}
}

func (s *lockState) String() string {
	return s.must.String() + "|" + s.may.String() + "|" + strings.Join(sortedKeys(s.past), ",") + "|" + strings.Join(sortedKeys(s.cur), ",")
}

// join merges another path into s; true when s changed.
func (s *lockState) join(o *lockState) bool {
	ch := false
	for k, v := range s.must {
		if o.must[k] < v {
			ch = true
			if o.must[k] == 0 {
				delete(s.must, k)
			} else {
				s.must[k] = o.must[k]
			}
		}
	}
	for k, v := range o.may {
		if s.may[k] < v {
			s.may[k], ch = v, true
		}
	}
	for k := range o.past {
		if !s.past[k] {
			s.past[k], ch = true, true
		}
	}
	for k := range o.cur {
		if !s.cur[k] {
			s.cur[k], ch = true, true
		}
	}
	return ch
}

// bound is what is known about a value that comes from a caller.
type bound struct {
	loc   string
	fns   []*ssa.Function
	fresh bool
	own   string // the field or variable an object was taken from
}

type access struct {
	loc, at, fn string
	write       bool
	must        lockSet
	root        string
	atomic      bool
}

type lockFact struct {
	at, fn, lock, msg string
}

type lockWorld struct {
	w        *World
	memo     map[string]*lockState
	busy     map[string]bool
	acc      map[string]access
	order    map[string]map[string]string // held -> taken -> where
	facts    map[string]map[string]lockFact
	stored   map[string][]*ssa.Function // function values stored in a field or variable
	callers  map[*ssa.Function]bool
	root     string
	locks    map[string]bool
	takes    map[string]map[string]bool // lock -> functions that take it
	contexts int
	funcs    map[*ssa.Function]bool
	shared   map[*ssa.Function]bool
	roots    map[*ssa.Function]bool
	globals  map[string]bool
	whole    map[string]bool // fields of structures with a lock
	ownedT   map[*types.Named]bool
	escapes  map[string]lockFact
}

func (lw *lockWorld) fact(kind string, f lockFact) {
	if lw.facts[kind] == nil {
		lw.facts[kind] = map[string]lockFact{}
	}
	lw.facts[kind][f.fn+"|"+f.lock+"|"+f.msg] = f
}

func typeName(t types.Type) string {
	if n, ok := deref(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return relPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return ""
}

// pkgPart is the package of a variable, field or lock.
func pkgPart(l string) string {
	l = strings.SplitN(l, "@", 2)[0]
	i := strings.LastIndex(l, "/")
	if j := strings.Index(l[i+1:], "."); j >= 0 {
		return l[:i+1+j]
	}
	return l
}

type lockFrame struct {
	lw    *lockWorld
	fn    *ssa.Function
	bind  map[ssa.Value]bound
	init  bool
	final bool
	seen  map[ssa.Value]bool
}

func (f *lockFrame) fresh(v ssa.Value) bool {
	if _, isPhi := v.(*ssa.Phi); isPhi {
		if f.seen[v] {
			return true
		}
		if f.seen == nil {
			f.seen = map[ssa.Value]bool{}
		}
		f.seen[v] = true
		defer delete(f.seen, v)
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return f.fresh(x.X)
	case *ssa.IndexAddr:
		return f.fresh(x.X)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return true
	case *ssa.Slice:
		return f.fresh(x.X)
	case *ssa.ChangeType:
		return f.fresh(x.X)
	case *ssa.UnOp:
		// a variable of this function that only holds new objects
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			n := 0
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					n++
					if !f.fresh(st.Val) {
						return false
					}
				}
			}
			return n > 0
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !f.fresh(e) {
				return false
			}
		}
		return true
	}
	return f.bind[v].fresh
}

// addrLoc names the variable or field an address denotes.
func (f *lockFrame) addrLoc(v ssa.Value) (loc string, fresh bool) {
	if _, isPhi := v.(*ssa.Phi); isPhi {
		if f.seen[v] {
			return "", false
		}
		if f.seen == nil {
			f.seen = map[ssa.Value]bool{}
		}
		f.seen[v] = true
		defer delete(f.seen, v)
	}
	switch x := v.(type) {
	case *ssa.Global:
		if x.Pkg != nil && strings.HasPrefix(x.Pkg.Pkg.Path(), modPath) {
			f.lw.globals[relPkg(x.Pkg.Pkg.Path())+"."+x.Name()] = true
			return relPkg(x.Pkg.Pkg.Path()) + "." + x.Name(), false
		}
	case *ssa.FieldAddr:
		tn := typeName(x.X.Type())
		st, ok := deref(x.X.Type()).Underlying().(*types.Struct)
		if !ok {
			return "", false
		}
		if tn == "" {
			l, fr := f.addrLoc(x.X)
			if l == "" {
				return "", fr
			}
			return l + "." + st.Field(x.Field).Name(), fr
		}
		// objects of a type that only lives inside locked structures are told apart by where they live
		loc := tn + "." + st.Field(x.Field).Name()
		if n, ok := deref(x.X.Type()).(*types.Named); ok && f.lw.owned(n) {
			if o := f.owner(x.X); o != "" {
				loc += "@" + o
			}
		}
		if hasLock(deref(x.X.Type())) || strings.Contains(loc, "@") {
			f.lw.whole[loc] = true
		}
		return loc, f.fresh(x.X)
	case *ssa.IndexAddr:
		l, fr := f.content(x.X)
		return l, fr
	case *ssa.ChangeType:
		return f.addrLoc(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v {
				if l, fr := f.addrLoc(e); l != "" {
					return l, fr
				}
			}
		}
	case *ssa.Parameter, *ssa.FreeVar:
		b := f.bind[v]
		return b.loc, b.fresh
	}
	return "", false
}

// content names the contents of a container value.
func (f *lockFrame) content(v ssa.Value) (string, bool) {
	return f.content2(v, map[ssa.Value]bool{})
}

func (f *lockFrame) content2(v ssa.Value, seen map[ssa.Value]bool) (string, bool) {
	if seen[v] {
		return "", false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return "", false
		}
		if a, ok := x.X.(*ssa.Alloc); ok { // a local variable
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					if l, fr := f.content2(st.Val, seen); l != "" {
						return l, fr
					}
				}
			}
			return "", true
		}
		l, fr := f.addrLoc(x.X)
		if l == "" {
			return "", fr
		}
		return strings.TrimSuffix(l, "[]") + "[]", fr
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return f.addrLoc(x.X)
		}
		return f.content2(x.X, seen)
	case *ssa.Range:
		return f.content2(x.X, seen)
	case *ssa.ChangeType:
		return f.content2(x.X, seen)
	case *ssa.MakeInterface:
		return f.content2(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if l, fr := f.content2(e, seen); l != "" {
				return l, fr
			}
		}
	case *ssa.FieldAddr:
		return f.addrLoc(x) // a container kept by value
	case *ssa.Global:
		return f.addrLoc(x)
	case *ssa.Parameter, *ssa.FreeVar:
		b := f.bind[v]
		return b.loc, b.fresh
	case *ssa.Alloc:
		if _, ok := deref(x.Type()).(*types.Named); ok {
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					if l, fr := f.content2(st.Val, seen); l != "" {
						return l, fr
					}
				}
			}
		}
		return "", true
	case *ssa.Call:
		// an iterator over, or an element of, a container of another module
		g := x.Call.StaticCallee()
		if g != nil && g.Signature.Recv() != nil && !f.lw.w.InRepo(g) && FnPkg(g) != "sync" && len(x.Call.Args) > 0 {
			if n, ok := deref(x.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == FnPkg(g) {
				return f.content2(x.Call.Args[0], seen)
			}
		}
	case *ssa.MakeMap, *ssa.MakeSlice:
		return "", true
	}
	return "", false
}

// funcs: the functions a function value may be.
func (f *lockFrame) funcs(v ssa.Value) []*ssa.Function {
	if _, isPhi := v.(*ssa.Phi); isPhi {
		if f.seen[v] {
			return nil
		}
		if f.seen == nil {
			f.seen = map[ssa.Value]bool{}
		}
		f.seen[v] = true
		defer delete(f.seen, v)
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{unbind(x)}
	case *ssa.MakeClosure:
		return []*ssa.Function{unbind(x)}
	case *ssa.ChangeType:
		return f.funcs(x.X)
	case *ssa.Phi:
		var r []*ssa.Function
		for _, e := range x.Edges {
			if e != v {
				if _, ok := e.(*ssa.Phi); !ok {
					r = append(r, f.funcs(e)...)
				}
			}
		}
		return r
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			var r []*ssa.Function
			for _, u := range *a.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == a {
					r = append(r, f.funcs(st.Val)...)
				}
			}
			return r
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			// an element of a table written where it is used
			base := ia.X
			if sl, ok := base.(*ssa.Slice); ok {
				base = sl.X
			}
			if a, ok := base.(*ssa.Alloc); ok {
				var r []*ssa.Function
				for _, u := range *a.Referrers() {
					if e, ok := u.(*ssa.IndexAddr); ok {
						for _, w := range *e.Referrers() {
							if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(e) {
								r = append(r, f.funcs(st.Val)...)
							}
						}
					}
				}
				if len(r) > 0 {
					return r
				}
			}
		}
		l, _ := f.addrLoc(x.X)
		l = strings.TrimSuffix(strings.SplitN(l, "@", 2)[0], "[]")
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if o := f.owner(fa.X); o != "" && f.lw.stored[o+">"+l] != nil {
				return f.lw.stored[o+">"+l]
			}
		}
		return f.lw.stored[l]
	case *ssa.Parameter, *ssa.FreeVar:
		return f.bind[v].fns
	}
	return nil
}

// owner: the field or variable an object was taken from.
func (f *lockFrame) owner(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			l, _ := f.addrLoc(x.X)
			return l
		}
	case *ssa.Parameter, *ssa.FreeVar:
		return f.bind[v].own
	}
	return ""
}

// storedIn: the fields and variables a new object is put into.
func (f *lockFrame) storedIn(v ssa.Value) []string {
	if v.Referrers() == nil {
		return nil
	}
	var r []string
	for _, u := range *v.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Val == v {
			if l, _ := f.addrLoc(st.Addr); l != "" {
				r = append(r, l)
			}
		}
	}
	return r
}

// syncOp recognises an operation on a lock.
func syncOp(c *ssa.CallCommon) (op string, recv ssa.Value) {
	g := c.StaticCallee()
	if g == nil || g.Signature.Recv() == nil || len(c.Args) == 0 {
		return "", nil
	}
	n, ok := deref(g.Signature.Recv().Type()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return "", nil
	}
	if t := n.Obj().Name(); t != "Mutex" && t != "RWMutex" {
		return "", nil
	}
	return g.Name(), c.Args[0]
}

func (f *lockFrame) lockOp(s *lockState, op string, recv ssa.Value, at string, in ssa.Instruction) {
	lw := f.lw
	l, fresh := f.addrLoc(recv)
	if l == "" {
		if fresh {
			return
		}
		l = "lock of " + FnName(f.fn)
	}
	lw.locks[l] = true
	name := FnName(f.fn)
	switch op {
	case "Lock", "RLock":
		m := 2
		if op == "RLock" {
			m = 1
		}
		if f.final {
			if s.may[l] > 0 {
				lw.fact("twice", lockFact{at, name, l, "takes " + l + " while it may hold it already"})
			}
			for h := range s.may {
				if h != l {
					if lw.order[h] == nil {
						lw.order[h] = map[string]string{}
					}
					lw.order[h][l] = at + " in " + name
				}
			}
			if lw.takes[l] == nil {
				lw.takes[l] = map[string]bool{}
			}
			lw.takes[l][name] = true
		}
		s.must[l], s.may[l] = m, m
		if f.deferred(l, in) {
			s.cur[l+"|d|"] = true
		}
	case "Unlock", "RUnlock":
		m := 2
		if op == "RUnlock" {
			m = 1
		}
		if f.final {
			if s.may[l] == 0 {
				lw.fact("not-held", lockFact{at, name, l, "gives back " + l + " without holding it"})
			} else if s.must[l] != 0 && s.must[l] != m {
				lw.fact("mode", lockFact{at, name, l, "gives back " + l + " in the other mode"})
			}
		}
		wrote, reads := "", map[string]bool{}
		for _, k := range sortedKeys(s.cur) {
			if p := strings.SplitN(k, "|", 3); p[0] == l {
				if p[1] == "w" {
					wrote = p[2]
				} else if p[1] == "r" {
					reads[p[2]] = true
				}
				delete(s.cur, k)
			}
		}
		if f.final && wrote != "" {
			for _, k := range sortedKeys(s.past) {
				if p := strings.SplitN(k, "|", 2); p[0] == l && !reads[p[1]] && (strings.HasSuffix(p[1], "[]") || lw.whole[p[1]]) {
					lw.fact("split", lockFact{at, name, l, "changes " + wrote + " after what it read of " + p[1] + " in an earlier section of " + l + " may have changed"})
				}
			}
		}
		for r := range reads {
			s.past[l+"|"+r] = true
		}
		delete(s.must, l)
		delete(s.may, l)
	}
}

func (f *lockFrame) access(s *lockState, loc string, fresh, write bool, at string) {
	if loc == "" || fresh || f.init {
		return
	}
	for l := range s.may {
		if pkgPart(l) == pkgPart(loc) {
			if write {
				s.cur[l+"|w|"+loc] = true
			} else {
				s.cur[l+"|r|"+loc] = true
			}
		}
	}
	if !f.final {
		return
	}
	a := access{loc: loc, at: at, fn: FnName(f.fn), write: write, must: s.must.copy(), root: f.lw.root}
	f.lw.acc[fmt.Sprintf("%s|%s|%v|%s|%s", loc, at, write, a.fn, s.must)] = a
}

// extWrites: a method of a container from another module that changes it.
func extWrites(name string) bool {
	for _, p := range []string{"Push", "Insert", "Move", "Remove", "Add", "Put", "Append", "Prepend", "Clear", "Set", "Swap", "Sort", "Init", "Store", "Delete", "Write", "Reset", "Int", "Uint", "Float", "Shuffle", "Perm", "Seed", "Read"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (lw *lockWorld) blocking(g *ssa.Function) string {
	p, n := FnPkg(g), g.Name()
	switch {
	case p == "time" && n == "Sleep":
		return "sleeps"
	case p == "sync" && n == "Wait":
		return "waits for other goroutines"
	case p == "net" && (strings.HasPrefix(n, "Dial") && n != "DialUDP" || n == "Read" || n == "Accept"):
		return "waits for the network"
	case p == "net/http" && (n == "Get" || n == "Do" || n == "Post" || n == "Head" || n == "PostForm") && (g.Signature.Recv() == nil || strings.HasSuffix(g.Signature.Recv().Type().String(), "http.Client")):
		return "waits for the network"
	}
	return ""
}

func (f *lockFrame) held(s *lockState) string {
	if len(s.may) == 0 {
		return ""
	}
	return sortedKeys(s.may)[0]
}

func (f *lockFrame) call(s *lockState, in ssa.CallInstruction, c *ssa.CallCommon) {
	lw := f.lw
	at := lw.w.At(in.(ssa.Instruction))
	if op, recv := syncOp(c); op != "" {
		f.lockOp(s, op, recv, at, in.(ssa.Instruction))
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear":
			l, fr := f.content(c.Args[0])
			f.access(s, l, fr, true, at)
		case "len", "append", "copy":
			for i, a := range c.Args {
				l, fr := f.content(a)
				f.access(s, l, fr, b.Name() == "copy" && i == 0, at)
			}
		}
		return
	}
	var targets []*ssa.Function
	g := c.StaticCallee()
	dyn := false
	switch {
	case g != nil:
		targets = []*ssa.Function{g}
	case c.IsInvoke():
		dyn = true
		targets = lw.impls(c)
		if f.final && f.held(s) != "" {
			if t := c.Value.Type(); strings.HasPrefix(typeName(t), "net.") && (c.Method.Name() == "Read" || c.Method.Name() == "Write" || c.Method.Name() == "Accept") {
				lw.fact("wait", lockFact{at, FnName(f.fn), f.held(s), "waits for the network while it holds " + f.held(s)})
			}
		}
	default:
		dyn = true
		targets = f.funcs(c.Value)
	}
	if f.final && dyn && (c.IsInvoke() || len(targets) == 0) {
		for l := range s.must {
			if !s.cur[l+"|d|"] {
				lw.fact("panic", lockFact{at, FnName(f.fn), l, "a panic of the code called here leaves " + l + " held"})
			}
		}
	}
	var exit *lockState
	for _, t := range targets {
		e := s.copy()
		if lw.w.InRepo(t) && t.Blocks != nil {
			bind := map[ssa.Value]bound{}
			ps := t.Params
			args := c.Args
			if c.IsInvoke() {
				args = append([]ssa.Value{c.Value}, args...)
			} else if g == nil && len(ps) == len(args)+1 {
				ps = ps[1:] // a bound method
			}
			for i, p := range ps {
				if i < len(args) {
					bind[p] = f.boundOf(args[i])
				}
			}
			if mc, ok := c.Value.(*ssa.MakeClosure); ok && len(mc.Bindings) == len(t.FreeVars) {
				for i, fv := range t.FreeVars {
					bind[fv] = f.boundOf(mc.Bindings[i])
				}
			}
			e = lw.analyse(t, s, bind, f.init)
		} else {
			f.ext(e, t, in, c, at)
		}
		if exit == nil {
			exit = e
		} else {
			exit.join(e)
		}
	}
	if exit != nil {
		*s = *exit
	}
}

// ext: a call of code outside the repository.
func (f *lockFrame) ext(s *lockState, g *ssa.Function, in ssa.CallInstruction, c *ssa.CallCommon, at string) {
	lw := f.lw
	if f.final && f.held(s) != "" {
		if b := lw.blocking(g); b != "" {
			lw.fact("wait", lockFact{at, FnName(f.fn), f.held(s), b + " while it holds " + f.held(s)})
		}
	}
	if FnPkg(g) == "sync/atomic" {
		return
	}
	// a container of another module
	if g.Signature.Recv() != nil && len(c.Args) > 0 {
		if l, fr := f.content(c.Args[0]); l != "" {
			f.access(s, l, fr, extWrites(g.Name()), at)
		}
	}
	for _, a := range c.Args {
		if isFuncType(a.Type()) {
			init := FnPkg(g) == "sync" && g.Name() == "Do"
			for _, t := range f.funcs(a) {
				if lw.w.InRepo(t) && t.Blocks != nil {
					bind := map[ssa.Value]bound{}
					if mc, ok := a.(*ssa.MakeClosure); ok && len(mc.Bindings) == len(t.FreeVars) {
						for i, fv := range t.FreeVars {
							bind[fv] = f.boundOf(mc.Bindings[i])
						}
					}
					if init {
						// it runs once, before anything that could lead here
						lw.analyse(t, newLockState(), bind, true)
					} else {
						s.join(lw.analyse(t, s, bind, f.init))
					}
				}
			}
		}
	}
}

func (f *lockFrame) boundOf(v ssa.Value) bound {
	b := bound{}
	switch u := v.Type().Underlying().(type) {
	case *types.Signature:
		b.fns = f.funcs(v)
	case *types.Map, *types.Slice:
		b.loc, b.fresh = f.content(v)
	case *types.Pointer:
		b.fresh = f.fresh(v)
		b.own = f.owner(v)
		if typeName(v.Type()) == "" || !strings.HasPrefix(typeName(v.Type()), "scouterx") {
			// an address, or a container of another module
			if _, ok := v.(*ssa.UnOp); ok {
				b.loc, b.fresh = f.content(v)
			} else {
				b.loc, b.fresh = f.addrLoc(v)
				if b.loc == "" {
					b.fresh = f.fresh(v)
				}
			}
		}
		_ = u
	}
	return b
}

// impls: the repository's methods an interface call may reach.
func (lw *lockWorld) impls(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 || c.Method.Name() == "Error" || c.Method.Name() == "String" {
		return nil
	}
	var r []*ssa.Function
	for _, f := range lw.w.Funcs {
		if rc := f.Signature.Recv(); rc != nil && f.Name() == c.Method.Name() && f.Synthetic == "" && types.Implements(rc.Type(), it) {
			r = append(r, f)
		}
	}
	return r
}

func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// releases: the deferred call gives the lock back.
func (f *lockFrame) releases(d *ssa.Defer, l string) bool {
	if op, r := syncOp(&d.Call); op != "" {
		n, _ := f.addrLoc(r)
		return n == l && (op == "Unlock" || op == "RUnlock")
	}
	for _, g := range append(f.funcs(d.Call.Value), d.Call.StaticCallee()) {
		if g == nil {
			continue
		}
		e := newLockState()
		e.must[l], e.may[l] = 2, 2
		if f.lw.w.InRepo(g) && g.Blocks != nil && f.lw.quietExit(g, e).may[l] == 0 {
			return true
		}
	}
	return false
}

// deferred: the release of the lock is deferred before this point.
func (f *lockFrame) deferred(l string, at ssa.Instruction) bool {
	for _, b := range f.fn.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok && before(d, at) && f.releases(d, l) {
				return true
			}
		}
	}
	return false
}

func (lw *lockWorld) quietExit(g *ssa.Function, s *lockState) *lockState {
	sub := &lockWorld{w: lw.w, memo: map[string]*lockState{}, busy: map[string]bool{}, acc: map[string]access{}, order: map[string]map[string]string{},
		facts: map[string]map[string]lockFact{}, stored: lw.stored, locks: map[string]bool{}, takes: map[string]map[string]bool{}, funcs: map[*ssa.Function]bool{}, shared: map[*ssa.Function]bool{}, roots: map[*ssa.Function]bool{}, globals: map[string]bool{}, whole: map[string]bool{}, ownedT: map[*types.Named]bool{}, escapes: map[string]lockFact{}}
	return sub.analyse(g, s, nil, false)
}

func (f *lockFrame) instr(s *lockState, in ssa.Instruction) {
	lw := f.lw
	at := lw.w.At(in)
	switch x := in.(type) {
	case *ssa.Call:
		f.call(s, x, &x.Call)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			l, fr := f.addrLoc(x.X)
			f.access(s, l, fr, false, at)
		} else if x.Op == token.ARROW && f.final && f.held(s) != "" {
			lw.fact("wait", lockFact{at, FnName(f.fn), f.held(s), "waits for a channel while it holds " + f.held(s)})
		}
	case *ssa.Store:
		l, fr := f.addrLoc(x.Addr)
		f.access(s, l, fr, true, at)
	case *ssa.MapUpdate:
		l, fr := f.content(x.Map)
		f.access(s, l, fr, true, at)
	case *ssa.Lookup:
		l, fr := f.content(x.X)
		f.access(s, l, fr, false, at)
	case *ssa.Range:
		l, fr := f.content(x.X)
		f.access(s, l, fr, false, at)
	case *ssa.Next:
		l, fr := f.content(x.Iter)
		f.access(s, l, fr, false, at)
	case *ssa.Send:
		if f.final && f.held(s) != "" {
			lw.fact("wait", lockFact{at, FnName(f.fn), f.held(s), "waits for a channel while it holds " + f.held(s)})
		}
	case *ssa.Select:
		if x.Blocking && f.final && f.held(s) != "" {
			lw.fact("wait", lockFact{at, FnName(f.fn), f.held(s), "waits for a channel while it holds " + f.held(s)})
		}
	case *ssa.Defer:
		for l := range s.may {
			if f.releases(x, l) {
				s.cur[l+"|d|"] = true
			}
		}
	case *ssa.RunDefers:
		var ds []*ssa.Defer
		for _, b := range f.fn.Blocks {
			for _, i := range b.Instrs {
				if d, ok := i.(*ssa.Defer); ok {
					ds = append(ds, d)
				}
			}
		}
		for i := len(ds) - 1; i >= 0; i-- {
			if before(ds[i], x) {
				f.call(s, ds[i], &ds[i].Call)
			} else if reachable(ds[i].Block(), x.Block()) {
				o := s.copy()
				f.call(o, ds[i], &ds[i].Call)
				// on some paths
				keep := s.copy()
				*s = *o
				s.join(keep)
			}
		}
	case *ssa.Return:
		for _, r := range x.Results {
			if l, fr := f.content(r); l != "" && !fr && f.final {
				switch r.Type().Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer:
					for h := range s.must {
						if pkgPart(h) == pkgPart(l) {
							l = "" // the caller holds the lock
						}
					}
					if l == "" {
						continue
					}
					lw.escapes[FnName(f.fn)+"|"+l] = lockFact{at, FnName(f.fn), l, "hands out " + strings.TrimSuffix(l, "[]") + " itself, to be used without the lock"}
				}
			}
		}
	}
}

func reachable(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, n := range x.Succs {
			if rec(n) {
				return true
			}
		}
		return false
	}
	return rec(a)
}

func (lw *lockWorld) analyse(fn *ssa.Function, entry *lockState, bind map[ssa.Value]bound, init bool) *lockState {
	var bs []string
	for i, p := range fn.Params {
		b := bind[p]
		bs = append(bs, fmt.Sprintf("%d:%s:%v:%v:%s", i, b.loc, b.fns, b.fresh, b.own))
	}
	for i, p := range fn.FreeVars {
		b := bind[p]
		bs = append(bs, fmt.Sprintf("f%d:%s:%v:%v:%s", i, b.loc, b.fns, b.fresh, b.own))
	}
	in := entry.copy()
	in.past = map[string]bool{}
	key := fmt.Sprintf("%p|%s|%v|%s", fn, in, init, strings.Join(bs, ";"))
	out := func(e *lockState) *lockState {
		r := e.copy()
		for k := range entry.past {
			r.past[k] = true
		}
		return r
	}
	if r, ok := lw.memo[key]; ok {
		return out(r)
	}
	if lw.busy[key] {
		return entry.copy()
	}
	lw.busy[key] = true
	lw.contexts++
	lw.funcs[fn] = true
	if !init {
		lw.shared[fn] = true
	}
	f := &lockFrame{lw: lw, fn: fn, bind: bind, init: init}
	at := map[*ssa.BasicBlock]*lockState{fn.Blocks[0]: in.copy()}
	var exit *lockState
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if at[b] == nil {
				continue
			}
			s := at[b].copy()
			for _, i := range b.Instrs {
				f.instr(s, i)
			}
			for _, n := range b.Succs {
				if at[n] == nil {
					at[n] = s.copy()
					ch = true
				} else if at[n].join(s) {
					ch = true
				}
			}
		}
	}
	f.final = true
	for _, b := range fn.Blocks {
		if at[b] == nil || b == fn.Recover {
			continue
		}
		s := at[b].copy()
		for _, i := range b.Instrs {
			f.instr(s, i)
			if r, ok := i.(*ssa.Return); ok {
				for l := range s.may {
					if in.may[l] == 0 && (lw.roots[fn] || ast.IsExported(fn.Name())) {
						lw.fact("kept", lockFact{lw.w.At(r), FnName(fn), l, "returns on some path while it holds " + l})
					}
				}
				if exit == nil {
					exit = s.copy()
				} else {
					exit.join(s)
				}
			}
		}
	}
	if exit == nil {
		exit = in.copy()
	}
	delete(lw.busy, key)
	lw.memo[key] = exit
	return out(exit)
}

func newLockWorld(w *World) *lockWorld {
	lw := &lockWorld{w: w, memo: map[string]*lockState{}, busy: map[string]bool{}, acc: map[string]access{}, order: map[string]map[string]string{},
		facts: map[string]map[string]lockFact{}, stored: map[string][]*ssa.Function{}, callers: map[*ssa.Function]bool{}, locks: map[string]bool{}, takes: map[string]map[string]bool{}, funcs: map[*ssa.Function]bool{}, shared: map[*ssa.Function]bool{}, roots: map[*ssa.Function]bool{}, globals: map[string]bool{}, whole: map[string]bool{}, ownedT: map[*types.Named]bool{}, escapes: map[string]lockFact{}}
	// function values kept in fields and variables, also through a parameter of a constructor
	type ps struct {
		fn  *ssa.Function
		idx int
	}
	through := map[ps]string{}
	add := func(l string, g *ssa.Function) {
		for _, o := range lw.stored[l] {
			if o == g {
				return
			}
		}
		lw.stored[l] = append(lw.stored[l], g)
	}
	for _, fn := range w.Funcs {
		f := &lockFrame{lw: lw, fn: fn}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isFuncType(st.Val.Type()) {
					continue
				}
				l, _ := f.addrLoc(st.Addr)
				if l == "" {
					continue
				}
				if g := unbind(st.Val); g != nil {
					add(l, g)
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						for _, o := range f.storedIn(fa.X) {
							add(o+">"+l, g)
						}
					}
				}
				for i, p := range fn.Params {
					if st.Val == ssa.Value(p) {
						through[ps{fn, i}] = l
					}
				}
			}
		}
	}
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				g := c.StaticCallee()
				if _, isGo := in.(*ssa.Go); !isGo {
					if g != nil {
						lw.callers[g] = true
					}
					if c.IsInvoke() {
						for _, t := range lw.impls(c) {
							lw.callers[t] = true
						}
					}
				}
				for i, a := range c.Args {
					if h := unbind(a); h != nil && isFuncType(a.Type()) {
						if g != nil {
							if l := through[ps{g, i}]; l != "" {
								add(l, h)
								if v, ok := in.(ssa.Value); ok {
									f := &lockFrame{lw: lw, fn: fn}
									for _, o := range f.storedIn(v) {
										add(o+">"+l, h)
									}
								}
							}
						}
						if _, isGo := in.(*ssa.Go); !isGo && (g == nil || lw.callsParam(g, i) || !w.InRepo(g)) {
							lw.callers[h] = true // run by the function it is given to
						}
					}
				}
			}
		}
	}
	for l := range lw.stored {
		sort.Slice(lw.stored[l], func(i, j int) bool { return FnName(lw.stored[l][i]) < FnName(lw.stored[l][j]) })
	}
	for _, fs := range lw.stored {
		for _, g := range fs {
			if g.Parent() != nil {
				lw.callers[g] = true
			}
		}
	}
	// functions some instruction uses at all
	mentioned := map[*ssa.Function]bool{}
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g := unbind(*o); g != nil {
						mentioned[g] = true
					}
				}
			}
		}
	}
	for _, fn := range w.Funcs {
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		isInit := fn.Parent() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
		started := lw.started(fn)
		if lw.callers[fn] && !started && !isInit {
			continue
		}
		if rc := fn.Signature.Recv(); rc != nil && !started {
			if n, ok := deref(rc.Type()).(*types.Named); ok && lw.owned(n) {
				continue // nothing runs it
			}
		}
		if !started && !isInit && !lw.callers[fn] && fn.Parent() == nil && fn.Name() != "main" && !ast.IsExported(fn.Name()) && !mentioned[fn] {
			continue // no call, no value: nothing runs it
		}
		lw.root = FnName(fn)
		lw.roots[fn] = true
		lw.analyse(fn, newLockState(), nil, isInit)
	}
	// functions that so far only ran as part of an initialiser
	for _, fn := range w.Funcs {
		if fn.Synthetic == "" && fn.Parent() == nil && lw.funcs[fn] && !lw.shared[fn] && ast.IsExported(fn.Name()) {
			lw.root = FnName(fn)
			lw.analyse(fn, newLockState(), nil, false)
		}
	}
	return lw
}

// callsParam: the function calls its i-th parameter, or hands it on.
func (lw *lockWorld) callsParam(g *ssa.Function, i int) bool {
	return i < len(g.Params) && callsValue(g.Params[i])
}

func callsValue(p ssa.Value) bool {
	for _, r := range *p.Referrers() {
		if mc, ok := r.(*ssa.MakeClosure); ok {
			for j, b := range mc.Bindings {
				if f := mc.Fn.(*ssa.Function); b == p && j < len(f.FreeVars) && f.FreeVars[j].Referrers() != nil && callsValue(f.FreeVars[j]) {
					return true
				}
			}
		}
		if ci, ok := r.(ssa.CallInstruction); ok {
			if ci.Common().Value == ssa.Value(p) {
				return true
			}
			for _, a := range ci.Common().Args {
				if a == ssa.Value(p) {
					return true
				}
			}
		}
	}
	return false
}

// started: some go statement starts the function.
func (lw *lockWorld) started(fn *ssa.Function) bool {
	for _, g := range goStarts(lw.w) {
		if g.Fn == fn {
			return true
		}
	}
	return false
}

// guard is the lock data is kept under, and the accesses that do not hold it.
type guard struct {
	loc, lock string
	acc       []access
	writes    int
	bad       []access
}

// owned: a type without a reader of its own: every object of it sits in a field of a structure
// that has a lock, so that its methods only run under that lock.
func (lw *lockWorld) owned(t *types.Named) bool {
	if v, ok := lw.ownedT[t]; ok {
		return v
	}
	lw.ownedT[t] = lw.owned2(t)
	return lw.ownedT[t]
}

func (lw *lockWorld) owned2(t *types.Named) bool {
	if t.Obj().Pkg() == nil || !strings.HasPrefix(t.Obj().Pkg().Path(), modPath) {
		return false
	}
	n := 0
	for _, fn := range lw.w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !types.Identical(deref(st.Val.Type()), t) {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.Alloc:
				case *ssa.FieldAddr:
					if !hasLock(deref(a.X.Type())) {
						return false
					}
					n++
				default:
					return false
				}
			}
		}
	}
	return n > 0
}

func hasLock(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if n, ok := deref(st.Field(i).Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && strings.HasSuffix(n.Obj().Name(), "Mutex") {
			return true
		}
	}
	return false
}

// guarded finds the data kept under locks: data that changes after it was set up and that some
// code uses while it holds a lock of the same package.
func (lw *lockWorld) guarded() []*guard {
	by := map[string]*guard{}
	for _, k := range sortedKeys(lw.acc) {
		a := lw.acc[k]
		g := by[a.loc]
		if g == nil {
			g = &guard{loc: a.loc}
			by[a.loc] = g
		}
		g.acc = append(g.acc, a)
		if a.write {
			g.writes++
		}
	}
	var r []*guard
	for _, l := range sortedKeys(by) {
		g := by[l]
		if g.writes == 0 || strings.HasPrefix(l, "conf.Configure.") {
			continue // the settings are read without a lock by design
		}
		ok := func(a access, lock string) bool { return a.must[lock] == 2 || a.must[lock] == 1 && !a.write }
		best := -1
		for _, lock := range sortedKeys(lw.locks) {
			if pkgPart(lock) != pkgPart(l) {
				continue
			}
			n := 0
			for _, a := range g.acc {
				if ok(a, lock) {
					n++
				}
			}
			if n > 0 && n > best {
				g.lock, best = lock, n
			}
		}
		if best < 0 {
			continue
		}
		for _, a := range g.acc {
			if !ok(a, g.lock) {
				g.bad = append(g.bad, a)
			}
		}
		r = append(r, g)
	}
	return r
}

const (
	cmPkg  = "common/structure/cachemap"
	cm2Pkg = "common/structure/cachemap2"
	csPkg  = "common/structure/cacheset"
	kgPkg  = "common/util/keygen"
	cfPkg  = "conf"
)

var lockMemo *lockWorld

func theLocks(w *World) *lockWorld {
	if lockMemo == nil || lockMemo.w != w {
		lockMemo = newLockWorld(w)
	}
	return lockMemo
}

// sharedData: state of the agent that every goroutine may reach.
func (lw *lockWorld) sharedData(loc string) bool {
	switch p := pkgPart(loc); p {
	case lraPkg, cmPkg, cm2Pkg, csPkg, kgPkg, ctrPkg, cfPkg, stPkg:
		if strings.HasPrefix(loc, "conf.Configure.") {
			return false // settings
		}
		if !lw.globals[strings.TrimSuffix(loc, "[]")] {
			return true
		}
	}
	// what several goroutines or callers reach of a package's map or slice
	l := strings.TrimSuffix(loc, "[]")
	if !lw.globals[l] || l == loc && pkgPart(loc) != cfPkg {
		return false
	}
	roots := map[string]bool{}
	for _, a := range lw.acc {
		if a.loc == loc {
			roots[a.root] = true
		}
	}
	return len(roots) > 1
}

func init() {
	register("C19", "An interprocedural lock-set analysis over every function of the agent (by entry state, new objects and run-once initialisers set aside) records which locks are certainly held at every use of shared state; each piece of state has to be used under one lock, exclusively where it is changed, must not be handed out to be used without it, and no change may rest on what was read in an earlier section of the lock.", func(c *Ctx) {
		lw := theLocks(c.W)
		for f := range lw.funcs {
			c.Fn(f)
		}
		anchors := map[string]string{lraPkg: "Cache", cmPkg: "CacheMap", cm2Pkg: "CacheMap", csPkg: "CacheSet", ctrPkg: "ServiceMetering", kgPkg: "KeyGen"}
		for _, p := range sortedKeys(anchors) {
			if c.W.Type(p, anchors[p]) == nil {
				c.Bad("classify", p+"."+anchors[p], "", "this type is not there any more")
			}
		}
		gd := map[string]*guard{}
		for _, g := range lw.guarded() {
			if !lw.sharedData(g.loc) {
				continue
			}
			gd[g.loc] = g
			c.Ob("guarded", g.loc)
			for _, a := range g.acc {
				c.Ob("access", a.loc+" in "+a.fn+" at "+a.at)
			}
			for _, b := range g.bad {
				how := "reads"
				if b.write {
					how = "changes"
				}
				held := b.must.String()
				if held == "" {
					held = "no lock"
				}
				c.Bad("guarded", g.loc+" in "+b.fn, b.at, how+" "+g.loc+", which "+g.lock+" protects, with "+held+" held (reached from "+b.root+")")
			}
		}
		for _, k := range sortedKeys(lw.acc) {
			if a := lw.acc[k]; a.write && gd[a.loc] == nil && lw.sharedData(a.loc) {
				c.Bad("guarded", a.loc+" in "+a.fn, a.at, "changes "+a.loc+", which other goroutines use, and nothing uses a lock for it (reached from "+a.root+")")
			}
		}
		for _, k := range sortedKeys(lw.escapes) {
			if x := lw.escapes[k]; gd[x.lock] != nil {
				c.Bad("handed-out", x.lock+" by "+x.fn, x.at, x.msg)
			}
		}
		for _, k := range sortedKeys(lw.facts["split"]) {
			x := lw.facts["split"][k]
			c.Bad("one-section", x.lock+" in "+x.fn, x.at, x.msg)
		}
		c.Floor("guarded", 12)
		c.Floor("access", 80)
	})
	register("C20", "The same lock-set analysis decides that no function returns, and no call of code the agent does not know can panic, with a lock held, that no lock is taken by a holder or given back by a stranger, that nothing waits for the network, a channel or the clock under a lock, and that the order in which locks are taken has no cycle.", func(c *Ctx) {
		lw := theLocks(c.W)
		for f := range lw.funcs {
			c.Fn(f)
		}
		for _, l := range sortedKeys(lw.takes) {
			for _, f := range sortedKeys(lw.takes[l]) {
				c.Ob("taken", l+" in "+f)
			}
		}
		for _, k := range []string{"kept", "twice", "not-held", "mode", "panic", "wait"} {
			for _, x := range sortedKeys(lw.facts[k]) {
				f := lw.facts[k][x]
				c.Bad(k, f.lock+" in "+f.fn, f.at, f.msg)
			}
		}
		// cycles
		for _, h := range sortedKeys(lw.order) {
			for _, t := range sortedKeys(lw.order[h]) {
				c.Ob("order", h+" before "+t)
				seen := map[string]bool{}
				var back func(x string) bool
				back = func(x string) bool {
					if x == h {
						return true
					}
					if seen[x] {
						return false
					}
					seen[x] = true
					for _, n := range sortedKeys(lw.order[x]) {
						if back(n) {
							return true
						}
					}
					return false
				}
				if back(t) {
					c.Bad("order", h+" before "+t, lw.order[h][t], "takes "+t+" while it holds "+h+", and elsewhere they are taken the other way round")
				}
			}
		}
		c.Floor("taken", 30)
		c.Floor("order", 2)
	})
}
