package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- states

type deferred struct {
	instr ssa.CallInstruction
	fn    *Term   // nil for invoke / builtin
	args  []*Term // includes receiver for invoke
}

type frame struct {
	fn       *ssa.Function
	ctx      string // call-string context
	blk      *ssa.BasicBlock
	idx      int
	env      map[ssa.Value]*Term
	bindings []*Term
	params   []*Term
	defers   []deferred
	isDefer  bool
	isGo     bool
	recs     int
	ctx0     string          // ctx without the unrolled iteration
	unroll   *ssa.BasicBlock // header of the loop over a literal list that is being followed element by element
	iter     int
}

func (f *frame) clone() *frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	return &g
}

type ival struct {
	lo, hi int64
	ne     []int64
}

type fact struct {
	truth int8 // for boolean condition terms: 1 true, -1 false
	eq    *Term
	nes   []*Term
	iv    *ival
}

type cell struct {
	addr *Term
	val  *Term
}

type trace struct {
	prev *trace
	msg  string
}

// State is one abstract configuration of the explored root function.
type State struct {
	frames      []*frame
	store       map[int]cell
	epoch       map[string]string
	facts       map[int]fact
	Vars        map[string]string // the property monitor's finite state
	trace       *trace
	opaqueDepth int
}

func (s *State) clone() *State {
	n := &State{trace: s.trace}
	n.frames = make([]*frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.store = make(map[int]cell, len(s.store))
	for k, v := range s.store {
		n.store[k] = v
	}
	n.epoch = make(map[string]string, len(s.epoch))
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	n.facts = make(map[int]fact, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.Vars = make(map[string]string, len(s.Vars))
	for k, v := range s.Vars {
		n.Vars[k] = v
	}
	return n
}

func (s *State) Get(k string) string { return s.Vars[k] }
func (s *State) Set(k, v string) {
	if v == "" {
		delete(s.Vars, k)
	} else {
		s.Vars[k] = v
	}
}
func (s *State) Note(format string, a ...any) {
	s.trace = &trace{s.trace, fmt.Sprintf(format, a...)}
}
func (s *State) Trace() []string {
	var r []string
	for t := s.trace; t != nil; t = t.prev {
		r = append(r, t.msg)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Async: the current instruction runs in a goroutine started during the exploration (GoInline).
func (s *State) Async() bool {
	for _, f := range s.frames {
		if f.isGo {
			return true
		}
	}
	return false
}

// loopBody is the block set of the loop whose header the top frame is about to enter or is at.
func (e *Engine) inLoopSite(s *State, hdr string, t *Term) bool {
	i := strings.LastIndex(hdr, ":")
	f := s.top()
	if t.Op == "phi" {
		if strings.HasPrefix(t.Aux, hdr+".") {
			return false
		}
		t = &Term{Op: "fresh", Aux: "@" + t.Aux}
	}
	for h, body := range e.loopsIn(f.fn) {
		if strconv.Itoa(h.Index) == hdr[i+1:] {
			return e.siteInLoop(t, hdr[:i+1], body)
		}
	}
	return false
}

func (s *State) top() *frame { return s.frames[len(s.frames)-1] }

// ---------------------------------------------------------------- engine

type Call struct {
	Instr  ssa.CallInstruction
	Fn     *ssa.Function // resolved callee, nil when unknown
	Method *types.Func   // interface method when not resolved
	Recv   *Term         // receiver of an unresolved interface call
	Args   []*Term       // for methods args[0] is the receiver
	Site   string
	Depth  int
	Defer  bool
	Kind   string // "call", "builtin"
	Name   string
	Caller *ssa.Function
}

type Engine struct {
	W  *World
	TT *TermTab

	// hooks
	Opaque    func(f *ssa.Function) bool                                  // do not inline this repository function
	OnCall    func(s *State, c *Call) (res *Term, handled bool)           // called for every call before inlining
	OnStore   func(s *State, in ssa.Instruction, addr, val *Term)         // before a store
	OnMapSet  func(s *State, in ssa.Instruction, m, k, v *Term)           //
	OnGo      func(s *State, c *Call)                                     // go statement
	OnInstr   func(s *State, in ssa.Instruction)                          // before every instruction
	OnBranch  func(s *State, in *ssa.If, cond *Term, taken bool)          // after facts were updated
	OnReturn  func(s *State, in *ssa.Return, res []*Term)                 // return of the root function
	OnPanic   func(s *State, in *ssa.Panic)                               //
	OnSend    func(s *State, in ssa.Instruction, ch, v *Term)             //
	OnRecv    func(s *State, in ssa.Instruction, ch *Term) *Term          //
	OnLookup  func(s *State, in ssa.Instruction, m, k *Term)              //
	OnIndex   func(s *State, in ssa.Instruction, x, i *Term)              //
	Unroll    bool                                                        // follow loops over literal lists element by element
	Rewrite   func(s *State, t *Term) *Term                               // what a value just computed is known to be
	OnLen     func(s *State, x *Term)                                     //
	OnHeader  func(s *State, hdr string, phis map[*Term]*Term, back bool) // a loop header's phis receive new values
	KeepFact  func(subject *Term) bool                                    // always record facts about this subject
	PureCall  func(f *ssa.Function) bool                                  // same args give the same result
	NoHavoc   func(c *Call) bool                                          // opaque call does not write tracked memory
	InlineExt func(f *ssa.Function) bool                                  // inline this non-repository function
	TermIval  func(t *Term) *ival                                         // range an input is assumed to lie in
	PeelInit  bool                                                        // a loop variable is known to have its initial value in the first round
	RootBind  []*Term                                                     // what the root's free variables are bound to
	InitStore map[int]cell                                                // memory the root starts with
	GoInline  bool                                                        // explore go statements like calls (see State.Async)

	MaxStates int
	MaxDepth  int
	WidenAt   int

	Undecided []string
	NStates   int
	NPaths    int
	Visited   map[*ssa.Function]bool
	Dry       bool

	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	loops    map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	subjects map[int]map[string]bool
	relevant map[int]bool
	widened  map[string]*State
	counts   map[string]int
	loopInit map[int]*Term // loop phi term -> value on entry
}

// procStart bounds the time of a whole run: a check must answer before it is ended.
var procStart = time.Now()

func NewEngine(w *World) *Engine {
	tt := NewTermTab()
	lenOfTerm = func(like, base *Term) *Term { return tt.mk("len", "", types.Typ[types.Int], nil, base) }
	return &Engine{W: w, TT: tt, MaxStates: 60000, MaxDepth: 24, WidenAt: 400, Unroll: true, Visited: map[*ssa.Function]bool{},
		loopInit: map[int]*Term{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
}

// Run explores root abstractly. A first pass finds which condition subjects are tested at
// more than one place (only those facts are worth keeping); a second pass fires the hooks for real.
func (e *Engine) Run(root *ssa.Function, params []*Term, init map[string]string, reset func()) {
	e.subjects = map[int]map[string]bool{}
	e.relevant = map[int]bool{}
	e.Dry = true
	e.explore(root, params, init)
	for id, sites := range e.subjects {
		if len(sites) > 1 {
			e.relevant[id] = true
		}
	}
	e.Dry = false
	e.Undecided = nil
	if reset != nil {
		reset()
	}
	e.explore(root, params, init)
}

// Params makes symbolic parameters for a root function.
func (e *Engine) Params(root *ssa.Function) []*Term {
	var ps []*Term
	for i, p := range root.Params {
		n := "p" + strconv.Itoa(i)
		_ = p
		ps = append(ps, e.TT.mk("param", n, p.Type(), nil))
	}
	return ps
}

func (e *Engine) explore(root *ssa.Function, params []*Term, init map[string]string) {
	if params == nil {
		params = e.Params(root)
	}
	outer := lenOfTerm
	lenOfTerm = func(like, base *Term) *Term { return e.TT.mk("len", "", types.Typ[types.Int], nil, base) }
	defer func() { lenOfTerm = outer }()
	e.NStates, e.NPaths = 0, 0
	e.widened = map[string]*State{}
	e.counts = map[string]int{}
	seen := map[string]bool{}
	st := &State{store: map[int]cell{}, epoch: map[string]string{}, facts: map[int]fact{}, Vars: map[string]string{}}
	for k, v := range init {
		st.Vars[k] = v
	}
	var bind []*Term
	for i, fv := range root.FreeVars {
		if i < len(e.RootBind) {
			bind = append(bind, e.RootBind[i])
			continue
		}
		bind = append(bind, e.TT.mk("param", "free:"+fv.Name(), fv.Type(), nil))
	}
	for k, v := range e.InitStore {
		st.store[k] = v
	}
	if root.Blocks == nil {
		e.undecided("root has no body: " + FnName(root))
		return
	}
	st.frames = []*frame{{fn: root, ctx: "", blk: root.Blocks[0], env: map[ssa.Value]*Term{}, params: params, bindings: bind}}
	e.Visited[root] = true
	work := []*State{st}
	began := time.Now()
	for len(work) > 0 {
		if e.NStates%256 == 255 && (time.Since(began) > 150*time.Second || time.Since(procStart) > 600*time.Second) {
			e.undecided("time limit reached exploring " + FnName(root))
			return
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.top().idx == 0 {
			s = e.normalise(s)
			if s == nil {
				continue
			}
			k := e.key(s)
			if seen[k] {
				continue
			}
			seen[k] = true
			e.NStates++
			if e.NStates > e.MaxStates {
				if os.Getenv("VERIF_DEBUG") != "" {
					for k, n := range e.counts {
						if n > 300 {
							fmt.Fprintln(os.Stderr, n, k)
						}
					}
				}
				e.undecided("state limit reached exploring " + FnName(root))
				return
			}
		}
		work = append(work, e.step(s)...)
	}
}

func (e *Engine) undecided(m string) {
	for _, u := range e.Undecided {
		if u == m {
			return
		}
	}
	e.Undecided = append(e.Undecided, m)
}

func (s *State) pointKey() string {
	var sb strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "%s#%d.%d/", f.ctx, f.blk.Index, f.idx)
	}
	return sb.String()
}

// normalise drops dead values and, past a threshold, joins states that differ at one point.
func (e *Engine) normalise(s *State) *State {
	for _, f := range s.frames {
		lv := e.liveIn(f.fn)[f.blk]
		if f.idx == 0 {
			for v := range f.env {
				if !lv[v] {
					delete(f.env, v)
				}
			}
		} else {
			la := e.liveAt(f)
			for v := range f.env {
				if !la[v] {
					delete(f.env, v)
				}
			}
		}
	}
	e.gcStore(s)
	pk := s.pointKey() + varsKey(s.Vars)
	e.counts[pk]++
	if e.counts[pk] <= e.WidenAt {
		return s
	}
	// widening: join with everything seen past the threshold
	w, ok := e.widened[pk]
	if !ok {
		e.widened[pk] = s.clone()
		return s
	}
	changed := false
	n := w.clone()
	n.trace = s.trace
	for i, f := range n.frames {
		g := s.frames[i]
		for v, t := range f.env {
			if g.env[v] != t {
				jt := e.TT.mk("fresh", "join:"+pk+":"+v.Name()+strconv.Itoa(i), v.Type(), nil)
				if jt != t {
					f.env[v] = jt
					changed = true
				}
			}
		}
		if len(f.defers) != len(g.defers) {
			return s
		}
	}
	for id, c := range n.store {
		if d, ok := s.store[id]; !ok || d.val != c.val {
			jt := e.TT.mk("fresh", "join:"+pk+":"+c.addr.String(), elemType(c.addr.Typ), nil)
			if jt != c.val {
				n.store[id] = cell{c.addr, jt}
				changed = true
			}
		}
	}
	for id, c := range s.store {
		if _, ok := n.store[id]; !ok {
			n.store[id] = cell{c.addr, e.TT.mk("fresh", "join:"+pk+":"+c.addr.String(), elemType(c.addr.Typ), nil)}
			changed = true
		}
	}
	for k, v := range s.epoch {
		if n.epoch[k] != v && n.epoch[k] != "join:"+pk {
			n.epoch[k] = "join:" + pk
			changed = true
		}
	}
	for id, f := range n.facts {
		if g, ok := s.facts[id]; !ok || !factEq(f, g) {
			delete(n.facts, id)
			changed = true
		}
	}
	if !changed {
		return nil
	}
	e.widened[pk] = n.clone()
	return n
}

func factEq(a, b fact) bool {
	if a.truth != b.truth || a.eq != b.eq || len(a.nes) != len(b.nes) || (a.iv == nil) != (b.iv == nil) {
		return false
	}
	for i := range a.nes {
		if a.nes[i] != b.nes[i] {
			return false
		}
	}
	if a.iv != nil {
		if a.iv.lo != b.iv.lo || a.iv.hi != b.iv.hi || len(a.iv.ne) != len(b.iv.ne) {
			return false
		}
	}
	return true
}

// gcStore removes cells of allocations that nothing live can reach.
func (e *Engine) gcStore(s *State) {
	reach := map[int]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if reach[t.ID] {
			return
		}
		reach[t.ID] = true
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, f := range s.frames {
		for _, t := range f.env {
			mark(t)
		}
		for _, t := range f.params {
			mark(t)
		}
		for _, t := range f.bindings {
			mark(t)
		}
		for _, d := range f.defers {
			if d.fn != nil {
				mark(d.fn)
			}
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for {
		n := len(reach)
		for _, c := range s.store {
			b := baseOf(c.addr)
			if b.Op != "alloc" || reach[b.ID] {
				mark(c.addr)
				mark(c.val)
			}
		}
		if len(reach) == n {
			break
		}
	}
	for id, c := range s.store {
		b := baseOf(c.addr)
		if b.Op == "alloc" && !reach[b.ID] {
			delete(s.store, id)
		}
	}
}

func varsKey(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k)
		sb.WriteByte('=')
		sb.WriteString(m[k])
		sb.WriteByte(';')
	}
	return sb.String()
}

func (e *Engine) key(s *State) string {
	var sb strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "%s#%d.%d{", f.ctx, f.blk.Index, f.idx)
		ks := make([]string, 0, len(f.env))
		for v, t := range f.env {
			ks = append(ks, v.Name()+":"+strconv.Itoa(t.ID))
		}
		sort.Strings(ks)
		for _, k := range ks {
			sb.WriteString(k)
			sb.WriteByte(',')
		}
		for _, d := range f.defers {
			fmt.Fprintf(&sb, "D%p", d.instr)
			for _, a := range d.args {
				sb.WriteString("." + strconv.Itoa(a.ID))
			}
		}
		sb.WriteByte('}')
	}
	ids := make([]int, 0, len(s.store))
	for id := range s.store {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(&sb, "%d=%d,", id, s.store[id].val.ID)
	}
	sb.WriteByte('|')
	sb.WriteString(varsKey(s.epoch))
	sb.WriteByte('|')
	ids = ids[:0]
	for id := range s.facts {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		f := s.facts[id]
		fmt.Fprintf(&sb, "%d:%d", id, f.truth)
		if f.eq != nil {
			fmt.Fprintf(&sb, "e%d", f.eq.ID)
		}
		for _, n := range f.nes {
			fmt.Fprintf(&sb, "n%d", n.ID)
		}
		if f.iv != nil {
			fmt.Fprintf(&sb, "i%d..%d%v", f.iv.lo, f.iv.hi, f.iv.ne)
		}
		sb.WriteByte(';')
	}
	sb.WriteByte('|')
	sb.WriteString(varsKey(s.Vars))
	return sb.String()
}

// ---------------------------------------------------------------- liveness and loops

func (e *Engine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := e.live[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			lv := map[ssa.Value]bool{}
			for _, sc := range b.Succs {
				for v := range in[sc] {
					lv[v] = true
				}
				for _, ins := range sc.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(lv, phi)
				}
				for _, ins := range sc.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, p := range sc.Preds {
						if p == b && tracked(phi.Edges[pi]) {
							lv[phi.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); !isPhi {
						delete(lv, v)
					}
				}
				if _, isPhi := ins.(*ssa.Phi); isPhi {
					// phis are evaluated on the edge: they are live-in of the block
					lv[ins.(ssa.Value)] = true
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && tracked(*op) {
						lv[*op] = true
					}
				}
			}
			if len(lv) != len(in[b]) {
				in[b] = lv
				changed = true
			}
		}
	}
	e.live[fn] = in
	return in
}

// liveAt: values needed from the frame's current instruction on (mid-block)
func (e *Engine) liveAt(f *frame) map[ssa.Value]bool {
	lv := map[ssa.Value]bool{}
	in := e.liveIn(f.fn)
	for _, sc := range f.blk.Succs {
		for v := range in[sc] {
			lv[v] = true
		}
		for _, ins := range sc.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for pi, p := range sc.Preds {
				if p == f.blk {
					lv[phi.Edges[pi]] = true
				}
			}
		}
	}
	for j := len(f.blk.Instrs) - 1; j >= f.idx; j-- {
		ins := f.blk.Instrs[j]
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				lv[*op] = true
			}
		}
	}
	return lv
}

// loopsOf maps each natural loop header to the blocks of its loop.
func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := r[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					r[h] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	return r
}

func (e *Engine) loopsIn(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	l := loopsOf(fn)
	e.loops[fn] = l
	return l
}

// modKeys: memory keys possibly stored by the instructions of the given blocks (transitively through inlined callees).
func (e *Engine) modKeys(blocks map[*ssa.BasicBlock]bool) (keys map[string]bool, all bool) {
	keys = map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var doInstr func(in ssa.Instruction)
	var doFn func(f *ssa.Function)
	doInstr = func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			keys[keyOfAddrValue(x.Addr)] = true
		case *ssa.MapUpdate:
			keys["map"] = true
		case ssa.CallInstruction:
			c := x.Common()
			if f := c.StaticCallee(); f != nil {
				if e.W.InRepo(f) && f.Blocks != nil {
					doFn(f)
				} else {
					for _, a := range c.Args {
						if _, ok := a.Type().Underlying().(*types.Pointer); ok {
							keys[keyOfAddrValue(a)] = true
						}
						if mi, ok := a.(*ssa.MakeInterface); ok {
							keys[keyOfAddrValue(mi.X)] = true
						}
					}
				}
			}
			for _, a := range c.Args {
				if mc, ok := a.(*ssa.MakeClosure); ok {
					doFn(mc.Fn.(*ssa.Function))
				}
			}
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				doFn(mc.Fn.(*ssa.Function))
			}
		}
	}
	doFn = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				doInstr(in)
			}
		}
	}
	for b := range blocks {
		for _, in := range b.Instrs {
			doInstr(in)
		}
	}
	return keys, false
}

func keyOfAddrValue(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := deref(x.X.Type())
		return typeStr(st) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return "[]" + typeStr(deref(x.Type()))
	case *ssa.Global:
		return "g:" + relPkg(x.Pkg.Pkg.Path()) + "." + x.Name()
	}
	return "*" + typeStr(deref(v.Type()))
}

func keyOfAddr(t *Term) string {
	switch t.Op {
	case "fieldaddr":
		return t.Fieldkey()
	case "indexaddr":
		return "[]" + typeStr(deref(t.Typ))
	case "global":
		return "g:" + t.Aux
	}
	return "*" + typeStr(deref(t.Typ))
}

func (t *Term) Fieldkey() string {
	return typeStr(deref(t.Args[0].Typ)) + "." + t.Aux
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
func elemType(t types.Type) types.Type { return deref(t) }

func fieldName(t types.Type, i int) string {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return strconv.Itoa(i)
	}
	return st.Field(i).Name()
}

func baseOf(a *Term) *Term {
	for a.Op == "fieldaddr" || a.Op == "indexaddr" {
		a = a.Args[0]
	}
	return a
}

// ---------------------------------------------------------------- stepping

func (e *Engine) site(f *frame, in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%s/%s:%d.%d", f.ctx, FnName(f.fn), b.Index, i)
		}
	}
	return f.ctx + "?"
}

func (e *Engine) val(s *State, f *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return e.TT.mk("zero", "", x.Type(), nil)
			}
			if _, ok := x.Type().Underlying().(*types.Basic); ok && x.Type().Underlying() != types.Typ[types.UntypedNil] && x.Type().Underlying() != types.Typ[types.UnsafePointer] {
				return e.zero(x.Type())
			}
			return e.TT.mk("nil", "", nil, nil)
		}
		return e.TT.Const(x.Value, x.Type())
	case *ssa.Function:
		return e.TT.mk("func", FnName(x), x.Type(), x)
	case *ssa.Global:
		return e.TT.mk("global", relPkg(x.Pkg.Pkg.Path())+"."+x.Name(), x.Type(), nil)
	case *ssa.Builtin:
		return e.TT.mk("builtin", x.Name(), nil, nil)
	case *ssa.Parameter:
		for i, p := range f.fn.Params {
			if p == x {
				return f.params[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.fn.FreeVars {
			if p == x {
				if i < len(f.bindings) {
					return f.bindings[i]
				}
			}
		}
		return e.TT.mk("fresh", f.ctx+"free:"+x.Name(), x.Type(), nil)
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	return e.TT.mk("fresh", f.ctx+"/"+FnName(f.fn)+"."+v.Name(), v.Type(), nil)
}

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.TT.Const(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return e.TT.Const(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return e.TT.Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return e.TT.Const(constant.MakeFloat64(0), t)
		}
	case *types.Struct, *types.Array:
		return e.TT.mk("zero", "", t, nil)
	}
	return e.TT.mk("nil", "", nil, nil)
}

func (e *Engine) fieldOf(x *Term, name string, typ types.Type) *Term {
	if x.Op == "zero" {
		return e.zero(typ)
	}
	if x.Op == "structval" {
		return e.TT.mk("field", name, typ, nil, x)
	}
	if x.Op == "load" {
		return e.TT.mk("load", x.Aux, typ, nil, e.TT.mk("fieldaddr", name, types.NewPointer(typ), nil, x.Args[0]))
	}
	return e.TT.mk("field", name, typ, nil, x)
}

// Load reads abstract memory.
func (e *Engine) Load(s *State, addr *Term, typ types.Type) *Term {
	if c, ok := s.store[addr.ID]; ok {
		if _, isS := typ.Underlying().(*types.Struct); isS {
			for _, c := range s.store {
				if c.addr != addr && hasPrefix(c.addr, addr) {
					return e.TT.mk("load", "snap", typ, nil, addr)
				}
			}
		}
		return c.val
	}
	// containing struct stored as a whole?
	if addr.Op == "fieldaddr" {
		p := addr.Args[0]
		if c, ok := s.store[p.ID]; ok {
			return e.fieldOf(c.val, addr.Aux, typ)
		}
		if p.Op == "fieldaddr" {
			if c, ok := s.store[p.Args[0].ID]; ok {
				return e.fieldOf(e.fieldOf(c.val, p.Aux, elemType(p.Typ)), addr.Aux, typ)
			}
		}
	}
	if addr.Op == "indexaddr" {
		if c, ok := s.store[addr.Args[0].ID]; ok && c.val.Op == "zero" {
			if _, isS := typ.Underlying().(*types.Struct); isS {
				for _, c := range s.store {
					if c.addr != addr && hasPrefix(c.addr, addr) {
						return e.TT.mk("load", "snap", typ, nil, addr)
					}
				}
			}
			return e.zero(typ)
		}
	}
	// whole-struct read whose fields were stored: copy
	if _, ok := typ.Underlying().(*types.Struct); ok {
		has := false
		for _, c := range s.store {
			if c.addr != addr && hasPrefix(c.addr, addr) {
				has = true
			}
		}
		if has {
			// snapshot term: fields are materialised on demand when stored elsewhere
			return e.TT.mk("load", "snap", typ, nil, addr)
		}
	}
	ep := s.epoch[keyOfAddr(addr)]
	return e.TT.mk("load", ep, typ, nil, addr)
}

func (e *Engine) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if keyOfAddr(a) != keyOfAddr(b) {
		return false
	}
	ba, bb := baseOf(a), baseOf(b)
	if ba == bb {
		if a.Op == "indexaddr" && b.Op == "indexaddr" && a.Args[0] == b.Args[0] && a.Args[1].IsConst() && b.Args[1].IsConst() {
			return a.Args[1] == b.Args[1]
		}
		if a.Op == "fieldaddr" {
			if x, y := a.Args[0], b.Args[0]; x.Op == "indexaddr" && y.Op == "indexaddr" && x.Args[0] == y.Args[0] && x.Args[1].IsConst() && y.Args[1].IsConst() {
				return x.Args[1] == y.Args[1]
			}
			return a.Args[0].Op == "indexaddr"
		}
		return true
	}
	if ba.Op == "alloc" || bb.Op == "alloc" {
		// an allocation made during the exploration only aliases itself
		return false
	}
	if ba.Op == "global" && bb.Op == "global" {
		return false
	}
	return true
}

func (e *Engine) doStore(s *State, addr, val *Term, site string) {
	k := keyOfAddr(addr)
	for id, c := range s.store {
		if c.addr != addr && e.mayAlias(c.addr, addr) {
			delete(s.store, id)
			if baseOf(c.addr).Op == "alloc" {
				s.store[id] = cell{c.addr, e.TT.mk("fresh", "alias:"+site, elemType(c.addr.Typ), nil)}
			}
		}
		// storing a whole struct kills the cells of its fields
		if c.addr != addr && hasPrefix(c.addr, addr) {
			delete(s.store, id)
		}
	}
	if baseOf(addr).Op != "alloc" {
		s.epoch[k] = site
	}
	if val.Op == "load" && val.Aux == "snap" {
		src := val.Args[0]
		st := val.Typ.Underlying().(*types.Struct)
		base, hasBase := s.store[src.ID]
		if src.Op == "indexaddr" && !hasBase {
			if c, ok := s.store[src.Args[0].ID]; ok && c.val.Op == "zero" {
				base, hasBase = cell{src, e.zero(val.Typ)}, true
			}
		}
		s.store[addr.ID] = cell{addr, e.TT.mk("load", s.epoch[keyOfAddr(src)], val.Typ, nil, src)}
		if hasBase {
			s.store[addr.ID] = cell{addr, base.val}
		}
		for i := 0; i < st.NumFields(); i++ {
			fn := st.Field(i)
			fa := e.TT.mk("fieldaddr", fn.Name(), types.NewPointer(fn.Type()), nil, src)
			if c, ok := s.store[fa.ID]; ok {
				da := e.TT.mk("fieldaddr", fn.Name(), types.NewPointer(fn.Type()), nil, addr)
				s.store[da.ID] = cell{da, c.val}
			}
		}
		return
	}
	s.store[addr.ID] = cell{addr, val}
}

func hasPrefix(a, p *Term) bool {
	for a.Op == "fieldaddr" || a.Op == "indexaddr" {
		a = a.Args[0]
		if a == p {
			return true
		}
	}
	return false
}

// havoc forgets everything an unknown callee may have changed.
func (e *Engine) havoc(s *State, site string, keep func(addr *Term) bool) {
	for id, c := range s.store {
		b := baseOf(c.addr)
		if b.Op == "alloc" && !strings.HasSuffix(b.Aux, "!esc") {
			continue
		}
		if keep != nil && keep(c.addr) {
			continue
		}
		delete(s.store, id)
		if b.Op == "alloc" {
			s.store[id] = cell{c.addr, e.TT.mk("fresh", "havoc:"+site+c.addr.String(), elemType(c.addr.Typ), nil)}
		} else {
			s.epoch[keyOfAddr(c.addr)] = site
		}
	}
}

func (e *Engine) jump(s *State, to *ssa.BasicBlock) {
	f := s.top()
	from := f.blk
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	loops := e.loopsIn(f.fn)
	if body, isHeader := loops[to]; isHeader && !e.unrolled(s, f, to, pi, body, body[from]) {
		keys, _ := e.modKeys(body)
		cells := map[*Term]*Term{}
		for id, c := range s.store {
			if keys[keyOfAddr(c.addr)] || keys["*"+typeStr(elemType(c.addr.Typ))] && c.addr.Op == "alloc" {
				cells[e.TT.mk("loopcell", f.ctx+"/"+FnName(f.fn)+":"+strconv.Itoa(to.Index)+":"+c.addr.String(), elemType(c.addr.Typ), nil)] = c.val
				s.store[id] = cell{c.addr, e.TT.mk("loopcell", f.ctx+"/"+FnName(f.fn)+":"+strconv.Itoa(to.Index)+":"+c.addr.String(), elemType(c.addr.Typ), nil)}
			}
		}
		for k := range keys {
			s.epoch[k] = f.ctx + "/" + FnName(f.fn) + ":loop" + strconv.Itoa(to.Index)
		}
		nv := map[ssa.Value]*Term{}
		kept := map[*Term]bool{}
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			// loop-invariant phi?
			inv := true
			var only *Term
			for i, ed := range phi.Edges {
				if ed == phi {
					continue
				}
				if body[to.Preds[i]] {
					inv = false
				}
				only = e.val(s, f, ed)
			}
			if inv && only != nil {
				nv[phi] = only
				continue
			}
			if t := only0(e, s, f, phi, pi); t != nil {
				// flags and errors take few distinct values: keep the one that came in
				_, isB := t.Bool()
				if isB || isErrType(phi.Type()) && depthOf(t) <= 3 {
					if e.IsNil(s, t) {
						t = e.TT.mk("nil", "", nil, nil)
					}
					nv[phi] = t
					kept[t] = true
					continue
				}
			}
			nv[phi] = e.TT.mk("phi", f.ctx+"/"+FnName(f.fn)+":"+strconv.Itoa(to.Index)+"."+phi.Name(), phi.Type(), nil)
			if !body[from] {
				e.loopInit[nv[phi].ID] = only0(e, s, f, phi, pi)
			}
		}
		if e.OnHeader != nil && !e.Dry {
			phis := cells
			for _, in := range to.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if t := only0(e, s, f, phi, pi); t != nil {
					phis[nv[phi]] = t
				}
			}
			e.OnHeader(s, f.ctx+"/"+FnName(f.fn)+":"+strconv.Itoa(to.Index), phis, body[from])
			if s.Get("!prune") != "" {
				return
			}
		}
		for k, v := range nv {
			f.env[k] = v
		}
		// facts about values that the loop recomputes are forgotten
		pre := f.ctx + "/" + FnName(f.fn) + ":"
		for id := range s.facts {
			t := e.TT.list[id]
			if kept[t] {
				continue
			}
			if t.Mentions(func(x *Term) bool {
				if x.Op == "phi" || x.Op == "loopcell" {
					return strings.HasPrefix(x.Aux, pre+strconv.Itoa(to.Index)+".") || strings.HasPrefix(x.Aux, pre+strconv.Itoa(to.Index)+":")
				}
				if x.Op == "load" && x.Aux != "" && strings.HasPrefix(x.Aux, pre+"loop"+strconv.Itoa(to.Index)) {
					return true
				}
				return e.siteInLoop(x, pre, body)
			}) {
				delete(s.facts, id)
			}
		}
		if e.PeelInit && !body[from] {
			for _, t := range nv {
				if init := e.loopInit[t.ID]; t.Op == "phi" && init != nil {
					if iv := e.Ival(s, init); iv != nil && isIntTerm(t) {
						e.recIv(s, t, iv.lo, iv.hi)
					}
				}
			}
		}
	} else {
		nv := map[ssa.Value]*Term{}
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			nv[phi] = e.val(s, f, phi.Edges[pi])
		}
		for k, v := range nv {
			f.env[k] = v
		}
	}
	f.blk = to
	f.idx = 0
}

// unrolled: the loop runs over a list of known length (a slice literal or an array), so its iterations are followed one by one.
func (e *Engine) unrolled(s *State, f *frame, to *ssa.BasicBlock, pi int, body map[*ssa.BasicBlock]bool, back bool) bool {
	if !e.Unroll {
		return false
	}
	if back {
		if f.unroll != to {
			return false
		}
		f.iter++
		f.ctx = fmt.Sprintf("%s~%d.%d", f.ctx0, to.Index, f.iter)
		return f.iter <= 40
	}
	for h, b := range e.loopsIn(f.fn) {
		if h != to && b[to] {
			return false
		}
	}
	if f.unroll != nil {
		f.ctx = f.ctx0
		f.unroll = nil
	}
	iff, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	x := cmp.X
	if inc, ok := x.(*ssa.BinOp); ok && inc.Op == token.ADD && inc.Block() == to {
		x = inc.X
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != to {
		return false
	}
	if init := e.val(s, f, phi.Edges[pi]); !init.IsConst() {
		return false
	}
	n, ok := e.val(s, f, cmp.Y).Int()
	if in, isI := cmp.Y.(ssa.Instruction); !ok && isI && in.Block() == to {
		// for i := 0; i < len(list); i++: the length is taken in the header
		if call, isC := in.(*ssa.Call); isC {
			if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
				if l := arrayLen(e.val(s, f, call.Call.Args[0])); l >= 0 {
					n, ok = int64(l), true
				}
			}
		}
	}
	if !ok || n > 32 {
		return false
	}
	f.unroll, f.iter, f.ctx0 = to, 0, f.ctx
	return true
}

// arrayLen is the length of a slice that covers a whole array (a slice literal, variadic arguments), -1 otherwise.
func arrayLen(x *Term) int {
	if x.Op != "slice" || len(x.Args) != 4 {
		return -1
	}
	for _, b := range x.Args[1:] {
		if b.Op != "none" {
			return -1
		}
	}
	if p, ok := x.Args[0].Typ.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return int(a.Len())
		}
	}
	return -1
}

func depthOf(t *Term) int {
	d := 0
	for _, a := range t.Args {
		if x := depthOf(a); x > d {
			d = x
		}
	}
	return d + 1
}

func only0(e *Engine, s *State, f *frame, phi *ssa.Phi, pi int) *Term {
	if pi < 0 || pi >= len(phi.Edges) {
		return nil
	}
	return e.val(s, f, phi.Edges[pi])
}

// LoopIf classifies a conditional inside a loop. kind: "" not a loop exit, "iter" one more
// iteration, "done" normal end of the iteration, "break" early exit. count is the number of
// iterations (a term), or for a range loop the ranged container; nil when not understood.
func (e *Engine) LoopIf(s *State, x *ssa.If, cond *Term, taken bool) (kind string, count *Term, iter *Term) {
	b := x.Block()
	var hdr *ssa.BasicBlock
	var body map[*ssa.BasicBlock]bool
	for h, bd := range e.loopsIn(b.Parent()) {
		if bd[b] && (body == nil || len(bd) < len(body)) {
			hdr, body = h, bd
		}
	}
	if body == nil {
		return
	}
	in0, in1 := body[b.Succs[0]], body[b.Succs[1]]
	if in0 == in1 {
		return
	}
	stayOn := in0
	stays := taken == stayOn
	isMain := false
	c := cond
	pos := true
	if c.Op == "not" {
		c, pos = c.Args[0], false
	}
	if c.Op == "res" && c.Aux == "0" && c.Args[0].Op == "next" {
		isMain = true
		iter = c.Args[0]
		count = c.Args[0].Args[0] // range(x)
		if count.Op == "range" {
			count = count.Args[0]
		}
	} else if c.Op == "bin" && (c.Aux == "<" || c.Aux == "==") {
		pre := "." // phi of this header
		_ = pre
		isPhi := func(t *Term) (*Term, int64, bool) {
			t = t.Strip()
			off := int64(0)
			if t.Op == "bin" && t.Aux == "+" {
				if v, ok := t.Args[1].Int(); ok {
					off = v
					t = t.Args[0].Strip()
				}
			}
			if t.Op == "phi" && strings.Contains(t.Aux, FnName(b.Parent())+":"+strconv.Itoa(hdr.Index)+".") {
				return t, off, true
			}
			return nil, 0, false
		}
		a0, a1 := c.Args[0], c.Args[1]
		truthToStay := stayOn == pos // the comparison's truth value on which the loop continues
		var phi *ssa.Phi
		find := func(t *Term) *ssa.Phi {
			for _, in := range hdr.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if strings.HasSuffix(t.Aux, ":"+strconv.Itoa(hdr.Index)+"."+p.Name()) {
					return p
				}
			}
			return nil
		}
		step := func(p *ssa.Phi) (int64, bool) {
			if p == nil {
				return 0, false
			}
			st := int64(0)
			for i, ed := range p.Edges {
				if !body[hdr.Preds[i]] {
					continue
				}
				bo, ok := ed.(*ssa.BinOp)
				if !ok || bo.X != p {
					return 0, false
				}
				k, ok := bo.Y.(*ssa.Const)
				if !ok || k.Value == nil {
					return 0, false
				}
				v, ok := constant.Int64Val(k.Value)
				if !ok {
					return 0, false
				}
				if bo.Op == token.SUB {
					v = -v
				} else if bo.Op != token.ADD {
					return 0, false
				}
				if st != 0 && st != v {
					return 0, false
				}
				st = v
			}
			return st, st != 0
		}
		if t, off, ok := isPhi(a0); ok {
			isMain = true
			phi = find(t)
			iter = t
			init := e.loopInit[t.ID]
			if st, ok := step(phi); ok && st == 1 && init != nil {
				if v, ok := init.Int(); ok && v+off == 0 && (c.Aux == "<" && truthToStay || c.Aux == "==" && !truthToStay) {
					count = a1.Strip()
				}
			} else if ok && st == -1 && init != nil && c.Aux == "==" && !truthToStay {
				if v, ok := a1.Int(); ok && v == off {
					count = init.Strip()
				}
			} else if ok && st == -1 && init != nil && c.Aux == "<" && !truthToStay {
				// stays while !(phi+off < k)  i.e. phi+off >= k, k const: count = init - k + 1 + off
				if v, ok := a1.Int(); ok {
					if init.Op == "bin" && init.Aux == "-" {
						if w, ok := init.Args[1].Int(); ok && w == 1-v+off {
							count = init.Args[0].Strip()
						}
					} else if v == 1+off {
						count = init.Strip()
					}
				}
			}
		} else if t, off, ok := isPhi(a1); ok {
			isMain = true
			phi = find(t)
			iter = t
			init := e.loopInit[t.ID]
			if st, ok := step(phi); ok && st == -1 && init != nil && c.Aux == "<" && truthToStay {
				if v, ok := a0.Int(); ok && v == off {
					count = init.Strip()
				}
			}
		}
	}
	switch {
	case stays && isMain:
		return "iter", count, iter
	case stays:
		return "", nil, nil
	case isMain:
		return "done", count, iter
	}
	return "break", nil, nil
}

// siteInLoop: does this term stem from an instruction inside the loop body (in this context or deeper)?
func (e *Engine) siteInLoop(x *Term, pre string, body map[*ssa.BasicBlock]bool) bool {
	var site string
	switch x.Op {
	case "call", "fresh", "alloc", "lookup", "make":
		i := strings.IndexByte(x.Aux, '@')
		if i < 0 {
			return false
		}
		site = x.Aux[i+1:]
	default:
		return false
	}
	if !strings.HasPrefix(site, pre) {
		return false
	}
	rest := site[len(pre):]
	n := 0
	for n < len(rest) && rest[n] >= '0' && rest[n] <= '9' {
		n++
	}
	bi, err := strconv.Atoi(rest[:n])
	if err != nil {
		return false
	}
	for b := range body {
		if b.Index == bi {
			return true
		}
	}
	return false
}

// step runs s until the end of the current basic block (or a call push), returning successor states.
func (e *Engine) step(s *State) []*State {
	for {
		f := s.top()
		if f.idx >= len(f.blk.Instrs) {
			return nil
		}
		in := f.blk.Instrs[f.idx]
		if e.OnInstr != nil && !e.Dry {
			if _, ok := in.(*ssa.Phi); !ok {
				e.OnInstr(s, in)
			}
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			f.idx++
		case *ssa.Alloc:
			aux := x.Comment
			if x.Heap {
				aux += "!esc"
			}
			t := e.TT.mk("alloc", FnName(f.fn)+"."+aux+"@"+e.site(f, in)+ifs(x.Heap, "!esc"), x.Type(), nil)
			for id, c := range s.store {
				if baseOf(c.addr) == t {
					delete(s.store, id)
				}
			}
			s.store[t.ID] = cell{t, e.zero(deref(x.Type()))}
			f.env[x] = t
			f.idx++
		case *ssa.FieldAddr:
			b := e.val(s, f, x.X)
			f.env[x] = e.TT.mk("fieldaddr", fieldName(x.X.Type(), x.Field), x.Type(), nil, b)
			f.idx++
		case *ssa.Field:
			if sv := e.val(s, f, x.X); sv.Op == "load" && sv.Aux == "snap" {
				f.env[x] = e.Load(s, e.TT.mk("fieldaddr", fieldName(x.X.Type(), x.Field), types.NewPointer(x.Type()), nil, sv.Args[0]), x.Type())
			} else {
				f.env[x] = e.fieldOf(sv, fieldName(x.X.Type(), x.Field), x.Type())
				f.env[x] = e.rewrite(s, f.env[x])
			}
			f.idx++
		case *ssa.IndexAddr:
			b, i := e.val(s, f, x.X), e.val(s, f, x.Index)
			if e.OnIndex != nil {
				e.OnIndex(s, in, b, i)
			}
			if e.Unroll && arrayLen(b) >= 0 {
				b = b.Args[0]
			}
			f.env[x] = e.TT.mk("indexaddr", "", x.Type(), nil, b, i)
			f.idx++
		case *ssa.Index:
			b, i := e.val(s, f, x.X), e.val(s, f, x.Index)
			if e.OnIndex != nil {
				e.OnIndex(s, in, b, i)
			}
			f.env[x] = e.rewrite(s, e.TT.mk("index", "", x.Type(), nil, b, i))
			f.idx++
		case *ssa.UnOp:
			v := e.val(s, f, x.X)
			switch x.Op {
			case token.MUL:
				f.env[x] = e.rewrite(s, e.Load(s, v, x.Type()))
			case token.NOT:
				f.env[x] = e.TT.Not(v)
			case token.ARROW:
				var r *Term
				if e.OnRecv != nil {
					r = e.OnRecv(s, in, v)
				}
				if r == nil {
					r = e.freshAt(s, f, in, "recv", x.Type())
				}
				f.env[x] = r
			default:
				if v.Op == "const" && v.C != nil && x.Op == token.SUB {
					f.env[x] = e.TT.Const(constant.UnaryOp(token.SUB, v.C, 0), x.Type())
				} else {
					f.env[x] = e.TT.mk("un", x.Op.String(), x.Type(), nil, v)
				}
			}
			f.idx++
		case *ssa.BinOp:
			f.env[x] = e.rewrite(s, e.TT.Bin(x.Op, e.val(s, f, x.X), e.val(s, f, x.Y), x.Type()))
			f.idx++
		case *ssa.ChangeType:
			f.env[x] = e.val(s, f, x.X)
			f.idx++
		case *ssa.ChangeInterface:
			f.env[x] = e.val(s, f, x.X)
			f.idx++
		case *ssa.Convert:
			f.env[x] = e.TT.Conv(x.Type(), e.val(s, f, x.X))
			f.idx++
		case *ssa.MultiConvert:
			f.env[x] = e.TT.Conv(x.Type(), e.val(s, f, x.X))
			f.idx++
		case *ssa.MakeInterface:
			f.env[x] = e.TT.mk("iface", "", x.X.Type(), nil, e.val(s, f, x.X))
			f.idx++
		case *ssa.MakeClosure:
			var bs []*Term
			for _, b := range x.Bindings {
				bs = append(bs, e.val(s, f, b))
			}
			fn := x.Fn.(*ssa.Function)
			f.env[x] = e.TT.mk("closure", FnName(fn), x.Type(), fn, bs...)
			f.idx++
		case *ssa.TypeAssert:
			v := e.val(s, f, x.X)
			f.env[x] = e.typeAssert(s, x, v)
			f.idx++
		case *ssa.Extract:
			t := e.val(s, f, x.Tuple)
			f.env[x] = e.TT.Res(t, x.Index, x.Type())
			f.idx++
		case *ssa.Slice:
			var as []*Term
			as = append(as, e.val(s, f, x.X))
			for _, o := range []ssa.Value{x.Low, x.High, x.Max} {
				if o == nil {
					as = append(as, e.TT.mk("none", "", nil, nil))
				} else {
					as = append(as, e.val(s, f, o))
				}
			}
			f.env[x] = e.rewrite(s, e.TT.mk("slice", "", x.Type(), nil, as...))
			f.idx++
		case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
			var as []*Term
			switch y := in.(type) {
			case *ssa.MakeSlice:
				as = append(as, e.val(s, f, y.Len), e.val(s, f, y.Cap))
			case *ssa.MakeChan:
				as = append(as, e.val(s, f, y.Size))
			}
			v := in.(ssa.Value)
			f.env[v] = e.TT.mk("make", "@"+e.site(f, in), v.Type(), nil, as...)
			f.idx++
		case *ssa.Lookup:
			m, k := e.val(s, f, x.X), e.val(s, f, x.Index)
			if e.OnLookup != nil {
				e.OnLookup(s, in, m, k)
			}
			f.env[x] = e.rewrite(s, e.TT.mk("lookup", s.epoch["map"], x.Type(), nil, m, k))
			f.idx++
		case *ssa.MapUpdate:
			m, k, v := e.val(s, f, x.Map), e.val(s, f, x.Key), e.val(s, f, x.Value)
			if e.OnMapSet != nil && !e.Dry {
				e.OnMapSet(s, in, m, k, v)
			}
			s.epoch["map"] = e.site(f, in)
			f.idx++
		case *ssa.Range:
			f.env[x] = e.TT.mk("range", "@"+e.site(f, in), x.Type(), nil, e.val(s, f, x.X))
			f.idx++
		case *ssa.Next:
			it := e.val(s, f, x.Iter)
			f.env[x] = e.TT.mk("next", "@"+e.site(f, in), x.Type(), nil, it)
			e.forget(s, f.env[x])
			f.idx++
		case *ssa.Select:
			f.env[x] = e.freshAt(s, f, in, "select", x.Type())
			if e.OnSend != nil && !e.Dry {
				for _, ss := range x.States {
					if ss.Dir == types.SendOnly {
						e.OnSend(s, in, e.val(s, f, ss.Chan), e.val(s, f, ss.Send))
					}
				}
			}
			f.idx++
		case *ssa.Send:
			if e.OnSend != nil && !e.Dry {
				e.OnSend(s, in, e.val(s, f, x.Chan), e.val(s, f, x.X))
			}
			f.idx++
		case *ssa.Store:
			addr, v := e.val(s, f, x.Addr), e.val(s, f, x.Val)
			if e.OnStore != nil && !e.Dry {
				e.OnStore(s, in, addr, v)
			}
			e.doStore(s, addr, v, e.site(f, in))
			f.idx++
		case *ssa.Go:
			if e.OnGo != nil && !e.Dry {
				e.OnGo(s, e.mkCall(s, f, x))
			}
			if e.GoInline {
				if e.doCall(s, f, e.mkCall(s, f, x), nil, false) {
					s.top().isGo = true
					return []*State{s}
				}
				continue
			}
			f.idx++
		case *ssa.Defer:
			c := e.mkCall(s, f, x)
			d := deferred{instr: x, args: c.Args}
			if !x.Call.IsInvoke() {
				d.fn = e.val(s, f, x.Call.Value)
			}
			if x.Call.IsInvoke() {
				d.args = append([]*Term{c.Recv}, c.Args...)
			}
			f.defers = append(f.defers, d)
			f.idx++
		case *ssa.RunDefers:
			if len(f.defers) == 0 {
				f.idx++
				continue
			}
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			c := e.callOf(s, f, d.instr, d.fn, d.args)
			c.Defer = true
			if st := e.doCall(s, f, c, nil, true); st {
				return []*State{s}
			}
		case ssa.CallInstruction: // *ssa.Call
			call := in.(*ssa.Call)
			c := e.mkCall(s, f, call)
			if pushed := e.doCall(s, f, c, call, false); pushed {
				return []*State{s}
			}
		case *ssa.If:
			cond := e.val(s, f, x.Cond)
			if b, ok := cond.Bool(); ok {
				if b {
					e.jump(s, f.blk.Succs[0])
				} else {
					e.jump(s, f.blk.Succs[1])
				}
				return []*State{s}
			}
			var out []*State
			at := ""
			if !e.Dry {
				at = e.W.At(in)
			}
			for i, truth := range []bool{true, false} {
				n := s.clone()
				if !e.Assume(n, cond, truth, e.site(f, in)) {
					continue
				}
				if !e.Dry {
					n.Note("%s: %s is %v", at, cond, truth)
				}
				if e.OnBranch != nil {
					e.OnBranch(n, x, cond, truth)
					if n.Get("!prune") != "" {
						continue
					}
				}
				e.jump(n, n.top().blk.Succs[i])
				out = append(out, n)
			}
			return out
		case *ssa.Jump:
			e.jump(s, f.blk.Succs[0])
			return []*State{s}
		case *ssa.Return:
			var res []*Term
			for _, r := range x.Results {
				res = append(res, e.val(s, f, r))
			}
			if len(s.frames) == 1 {
				e.NPaths++
				if e.OnReturn != nil && !e.Dry {
					e.OnReturn(s, x, res)
				}
				return nil
			}
			s.frames = s.frames[:len(s.frames)-1]
			cf := s.top()
			cin := cf.blk.Instrs[cf.idx]
			if call, ok := cin.(*ssa.Call); ok && !f.isDefer {
				switch len(res) {
				case 0:
				case 1:
					cf.env[call] = res[0]
				default:
					cf.env[call] = e.TT.mk("tuple", "", call.Type(), nil, res...)
				}
				cf.idx++
			}
			if _, ok := cin.(*ssa.Go); ok && f.isGo {
				cf.idx++
			}
			// deferred call: stay on RunDefers
		case *ssa.Panic:
			if e.OnPanic != nil && !e.Dry {
				e.OnPanic(s, x)
			}
			return nil
		default:
			e.undecided(fmt.Sprintf("unsupported instruction %T at %s", in, e.W.At(in)))
			if v, ok := in.(ssa.Value); ok {
				f.env[v] = e.freshAt(s, f, in, "unsup", v.Type())
			}
			f.idx++
		}
		if s.Get("!prune") != "" {
			return nil
		}
	}
}

func ifs(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

func (e *Engine) freshAt(s *State, f *frame, in ssa.Instruction, what string, typ types.Type) *Term {
	t := e.TT.mk("fresh", what+"@"+e.site(f, in), typ, nil)
	e.forget(s, t)
	return t
}

// forget drops facts about a term that is being recomputed.
func (e *Engine) forget(s *State, t *Term) {
	for id := range s.facts {
		if e.TT.list[id].Mentions(func(x *Term) bool { return x == t }) {
			delete(s.facts, id)
		}
	}
}

func (e *Engine) mkCall(s *State, f *frame, ci ssa.CallInstruction) *Call {
	com := ci.Common()
	var args []*Term
	for _, a := range com.Args {
		args = append(args, e.val(s, f, a))
	}
	if com.IsInvoke() {
		recv := e.val(s, f, com.Value)
		return e.callOf(s, f, ci, nil, append([]*Term{recv}, args...))
	}
	return e.callOf(s, f, ci, e.val(s, f, com.Value), args)
}

func (e *Engine) callOf(s *State, f *frame, ci ssa.CallInstruction, fn *Term, args []*Term) *Call {
	com := ci.Common()
	c := &Call{Instr: ci, Args: args, Site: e.site(f, ci), Depth: len(s.frames), Kind: "call", Caller: f.fn}
	if com.IsInvoke() {
		recv := args[0]
		c.Method = com.Method
		c.Recv = recv
		c.Name = com.Method.Name()
		if recv.Op == "iface" && recv.Typ != nil {
			if sel := e.W.Prog.MethodSets.MethodSet(recv.Typ).Lookup(com.Method.Pkg(), com.Method.Name()); sel != nil {
				c.Fn = e.W.Prog.MethodValue(sel)
				c.Args = append([]*Term{recv.Args[0]}, args[1:]...)
			}
		} else {
			c.Args = args[1:]
		}
		return c
	}
	switch fn.Op {
	case "func":
		c.Fn = fn.Fn
	case "closure":
		c.Fn = fn.Fn
		c.Recv = fn
	case "builtin":
		c.Kind = "builtin"
		c.Name = fn.Aux
	default:
		c.Recv = fn
	}
	if c.Fn != nil {
		c.Name = FnName(c.Fn)
	}
	return c
}

var pureStd = map[string]bool{"strings": true, "strconv": true, "path/filepath": true, "path": true, "errors": true, "math": true, "unicode": true, "bytes": false}

// doCall handles one call; it reports true when a frame was pushed.
func (e *Engine) doCall(s *State, f *frame, c *Call, call *ssa.Call, isDefer bool) bool {
	setRes := func(t *Term) {
		if call != nil && t != nil {
			f.env[call] = t
		}
		if !isDefer {
			f.idx++
		}
	}
	var rt types.Type
	if call != nil {
		rt = call.Type()
	}
	if e.OnCall != nil {
		if r, handled := e.OnCall(s, c); handled {
			if r == nil && call != nil {
				r = e.TT.mk("call", c.Name+"@"+c.Site, rt, nil, c.Args...)
				e.forget(s, r)
			}
			setRes(r)
			return false
		}
	}
	if c.Kind == "builtin" {
		setRes(e.rewrite(s, e.builtin(s, f, c, rt)))
		return false
	}
	fn := c.Fn
	if fn != nil && fn.Blocks != nil && (e.W.InRepo(fn) || e.InlineExt != nil && e.InlineExt(fn)) && (e.Opaque == nil || !e.Opaque(fn)) {
		depth := 0
		for _, g := range s.frames {
			if g.fn == fn {
				depth++
			}
		}
		if depth == 0 && len(s.frames) < e.MaxDepth {
			e.Visited[fn] = true
			nf := &frame{fn: fn, ctx: c.Site + ">", blk: fn.Blocks[0], env: map[ssa.Value]*Term{}, params: c.Args, isDefer: isDefer}
			if c.Recv != nil && c.Recv.Op == "closure" {
				nf.bindings = c.Recv.Args
			}
			s.frames = append(s.frames, nf)
			return true
		}
	}
	// opaque call
	if r := e.concat(s, c, rt); r != nil {
		setRes(r)
		return false
	}
	pure := false
	if fn != nil {
		if fn.Pkg != nil && pureStd[fn.Pkg.Pkg.Path()] {
			pure = true
		}
		if e.PureCall != nil && e.PureCall(fn) {
			pure = true
		}
	}
	name := c.Name
	var r *Term
	args := c.Args
	if fn == nil && c.Recv != nil {
		args = append([]*Term{c.Recv}, args...)
		if name == "" {
			name = "dyn"
		}
	}
	if pure {
		r = e.TT.mk("call", name, rt, nil, args...)
	} else {
		r = e.TT.mk("call", name+"@"+c.Site, rt, nil, args...)
		e.forget(s, r)
	}
	if !pure && (e.NoHavoc == nil || !e.NoHavoc(c)) {
		if fn == nil || e.W.InRepo(fn) {
			e.havoc(s, c.Site, nil)
		} else {
			// library code writes only through the pointers it is given
			for _, a := range args {
				p := a
				if p.Op == "iface" {
					p = p.Args[0]
				}
				if p.Op == "alloc" || p.Op == "fieldaddr" || p.Op == "indexaddr" {
					for id, cl := range s.store {
						if cl.addr == p || hasPrefix(cl.addr, p) {
							s.store[id] = cell{cl.addr, e.TT.mk("fresh", "out@"+c.Site+"|"+cl.addr.String(), elemType(cl.addr.Typ), nil)}
							e.forget(s, s.store[id].val)
						}
					}
					if p.Op != "alloc" {
						s.epoch[keyOfAddr(p)] = c.Site
					}
				}
			}
		}
	}
	setRes(r)
	return false
}

// concat reads strings.Join and fmt.Sprintf as the concatenation they stand for, where the separator or format is known.
func (e *Engine) concat(s *State, c *Call, rt types.Type) *Term {
	if c.Fn == nil || rt == nil || len(c.Args) != 2 {
		return nil
	}
	var parts []*Term
	switch {
	case isExt(c.Fn, "strings", "Join"):
		sep, ok := c.Args[1].Str()
		if !ok || arrayLen(c.Args[0]) < 1 {
			return nil
		}
		for i, x := range e.elems(s, c.Args[0]) {
			if i > 0 && sep != "" {
				parts = append(parts, e.str(sep))
			}
			parts = append(parts, x)
		}
	case isExt(c.Fn, "fmt", "Sprintf"):
		f, ok := c.Args[0].Str()
		if !ok || arrayLen(c.Args[1]) < 1 {
			return nil
		}
		args := e.elems(s, c.Args[1])
		lit := ""
		for len(f) > 0 {
			if f[0] != '%' {
				lit, f = lit+f[:1], f[1:]
				continue
			}
			if len(f) < 2 {
				return nil
			}
			verb := f[1]
			f = f[2:]
			if verb == '%' {
				lit += "%"
				continue
			}
			if len(args) == 0 {
				return nil
			}
			a := args[0]
			args = args[1:]
			if a.Op != "iface" {
				return nil
			}
			a = a.Args[0]
			bt, ok := a.Typ.(*types.Basic)
			if !ok {
				return nil
			}
			switch {
			case bt.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
			case bt.Kind() == types.Int && (verb == 'd' || verb == 'v'):
				if v, ok := a.Int(); ok {
					a = e.str(fmt.Sprint(v))
				} else {
					a = e.TT.mk("call", "strconv.Itoa", rt, nil, a)
				}
			default:
				return nil
			}
			if lit != "" {
				parts = append(parts, e.str(lit))
				lit = ""
			}
			parts = append(parts, a)
		}
		if len(args) > 0 {
			return nil
		}
		if lit != "" {
			parts = append(parts, e.str(lit))
		}
	}
	if len(parts) == 0 {
		return nil
	}
	r := parts[0]
	for _, p := range parts[1:] {
		r = e.TT.Bin(token.ADD, r, p, rt)
	}
	return r
}

func (e *Engine) builtin(s *State, f *frame, c *Call, rt types.Type) *Term {
	switch c.Name {
	case "len":
		x := c.Args[0]
		if e.OnLen != nil {
			e.OnLen(s, x)
		}
		if str, ok := x.Str(); ok {
			return e.TT.Const(constant.MakeInt64(int64(len(str))), types.Typ[types.Int])
		}
		if x.Op == "conv" && isStrOrBytes(x.Typ) && isStrOrBytes(x.Args[0].Typ) {
			x = x.Args[0]
			if str, ok := x.Str(); ok {
				return e.TT.Const(constant.MakeInt64(int64(len(str))), types.Typ[types.Int])
			}
		}
		if x.Op == "make" && len(x.Args) == 2 {
			return x.Args[0]
		}
		if x.IsNil() {
			return e.TT.Const(constant.MakeInt64(0), types.Typ[types.Int])
		}
		if n := arrayLen(x); n >= 0 && e.Unroll {
			return e.TT.Const(constant.MakeInt64(int64(n)), types.Typ[types.Int])
		}
		ep := ""
		if x.Typ != nil {
			if _, ok := x.Typ.Underlying().(*types.Map); ok {
				ep = s.epoch["map"]
			}
		}
		return e.TT.mk("len", ep, types.Typ[types.Int], nil, x)
	case "cap":
		return e.TT.mk("cap", "", types.Typ[types.Int], nil, c.Args[0])
	case "recover":
		return e.TT.mk("nil", "", nil, nil)
	case "append":
		return e.TT.mk("append", "@"+c.Site, rt, nil, c.Args...)
	case "delete":
		s.epoch["map"] = c.Site
		return nil
	case "copy":
		return e.freshAt(s, f, c.Instr, "copy", rt)
	}
	if rt != nil {
		return e.TT.mk("fresh", c.Name+"@"+c.Site, rt, nil)
	}
	return nil
}

func isStrOrBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Uint8
		}
	}
	return false
}

func (e *Engine) typeAssert(s *State, x *ssa.TypeAssert, v *Term) *Term {
	tt := e.TT
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	var ok *Term
	var val *Term
	if v.Op == "iface" && v.Typ != nil {
		var b bool
		if toIface {
			b = types.Implements(v.Typ, x.AssertedType.Underlying().(*types.Interface))
			val = v
		} else {
			b = types.Identical(v.Typ, x.AssertedType)
			val = v.Args[0]
			if !b {
				val = e.zero(x.AssertedType)
			}
		}
		ok = tt.Const(constant.MakeBool(b), types.Typ[types.Bool])
	} else if v.IsNil() {
		ok = tt.Const(constant.MakeBool(false), types.Typ[types.Bool])
		val = e.zero(x.AssertedType)
	} else {
		ok = tt.mk("istype", "", x.AssertedType, nil, v)
		if toIface {
			val = v
		} else {
			val = tt.mk("assert", "", x.AssertedType, nil, v)
		}
	}
	if !x.CommaOk {
		return val
	}
	return tt.mk("tuple", "", x.Type(), nil, val, ok)
}

// ---------------------------------------------------------------- facts

func (e *Engine) subjectOf(cond *Term) []*Term {
	switch cond.Op {
	case "not":
		return e.subjectOf(cond.Args[0])
	case "bin":
		switch cond.Aux {
		case "==", "<":
			var r []*Term
			for _, a := range cond.Args {
				if !a.IsConst() {
					r = append(r, a.Strip())
				}
			}
			if len(r) == 2 {
				r = append(r, cond)
			}
			return r
		}
	case "istype":
		return []*Term{cond.Args[0]}
	}
	return []*Term{cond}
}

// Assume records that cond has the given truth; false when that contradicts what is known.
func (e *Engine) Assume(s *State, cond *Term, truth bool, site string) bool {
	if cond.Op == "not" {
		return e.Assume(s, cond.Args[0], !truth, site)
	}
	if v := e.Eval(s, cond); v != 0 {
		if e.Dry {
			e.note(cond, site)
		}
		return (v > 0) == truth
	}
	if e.Dry {
		e.note(cond, site)
		return true
	}
	keep := false
	for _, sub := range e.subjectOf(cond) {
		if e.relevant[sub.ID] || e.KeepFact != nil && e.KeepFact(sub) {
			keep = true
		}
	}
	if !keep {
		return true
	}
	return e.record(s, cond, truth)
}

func (e *Engine) note(cond *Term, site string) {
	for _, sub := range e.subjectOf(cond) {
		m := e.subjects[sub.ID]
		if m == nil {
			m = map[string]bool{}
			e.subjects[sub.ID] = m
		}
		m[site] = true
	}
}

func (e *Engine) record(s *State, cond *Term, truth bool) bool {
	f := s.facts[cond.ID]
	if truth {
		f.truth = 1
	} else {
		f.truth = -1
	}
	s.facts[cond.ID] = f
	if cond.Op == "bin" && len(cond.Args) == 2 {
		a, b := cond.Args[0], cond.Args[1]
		switch cond.Aux {
		case "==":
			if b.IsConst() {
				return e.recEq(s, a, b, truth)
			}
			if truth {
				// equal terms share interval
				ia, ib := e.Ival(s, a), e.Ival(s, b)
				if ia != nil && ib != nil && (ia.hi < ib.lo || ib.hi < ia.lo) {
					return false
				}
			}
		case "<":
			if v, ok := b.Int(); ok {
				if truth {
					if v == math.MinInt64 {
						return false
					}
					return e.recIv(s, a, math.MinInt64, v-1)
				}
				return e.recIv(s, a, v, math.MaxInt64)
			}
			if v, ok := a.Int(); ok {
				if truth {
					if v == math.MaxInt64 {
						return false
					}
					return e.recIv(s, b, v+1, math.MaxInt64)
				}
				return e.recIv(s, b, math.MinInt64, v)
			}
		}
	}
	if cond.Op == "istype" && truth {
		x := cond.Args[0]
		g := s.facts[x.ID]
		g.nes = addTerm(g.nes, e.TT.mk("nil", "", nil, nil))
		s.facts[x.ID] = g
	}
	return true
}

func addTerm(l []*Term, t *Term) []*Term {
	for _, x := range l {
		if x == t {
			return l
		}
	}
	n := append(append([]*Term(nil), l...), t)
	sort.Slice(n, func(i, j int) bool { return n[i].ID < n[j].ID })
	return n
}

func (e *Engine) recEq(s *State, a, c *Term, truth bool) bool {
	if v, ok := c.Int(); ok {
		if truth {
			return e.recIv(s, a, v, v)
		}
		iv := e.Ival(s, a)
		if iv == nil {
			return true
		}
		n := *iv
		if v == n.lo {
			n.lo++
		} else if v == n.hi {
			n.hi--
		} else if v > n.lo && v < n.hi {
			n.ne = append(append([]int64(nil), n.ne...), v)
			sort.Slice(n.ne, func(i, j int) bool { return n.ne[i] < n.ne[j] })
		}
		trimIv(&n)
		if n.lo > n.hi {
			return false
		}
		f := s.facts[a.ID]
		f.iv = &n
		s.facts[a.ID] = f
		return true
	}
	f := s.facts[a.ID]
	if truth {
		f.eq = c
	} else {
		f.nes = addTerm(f.nes, c)
	}
	s.facts[a.ID] = f
	return true
}

func trimIv(n *ival) {
	for again := true; again; {
		again = false
		var rest []int64
		for _, x := range n.ne {
			switch {
			case x == n.lo:
				n.lo++
				again = true
			case x == n.hi:
				n.hi--
				again = true
			case x > n.lo && x < n.hi:
				rest = append(rest, x)
			}
		}
		n.ne = rest
	}
}

func (e *Engine) recIv(s *State, a *Term, lo, hi int64) bool {
	iv := e.Ival(s, a)
	if iv == nil {
		return true
	}
	n := *iv
	if lo > n.lo {
		n.lo = lo
	}
	if hi < n.hi {
		n.hi = hi
	}
	trimIv(&n)
	if n.lo > n.hi {
		return false
	}
	f := s.facts[a.ID]
	f.iv = &n
	s.facts[a.ID] = f
	if a.Op == "conv" && widening(a.Args[0].Typ, a.Typ) {
		return e.recIv(s, a.Args[0], lo, hi)
	}
	return true
}

// Ival is the interval known for an integer term.
func (e *Engine) Ival(s *State, t *Term) *ival {
	if v, ok := t.Int(); ok {
		return &ival{lo: v, hi: v}
	}
	lo, hi, ok := typeRange(t.Typ)
	if !ok {
		return nil
	}
	r := &ival{lo: lo, hi: hi}
	if e.TermIval != nil {
		if iv := e.TermIval(t); iv != nil {
			r.lo, r.hi = iv.lo, iv.hi
		}
	}
	switch t.Op {
	case "len", "cap":
		if r.lo < 0 {
			r.lo = 0
		}
	case "conv":
		if in := e.Ival(s, t.Args[0]); in != nil && in.lo >= lo && in.hi <= hi {
			r = &ival{lo: in.lo, hi: in.hi, ne: in.ne}
		}
	case "bin":
		a, b := e.Ival(s, t.Args[0]), e.Ival(s, t.Args[1])
		if a != nil && b != nil {
			switch t.Aux {
			case "+":
				if l, o1 := addOv(a.lo, b.lo); o1 {
					if h, o2 := addOv(a.hi, b.hi); o2 && l >= lo && h <= hi {
						r.lo, r.hi = l, h
					}
				}
			case "-":
				if b.lo != math.MinInt64 && b.hi != math.MinInt64 {
					if l, o1 := addOv(a.lo, -b.hi); o1 {
						if h, o2 := addOv(a.hi, -b.lo); o2 && l >= lo && h <= hi {
							r.lo, r.hi = l, h
						}
					}
				}
			case "&":
				if b.lo == b.hi && b.lo >= 0 {
					r.lo, r.hi = 0, b.lo
				}
			case "%":
				if a.lo >= 0 {
					r.lo = 0
					if b.lo > 0 {
						r.hi = b.hi - 1
					}
					if a.hi < r.hi {
						r.hi = a.hi
					}
				}
			case "/":
				if b.lo > 0 && a.lo >= 0 {
					r.lo, r.hi = a.lo/b.hi, a.hi/b.lo
				}
			case "*":
				if a.lo >= 0 && b.lo >= 0 && (a.hi == 0 || b.hi <= math.MaxInt64/a.hi) && a.hi*b.hi <= hi {
					r.lo, r.hi = a.lo*b.lo, a.hi*b.hi
				}
			}
		}
	}
	if f, ok := s.facts[t.ID]; ok && f.iv != nil {
		if f.iv.lo > r.lo {
			r.lo = f.iv.lo
		}
		if f.iv.hi < r.hi {
			r.hi = f.iv.hi
		}
		r.ne = append(r.ne, f.iv.ne...)
		trimIv(r)
	}
	return r
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}

// Eval decides a condition from the known facts: 1 true, -1 false, 0 unknown.
func (e *Engine) Eval(s *State, cond *Term) int {
	if b, ok := cond.Bool(); ok {
		if b {
			return 1
		}
		return -1
	}
	if cond.Op == "not" {
		return -e.Eval(s, cond.Args[0])
	}
	if f, ok := s.facts[cond.ID]; ok && f.truth != 0 {
		return int(f.truth)
	}
	switch cond.Op {
	case "bin":
		a, b := cond.Args[0], cond.Args[1]
		switch cond.Aux {
		case "==":
			if b.IsNil() && e.NonNil(s, a) {
				return -1
			}
			if b.IsConst() {
				if f, ok := s.facts[a.ID]; ok {
					if f.eq != nil {
						if f.eq == b {
							return 1
						}
						if f.eq.Op == b.Op {
							return -1
						}
						if f.eq.IsNil() != b.IsNil() {
							return -1
						}
					}
					for _, n := range f.nes {
						if n == b {
							return -1
						}
					}
				}
			}
			if fa, ok := s.facts[a.ID]; ok && fa.eq != nil {
				if fb, ok := s.facts[b.ID]; ok && fb.eq != nil {
					if fa.eq == fb.eq {
						return 1
					}
				}
			}
			ia, ib := e.Ival(s, a), e.Ival(s, b)
			if ia != nil && ib != nil {
				if ia.hi < ib.lo || ib.hi < ia.lo {
					return -1
				}
				if ia.lo == ia.hi && ib.lo == ib.hi && ia.lo == ib.lo {
					return 1
				}
				if ib.lo == ib.hi {
					for _, x := range ia.ne {
						if x == ib.lo {
							return -1
						}
					}
				}
				if ia.lo == ia.hi {
					for _, x := range ib.ne {
						if x == ia.lo {
							return -1
						}
					}
				}
			}
		case "<":
			ia, ib := e.Ival(s, a), e.Ival(s, b)
			if ia != nil && ib != nil {
				if ia.hi < ib.lo {
					return 1
				}
				if ia.lo >= ib.hi {
					return -1
				}
			}
		}
	case "istype":
		x := cond.Args[0]
		if f, ok := s.facts[x.ID]; ok && f.eq != nil && f.eq.IsNil() {
			return -1
		}
		if _, isI := cond.Typ.Underlying().(*types.Interface); !isI {
			for id, f := range s.facts {
				if f.truth == 1 {
					t := e.TT.list[id]
					if t.Op == "istype" && t.Args[0] == x && t != cond {
						if _, isI := t.Typ.Underlying().(*types.Interface); !isI {
							return -1
						}
						if !types.Implements(cond.Typ, t.Typ.Underlying().(*types.Interface)) {
							return -1
						}
					}
				}
			}
		}
	}
	return 0
}

// NonNil: the term can never be nil.
func (e *Engine) NonNil(s *State, t *Term) bool {
	switch t.Op {
	case "alloc", "func", "closure", "make", "fieldaddr", "global", "indexaddr", "iface", "const":
		return true
	case "slice":
		return e.NonNil(s, t.Args[0])
	case "call":
		if t.Aux == "errors.New" || strings.HasPrefix(t.Aux, "fmt.Errorf@") {
			return true
		}
	}
	if f, ok := s.facts[t.ID]; ok {
		for _, n := range f.nes {
			if n.IsNil() {
				return true
			}
		}
		if f.eq != nil && !f.eq.IsNil() {
			return true
		}
	}
	return false
}

// IsNil: the term is known to be nil.
func (e *Engine) IsNil(s *State, t *Term) bool {
	if t.IsNil() {
		return true
	}
	if f, ok := s.facts[t.ID]; ok && f.eq != nil && f.eq.IsNil() {
		return true
	}
	return false
}

// roundLoop: hdr (as given to OnHeader for the running frame) heads a loop that no other loop contains, in its
// function or in the functions that call it on this path.
func (e *Engine) roundLoop(s *State, hdr string) bool {
	for i, f := range s.frames {
		h := f.blk
		if i == len(s.frames)-1 {
			h = f.fn.Blocks[atoi(hdr[strings.LastIndex(hdr, ":")+1:])]
		}
		for d := h; d != nil; d = d.Idom() {
			if d == h && i == len(s.frames)-1 {
				continue
			}
			for _, p := range d.Preds {
				if d.Dominates(p) && (p == h || inLoopOf(h, p, d)) {
					return false
				}
			}
		}
	}
	return true
}

// inLoopOf: h lies in the natural loop of the back edge from p to d.
func inLoopOf(h, p, d *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{d: true}
	todo := []*ssa.BasicBlock{p}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[b] {
			continue
		}
		if b == h {
			return true
		}
		seen[b] = true
		todo = append(todo, b.Preds...)
	}
	return h == d
}

func (e *Engine) rewrite(s *State, t *Term) *Term {
	if e.Rewrite == nil || t == nil {
		return t
	}
	return e.Rewrite(s, t)
}
