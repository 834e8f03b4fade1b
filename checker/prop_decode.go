package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decodeRun explores one decoding function: every read of the stream yields a value and an error;
// the monitor tracks which read errors nobody has looked at.
type decodeRun struct {
	c    *Ctx
	e    *Engine
	name string
	byID map[string]*Term
}

func (d *decodeRun) bad(s *State, rule, at, msg string) {
	d.c.Bad(rule, d.name, at, msg, s.Trace()...)
}

func (d *decodeRun) read(s *State, at, what string, err *Term, sure bool) {
	if d.e.Dry {
		return
	}
	id := fmt.Sprint(err.ID)
	d.byID[id] = err
	p := strings.Fields(s.Get("pend"))
	if contains(p, id) && s.Get("constloop") == "" {
		d.bad(s, "decode-loop", at, "another entry is decoded although the previous one may have failed: a damaged count is followed to its end")
	}
	if !contains(p, id) {
		p = append(p, id)
		sort.Strings(p)
	}
	s.Set("pend", strings.Join(p, " "))
	if sure {
		s.Set("last", id)
	}
	s.Note("%s: %s", at, what)
}

// pending read errors that may be non-nil and were not looked at
func (d *decodeRun) pending(s *State) []string {
	if l := s.Get("last"); l != "" && d.e.IsNil(s, d.byID[l]) {
		// a stream that failed keeps failing: a later read that succeeded shows the earlier ones did
		return nil
	}
	var r []string
	for _, id := range strings.Fields(s.Get("pend")) {
		if !d.e.IsNil(s, d.byID[id]) {
			r = append(r, id)
		}
	}
	return r
}

// settle forgets the read errors that were looked at
func (d *decodeRun) settle(s *State) {
	p := d.pending(s)
	s.Set("pend", strings.Join(p, " "))
	if l := s.Get("last"); l != "" && !contains(p, l) {
		s.Set("last", "")
	}
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func checkDecoder(c *Ctx, fn *ssa.Function, prim, panics bool) {
	name := FnName(fn)
	e := NewEngine(c.W)
	d := &decodeRun{c: c, e: e, name: name, byID: map[string]*Term{}}
	c.Ob("decode-panic", name)
	if !panics {
		c.Ob("decode-errors", name)
	}
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(t *Term) bool { return true }
	ps := e.Params(fn)
	mk := func(k *Call, s *State) *Term {
		t := e.TT.mk("call", "err@"+k.Site, errType, nil)
		e.forget(s, t)
		return t
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		at := ""
		if !e.Dry {
			at = c.W.At(k.Instr)
		}
		if k.Fn == fn {
			// recursion through an inlined helper: treat as one read
			if tup, ok := k.Fn.Signature.Results().At(k.Fn.Signature.Results().Len()-1).Type(), true; ok && isErrType(tup) {
				v, er, t := rdTuple(e, s, k)
				_ = v
				d.read(s, at, "decode again", er, true)
				return t, true
			}
		}
		if n, ok := methodOn(k.Fn, ndPkg, "DataInputX"); ok {
			if kind, p := inPrims[n]; p {
				_, er, tup := rdTuple(e, s, k)
				sure := true
				if n == "Read" {
					iv := e.Ival(s, k.Args[1])
					sure = iv != nil && iv.lo > 0
				}
				d.read(s, at, "read "+kind, er, sure)
				return tup, true
			}
			return nil, false
		}
		switch {
		case isExt(k.Fn, "encoding/binary", "Read"):
			er := mk(k, s)
			if x := k.Args[2]; x.Op == "iface" {
				v := e.TT.mk("call", "in@"+k.Site, deref(x.Typ), nil)
				e.forget(s, v)
				e.doStore(s, x.Args[0], v, k.Site)
			}
			d.read(s, at, "binary.Read", er, true)
			return er, true
		case isExt(k.Fn, "io", "ReadFull") || isExt(k.Fn, "io", "ReadAtLeast") || isExt(k.Fn, "io", "Copy") || isExt(k.Fn, "io", "CopyN") || isExt(k.Fn, "io", "ReadAll"):
			er := mk(k, s)
			n := e.TT.mk("fresh", "n@"+k.Site, types.Typ[types.Int], nil)
			if k.Fn.Name() == "ReadAll" {
				n = e.TT.mk("fresh", "n@"+k.Site, k.Fn.Signature.Results().At(0).Type(), nil)
			}
			d.read(s, at, "io."+k.Fn.Name(), er, false)
			return e.TT.mk("tuple", "", nil, nil, n, er), true
		}
		if k.Fn == nil && k.Method != nil {
			if !e.Dry {
				if !e.NonNil(s, k.Recv) && k.Recv.Op != "param" && !(k.Recv.Op == "load" && k.Recv.Args[0].Op == "fieldaddr") {
					d.bad(s, "decode-panic", at, "method "+k.Method.Name()+" is called on "+k.Recv.String()+", which may be nil")
				}
			}
			if k.Method.Name() == "Read" {
				res := k.Method.Type().(*types.Signature).Results()
				if res.Len() == 2 && isErrType(res.At(1).Type()) {
					v := e.TT.mk("call", "v@"+k.Site, res.At(0).Type(), nil)
					er := mk(k, s)
					e.forget(s, v)
					if b, ok := res.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
						if !e.Dry {
							d.bad(s, "decode-errors", at, "a single Read of the stream may return fewer bytes than requested without an error")
						}
						return e.TT.mk("tuple", "", nil, nil, v, er), true
					}
					d.read(s, at, "read object", er, false)
					return e.TT.mk("tuple", "", nil, nil, v, er), true
				}
			}
			return nil, false
		}
		// an object obtained from a Read with a resolved receiver (x.Read(in)) inlines
		if (isFn(k.Fn, ndPkg, "CreateValue") || isFn(k.Fn, ndPkg, "CreatePack")) && len(k.Args) == 1 {
			r := e.TT.mk("call", "factory@"+k.Site, k.Fn.Signature.Results().At(0).Type(), nil, k.Args...)
			e.forget(s, r)
			return r, true
		}
		return nil, false
	}
	e.OnPanic = func(s *State, in *ssa.Panic) { d.bad(s, "decode-panic", c.W.At(in), "panics on some input") }
	e.OnIndex = func(s *State, in ssa.Instruction, x, i *Term) {
		if e.Dry {
			return
		}
		var ar *types.Array
		if x.Typ != nil {
			ar, _ = deref(x.Typ).Underlying().(*types.Array)
		}
		iv := e.Ival(s, i)
		if ar != nil && iv != nil && iv.lo >= 0 && iv.hi < ar.Len() {
			return
		}
		ln := e.TT.mk("len", "", types.Typ[types.Int], nil, x)
		if x.Op == "make" {
			ln = x.Args[0]
		}
		if iv != nil && iv.lo >= 0 || i.Mentions(func(t *Term) bool { return t.Op == "next" || t.Op == "phi" }) {
			if e.Eval(s, e.TT.mk("bin", "<", types.Typ[types.Bool], nil, i, ln)) == 1 {
				return
			}
		}
		d.bad(s, "decode-panic", c.W.At(in), fmt.Sprintf("index %s of %s is not shown to be in range", i, x))
	}
	e.OnInstr = func(s *State, in ssa.Instruction) {
		f := s.top()
		switch x := in.(type) {
		case *ssa.TypeAssert:
			v := e.val(s, f, x.X)
			t := e.typeAssert(s, x, v)
			if x.CommaOk {
				ok := e.TT.Res(t, 1, types.Typ[types.Bool])
				id := fmt.Sprint(ok.ID)
				d.byID[id] = ok
				if v.Mentions(func(t *Term) bool { return t.Op == "call" }) {
					s.Set("asserts", strings.TrimSpace(s.Get("asserts")+" "+id))
				}
				return
			}
			it := e.TT.mk("istype", "", x.AssertedType, nil, v)
			if v.Op == "iface" && types.Identical(v.Typ, x.AssertedType) || e.Eval(s, it) == 1 {
				return
			}
			d.bad(s, "decode-panic", c.W.At(in), fmt.Sprintf("asserts that %s is a %s, which the input decides", v, typeStr(x.AssertedType)))
		case *ssa.MakeSlice:
			for _, n := range []ssa.Value{x.Len, x.Cap} {
				nt := e.val(s, f, n)
				iv := e.Ival(s, nt)
				if e.Dry || iv != nil && iv.lo >= 0 && iv.hi <= math.MaxInt32 || nt.Op == "len" {
					continue
				}
				d.bad(s, "decode-panic", c.W.At(in), fmt.Sprintf("makes a slice of a size (%s) that may be negative or beyond all memory", nt))
			}
		case *ssa.Slice:
			for _, b := range []ssa.Value{x.Low, x.High, x.Max} {
				if b == nil {
					continue
				}
				bt := e.val(s, f, b)
				if _, ok := bt.Int(); ok {
					if _, arr := deref(x.X.Type()).Underlying().(*types.Array); arr {
						continue
					}
				}
				xt := e.val(s, f, x.X)
				ln := e.TT.mk("len", "", types.Typ[types.Int], nil, xt)
				if xt.Op == "make" {
					ln = xt.Args[0]
				}
				iv := e.Ival(s, bt)
				if iv != nil && iv.lo >= 0 && (bt.Strip() == ln.Strip() || iv.hi == 0 || e.Eval(s, e.TT.Bin(tokLEQ, bt, ln, types.Typ[types.Bool])) == 1) {
					continue
				}
				d.bad(s, "decode-panic", c.W.At(in), fmt.Sprintf("slice bound %s is not shown to be in range", bt))
			}
		case *ssa.FieldAddr:
			d.deref(s, in, e.val(s, f, x.X))
		case *ssa.UnOp:
			if x.Op.String() == "*" {
				d.deref(s, in, e.val(s, f, x.X))
			}
		}
	}
	e.OnBranch = func(s *State, x *ssa.If, cond *Term, taken bool) {
		if e.Dry {
			return
		}
		d.settle(s)
		switch kind, count, _ := e.LoopIf(s, x, cond, taken); kind {
		case "iter":
			if count != nil && count.IsConst() {
				s.Set("constloop", "1")
				return
			}
			if loopReads(e, c, x) {
				c.Ob("decode-loop", name)
			}
		case "done", "break":
			s.Set("constloop", "")
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := c.W.At(in)
		if len(res) == 0 || panics {
			return
		}
		r := res[len(res)-1]
		if !isErrType(fn.Signature.Results().At(fn.Signature.Results().Len() - 1).Type()) {
			d.bad(s, "decode-errors", at, "no error is returned")
			return
		}
		if retErr(e, s, []*Term{r}) {
			return
		}
		p := d.pending(s)
		rid := fmt.Sprint(r.ID)
		ok := len(p) == 0 || len(p) == 1 && p[0] == rid || contains(p, rid) && s.Get("last") == rid
		if !ok {
			d.bad(s, "decode-errors", at, fmt.Sprintf("%d read error(s) are not in the error returned (%s): an input that ends early is taken for a complete one", len(p), r))
		}
		for _, id := range strings.Fields(s.Get("asserts")) {
			if t := d.byID[id]; e.Eval(s, t) != 1 && !(r.Op == "call" && !e.IsNil(s, r) && false) {
				d.bad(s, "decode-errors", at, "a decoded element of the wrong type is accepted without an error")
			}
		}
		// an element the factory did not know
		if x := res[0]; x != nil && !prim {
			if t := x.StripConv(); t.Op == "call" && strings.HasPrefix(t.Aux, "factory@") && !e.NonNil(s, t) {
				d.bad(s, "decode-errors", at, "an undefined type tag is not reported as an error")
			}
		}
	}
	e.Run(fn, ps, nil, nil)
	c.Use(e, name)
}

func (d *decodeRun) deref(s *State, in ssa.Instruction, t *Term) {
	if t.IsNil() || d.e.IsNil(s, t) {
		d.bad(s, "decode-panic", d.c.W.At(in), "dereferences nil")
		return
	}
	if t.Op == "assert" {
		it := d.e.TT.mk("istype", "", t.Typ, nil, t.Args[0])
		if d.e.Eval(s, it) != 1 {
			d.bad(s, "decode-panic", d.c.W.At(in), fmt.Sprintf("dereferences %s although the assertion may have failed", t))
		}
	}
}

// loopReads: the loop around this branch reads from a stream.
func loopReads(e *Engine, c *Ctx, x *ssa.If) bool {
	for h, body := range e.loopsIn(x.Parent()) {
		_ = h
		if !body[x.Block()] {
			continue
		}
		for b := range body {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if call.Common().IsInvoke() && call.Common().Method.Name() == "Read" {
					return true
				}
				if f := call.Common().StaticCallee(); f != nil && readsStream(c.W, f, map[*ssa.Function]bool{}) {
					return true
				}
			}
		}
	}
	return false
}

func readsStream(w *World, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	if n, ok := methodOn(f, ndPkg, "DataInputX"); ok {
		if _, p := inPrims[n]; p {
			return true
		}
	}
	if isExt(f, "encoding/binary", "Read") || isExt(f, "io", "ReadFull") {
		return true
	}
	if !w.InRepo(f) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil && readsStream(w, g, seen) {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register("C04", "Every decoding function (the stream primitives and each Read method of a value or pack) is explored abstractly over SSA. Each read yields an error term; at every return the errors nobody tested must be contained in the error returned, before another loop iteration they must have been tested, and no instruction on the way may panic on input-controlled data.",
		func(c *Ctx) {
			for _, n := range sortedKeys(inPrims) {
				if fn := c.Need(ndPkg, "DataInputX", n); fn != nil {
					checkDecoder(c, fn, true, false)
				}
			}
			// every Read(*DataInputX) method declared in the package
			n := 0
			inT := types.NewPointer(c.W.Type(ndPkg, "DataInputX"))
			for _, f := range c.W.Funcs {
				sig := f.Signature
				if f.Synthetic != "" || relPkg(FnPkg(f)) == "" || sig.Recv() == nil || f.Name() != "Read" || sig.Params().Len() != 1 || !types.Identical(sig.Params().At(0).Type(), inT) || sig.Results().Len() != 2 {
					continue
				}
				n++
				checkDecoder(c, f, false, false)
			}
			for _, n := range []string{"CreateValue", "CreatePack"} {
				if fn := c.Need(ndPkg, "", n); fn != nil {
					checkDecoder(c, fn, false, true)
				}
			}
			// the bytes of a value type tag and of a length tag decide; undefined ones are errors
			checkUnknownTags(c)
			if n < 18 {
				c.Bad("floor", "decoders", "-", fmt.Sprintf("only %d Read methods found", n))
			}
			c.Floor("decode-errors", 30)
			c.Floor("decode-loop", 3)
		})
}

// checkUnknownTags: an undefined tag reaches only error returns.
func checkUnknownTags(c *Ctx) {
	for _, n := range []string{"ReadValue", "ReadPack"} {
		fn := c.Need(ndPkg, "DataInputX", n)
		if fn == nil {
			continue
		}
		c.Ob("unknown-tag", n)
		e := NewEngine(c.W)
		e.NoHavoc = func(*Call) bool { return true }
		e.KeepFact = func(*Term) bool { return true }
		e.OnCall = func(s *State, k *Call) (*Term, bool) {
			if m, ok := methodOn(k.Fn, ndPkg, "DataInputX"); ok {
				if _, p := inPrims[m]; p {
					_, er, tup := rdTuple(e, s, k)
					e.Assume(s, e.TT.Bin(tokEQL, er, e.TT.mk("nil", "", nil, nil), types.Typ[types.Bool]), true, "x")
					return tup, true
				}
			}
			if isFn(k.Fn, ndPkg, "CreateValue") || isFn(k.Fn, ndPkg, "CreatePack") {
				s.Set("made", "1")
				return e.TT.mk("nil", "", nil, nil), true
			}
			return nil, false
		}
		made := 0
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			if s.Get("made") != "" {
				made++
			}
			if !retErr(e, s, res[len(res)-1:]) {
				c.Bad("unknown-tag", n, c.W.At(in), "a tag no type has is decoded without an error", s.Trace()...)
			}
		}
		e.Run(fn, nil, nil, nil)
		c.Use(e, n)
		if made == 0 {
			c.Bad("unknown-tag", n, c.W.FnAt(fn), "the type factory is not consulted on any path")
		}
	}
}
