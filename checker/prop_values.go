package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: what is put in a map, list or counter pack is kept as the value of its kind, and read back.

type valKind struct {
	name string
	typ  types.Type
	want string // value type that holds it
}

func valKinds(w *World) []valKind {
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	r := []valKind{{"string", b(types.String), "TextValue"}, {"bool", b(types.Bool), "BooleanValue"}, {"float32", b(types.Float32), "Float32Value"}, {"float64", b(types.Float64), "DoubleValue"}}
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64} {
		r = append(r, valKind{types.Typ[k].Name(), b(k), "DecimalValue"})
	}
	vi, _ := w.Type(ndPkg, "Value").Underlying().(*types.Interface)
	sc := w.SSA[rootPkg+"/"+ndPkg].Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || vi == nil {
			continue
		}
		if p := types.NewPointer(tn.Type()); !types.IsInterface(tn.Type()) && types.Implements(p, vi) {
			r = append(r, valKind{"*" + n, p, ""})
		}
	}
	return r
}

// holds: the term is a new value of the kind that holds v.
func (e *Engine) holds(s *State, t *Term, want string, v *Term) string {
	o := unboxS(t)
	if want == "" {
		if o == v {
			return ""
		}
		return "not the value given but " + t.String()
	}
	if !isNamedT(o.Typ, ndPkg, want) && !isNamedT(deref(o.Typ), ndPkg, want) {
		return fmt.Sprintf("a %s is kept instead of a %s", types.TypeString(deref(o.Typ), func(*types.Package) string { return "" }), want)
	}
	if o.Op != "alloc" {
		return "not a new value but " + o.String()
	}
	f := e.fieldAt(s, o, "Value")
	if sameNumber(f, v) {
		return ""
	}
	return "the value kept is " + f.String()
}

// sameNumber: t is v, perhaps converted to the wider type (or float64 to the float32 of a counter).
func sameNumber(t, v *Term) bool {
	top := t
	for t.Op == "conv" {
		if t == v {
			return true
		}
		from, ok1 := t.Args[0].Typ.Underlying().(*types.Basic)
		to, ok2 := t.Typ.Underlying().(*types.Basic)
		if !ok1 || !ok2 {
			return false
		}
		if (from.Info()^to.Info())&types.IsNumeric&^types.IsUnsigned != 0 || from.Info()&types.IsFloat != 0 && from.Kind() == types.Float64 && to.Kind() == types.Float32 && t != top {
			return false
		}
		if from.Info()&types.IsInteger != 0 && to.Info()&types.IsInteger != 0 {
			sz := types.SizesFor("gc", "amd64")
			if sz.Sizeof(to) < sz.Sizeof(from) {
				return false
			}
			if from.Info()&types.IsUnsigned != 0 && to.Info()&types.IsUnsigned == 0 && sz.Sizeof(to) == sz.Sizeof(from) && sz.Sizeof(to) != 8 {
				return false
			}
			// the sign of a narrower signed number has to survive
			if from.Info()&types.IsUnsigned == 0 && to.Info()&types.IsUnsigned != 0 && sz.Sizeof(to) != 8 {
				return false
			}
		}
		t = t.Args[0]
	}
	return t == v
}

func checkPut(c *Ctx, recv string, kinds []valKind) {
	w := c.W
	fn := c.Need(ndPkg, recv, "Put")
	if fn == nil {
		return
	}
	for _, k := range kinds {
		e := NewEngine(w)
		e.KeepFact = func(*Term) bool { return true }
		e.NoHavoc = func(*Call) bool { return true }
		v := e.TT.mk("param", "v", k.typ, nil)
		ps := []*Term{e.TT.mk("param", "p0", fn.Params[0].Type(), nil), e.TT.mk("param", "p1", fn.Params[1].Type(), nil), e.TT.mk("iface", "", k.typ, nil, v)}
		want := k.want
		if k.name == "float64" && strings.HasPrefix(recv, "PerfCounter") {
			want = "Float32Value" // counters are sent as floats
		}
		bad := func(s *State, at, msg string) {
			c.Bad("put", FnName(fn), at, "put of a "+k.name+": "+msg, s.Trace()...)
		}
		e.OnMapSet = func(s *State, in ssa.Instruction, m, key, val *Term) {
			if !ownTable(m, ps[0]) {
				return
			}
			s.Set("sets", s.Get("sets")+"1")
			if key != ps[1] {
				bad(s, w.At(in), "it is kept under "+key.String())
			}
			if msg := e.holds(s, val, want, v); msg != "" {
				bad(s, w.At(in), msg)
			}
		}
		e.OnCall = func(s *State, call *Call) (*Term, bool) {
			if call.Fn != fn || call.Args[0] != ps[0] || e.Dry {
				return nil, false
			}
			// put again as another kind, which is checked on its own
			s.Set("sets", s.Get("sets")+"1")
			a := call.Args[2]
			if call.Args[1] != ps[1] {
				bad(s, w.At(call.Instr), "it is kept under "+call.Args[1].String())
			}
			if a.Op != "iface" {
				bad(s, w.At(call.Instr), "not the value given is kept")
				return nil, true
			}
			msg := "it is kept as a " + a.Typ.String()
			for _, o := range kinds {
				if !types.Identical(o.typ, a.Typ) {
					continue
				}
				if o.want == want && sameNumber(a.Args[0], v) {
					msg = ""
				}
				if o.want == "" {
					msg = e.holds(s, a, want, v)
				}
			}
			if msg != "" {
				bad(s, w.At(call.Instr), msg)
			}
			return nil, true
		}
		e.OnPanic = func(s *State, in *ssa.Panic) {
			if !e.Dry {
				bad(s, w.At(in), "it panics")
			}
		}
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			if e.Dry {
				return
			}
			c.Ob("put", recv+" "+k.name+fmt.Sprint(s.Trace()))
			if s.Get("sets") == "" {
				bad(s, w.At(in), "it is dropped")
			}
		}
		e.Run(fn, ps, nil, nil)
		c.Use(e, FnName(fn))
	}
}

// ownTable: the map held by the receiver, or by the map value in it.
func ownTable(m, recv *Term) bool {
	for m.Op == "load" && m.Args[0].Op == "fieldaddr" {
		m = m.Args[0].Args[0]
		if m == recv {
			return true
		}
	}
	return false
}

var getters = map[string]struct{ want, typ string }{
	"GetString": {"TextValue", "string"}, "GetBoolean": {"BooleanValue", "bool"}, "GetInt8": {"DecimalValue", "int8"}, "GetInt16": {"DecimalValue", "int16"},
	"GetInt32": {"DecimalValue", "int32"}, "GetInt64": {"DecimalValue", "int64"}, "GetFloat": {"Float32Value", "float32"},
}

// valueOfEntry: t is the field Value of what the key (or index) leads to.
func valueOfEntry(t *Term, entry func(*Term) bool) bool {
	res, _ := t.Typ.Underlying().(*types.Basic)
	for t.Op == "conv" {
		t = t.Args[0]
		b, ok := t.Typ.Underlying().(*types.Basic)
		if !ok || res == nil {
			return false
		}
		sz := types.SizesFor("gc", "amd64")
		if t.Op == "conv" && (sz.Sizeof(b) < sz.Sizeof(res) || (b.Info()^res.Info())&types.IsNumeric != 0) {
			return false // narrower in between
		}
	}
	if t.Op != "load" || t.Args[0].Op != "fieldaddr" || t.Args[0].Aux != "Value" {
		return false
	}
	a := unassert(t.Args[0].Args[0])
	return entry(a)
}

func checkGet(c *Ctx, recv, name string) {
	g := getters[name]
	w := c.W
	fn := w.Fn(ndPkg, recv, name)
	if fn == nil {
		return
	}
	vt := types.NewPointer(w.Type(ndPkg, g.want))
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	p0 := e.TT.mk("param", "p0", fn.Params[0].Type(), nil)
	p1 := e.TT.mk("param", "p1", fn.Params[1].Type(), nil)
	bad := func(s *State, at, msg string) { c.Bad("get", FnName(fn), at, msg, s.Trace()...) }
	entry := func(t *Term) bool {
		if t.Op == "res" && t.Aux == "0" {
			t = t.Args[0]
		}
		switch t.Op {
		case "lookup":
			return ownTable(t.Args[0], p0) && t.Args[1] == p1
		case "load":
			return t.Args[0].Op == "indexaddr" && ownTable(t.Args[0].Args[0], p0) && t.Args[0].Args[1] == p1
		}
		return false
	}
	e.OnPanic = func(s *State, in *ssa.Panic) {
		if !e.Dry {
			bad(s, w.At(in), "it panics")
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		c.Ob("get", FnName(fn)+fmt.Sprint(s.Trace()))
		is := 0
		for id, f := range s.facts {
			t := e.TT.list[id]
			if t.Op == "istype" && types.Identical(t.Typ, vt) && entry(t.Args[0]) {
				is = int(f.truth)
			}
			if t.Op == "res" && t.Aux == "1" && t.Args[0].Op == "lookup" && entry(t.Args[0]) && f.truth < 0 {
				is = -1 // nothing there
			}
			if entry(t) && e.IsNil(s, t) {
				is = -1
			}
		}
		r := res[0]
		okVal := valueOfEntry(r, entry)
		zero := r == e.zero(fn.Signature.Results().At(0).Type())
		if v, ok := r.StripConv().Int(); ok && v == 0 {
			zero = true
		}
		if v, ok := r.Str(); ok && v == "" {
			zero = true
		}
		if v, ok := r.Bool(); ok && !v {
			zero = true
		}
		switch {
		case is > 0 && !okVal:
			bad(s, w.At(in), "for a "+g.want+" it returns "+r.String())
		case is < 0 && !zero && !okVal:
			bad(s, w.At(in), "for nothing of its kind it returns "+r.String())
		case is < 0 && okVal:
			bad(s, w.At(in), "it returns the value of an entry that is not there")
		case is == 0:
			bad(s, w.At(in), "the kind of the entry is not looked at, and "+r.String()+" is returned")
		}
	}
	e.Run(fn, nil, nil, nil)
	c.Use(e, FnName(fn))
}

// checkAdd: one element more at the end of the list.
func checkAdd(c *Ctx, name, want string) {
	w := c.W
	fn := c.Need(ndPkg, "ListValue", name)
	if fn == nil {
		return
	}
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	p0 := e.TT.mk("param", "p0", fn.Params[0].Type(), nil)
	p1 := e.TT.mk("param", "p1", fn.Params[1].Type(), nil)
	bad := func(s *State, at, msg string) { c.Bad("add", FnName(fn), at, msg, s.Trace()...) }
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if k.Kind != "builtin" || k.Name != "append" || len(k.Args) != 2 || e.Dry {
			return nil, false
		}
		m := &lraMon{e: e}
		r := e.TT.mk("append", "@"+k.Site, k.Instr.Value().Type(), nil, k.Args...)
		msg := ""
		if vs := m.appended(s, r); len(vs) != 1 {
			msg = fmt.Sprintf("%d elements are added", len(vs))
		} else {
			msg = e.holds(s, vs[0], want, p1)
		}
		if !ownTable(k.Args[0], p0) {
			msg = "the element is not added to the list but to " + k.Args[0].String()
		}
		s.Set(fmt.Sprintf("app%d", r.ID), "1"+msg)
		return r, true
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if addr.Op != "fieldaddr" || addr.Args[0] != p0 {
			return
		}
		s.Set("stores", s.Get("stores")+"1")
		x := s.Get(fmt.Sprintf("app%d", val.ID))
		switch {
		case x == "":
			bad(s, w.At(in), "the list becomes "+val.String())
		case x != "1":
			bad(s, w.At(in), x[1:])
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		c.Ob("add", FnName(fn)+fmt.Sprint(s.Trace()))
		if s.Get("stores") != "1" {
			bad(s, w.At(in), "the list does not get one element more")
		}
		if len(res) == 1 && res[0] != p0 {
			bad(s, w.At(in), "not the list is returned but "+res[0].String())
		}
	}
	e.Run(fn, nil, nil, nil)
	c.Use(e, FnName(fn))
}

// checkSize: Size, IsEmpty, ContainsKey.
func checkSize(c *Ctx, recv, name string) {
	w := c.W
	fn := w.Fn(ndPkg, recv, name)
	if fn == nil {
		return
	}
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	p0 := e.TT.mk("param", "p0", fn.Params[0].Type(), nil)
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		c.Ob("size", FnName(fn)+fmt.Sprint(s.Trace()))
		ok := false
		r := res[0].StripConv()
		for _, t := range e.TT.list {
			switch name {
			case "Size":
				ok = ok || r == t && t.Op == "len" && ownTable(t.Args[0], p0)
			case "IsEmpty":
				if t.Op == "len" && ownTable(t.Args[0], p0) {
					zero := e.eqInt(t, 0)
					if v := e.Eval(s, zero); r == zero || v != 0 && e.Eval(s, r) == v {
						ok = true
					}
					neg := e.TT.Bin(token.LSS, t, e.intT(1), types.Typ[types.Bool])
					ok = ok || r == neg
					if iv := e.Ival(s, t); iv.hi <= 0 && e.Eval(s, r) == 1 || iv.lo > 0 && e.Eval(s, r) == -1 {
						ok = true
					}
				}
			default:
				if t.Op == "res" && t.Aux == "1" && t.Args[0].Op == "lookup" && ownTable(t.Args[0].Args[0], p0) && t.Args[0].Args[1] == e.TT.mk("param", "p1", fn.Params[1].Type(), nil) {
					if v := e.Eval(s, t); r == t || v != 0 && e.Eval(s, r) == v {
						ok = true
					}
				}
			}
		}
		if !ok {
			c.Bad("size", FnName(fn), w.At(in), "it returns "+r.String(), s.Trace()...)
		}
	}
	e.Run(fn, nil, nil, nil)
	c.Use(e, FnName(fn))
}

func init() {
	register("C25", "Put of every map and counter pack is explored once for every kind of value it can be given, Get, Add and the size queries on all their paths: which entry is set or read, the value type chosen for it, and every conversion on the way are compared with what was put.", func(c *Ctx) {
		kinds := valKinds(c.W)
		for _, r := range []string{"MapValue", "MapPack", "PerfCounterPack", "PerfCounterK8SPack"} {
			checkPut(c, r, kinds)
		}
		for _, r := range []string{"MapValue", "MapPack", "ListValue"} {
			for _, n := range sortedKeys(getters) {
				checkGet(c, r, n)
			}
			for _, n := range []string{"Size", "IsEmpty", "ContainsKey", "ContainesKey"} {
				checkSize(c, r, n)
			}
		}
		for n, want := range map[string]string{"Add": "", "AddInt64": "DecimalValue", "AddInt32": "DecimalValue", "AddFloat": "Float32Value", "AddString": "TextValue", "AddBoolean": "BooleanValue"} {
			checkAdd(c, n, want)
		}
		// a list asked for in a map pack is in it
		if fn := c.Need(ndPkg, "MapPack", "NewList"); fn != nil {
			e := NewEngine(c.W)
			e.KeepFact = func(*Term) bool { return true }
			p0 := e.TT.mk("param", "p0", fn.Params[0].Type(), nil)
			p1 := e.TT.mk("param", "p1", fn.Params[1].Type(), nil)
			e.OnMapSet = func(s *State, in ssa.Instruction, m, k, v *Term) {
				if ownTable(m, p0) && k == p1 {
					s.Set("list", fmt.Sprint(unboxS(v).ID))
				}
			}
			e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
				if !e.Dry {
					c.Ob("list", FnName(fn)+fmt.Sprint(s.Trace()))
					if res[0].Op != "alloc" || s.Get("list") != fmt.Sprint(res[0].ID) {
						c.Bad("list", FnName(fn), c.W.At(in), "the list returned is not the one kept under the key", s.Trace()...)
					}
				}
			}
			e.Run(fn, nil, nil, nil)
			c.Use(e, FnName(fn))
		}
		c.Floor("put", 60)
		c.Floor("get", 20)
		c.Floor("add", 6)
		c.Floor("size", 3)
	})
}
