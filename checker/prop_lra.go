package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: the bounded table of the agent. A list holds the entries from the newest to the oldest,
// a map finds the list element of a key. Every method is followed path by path; what it does to
// the two is compared with what the operation means, assuming they agreed before it.

type lraMon struct {
	c              *Ctx
	kind           string
	e              *Engine
	fn             *ssa.Function
	recv           *Term
	lst, table     string // fields of Cache
	keyF, valF     string // fields of an entry
	max            string
	len0           *Term
	walks          map[*Term]bool // elements met by a walk over all entries
	loops          map[string]string
	good, undecide bool
}

func (m *lraMon) bad(s *State, at, msg string) {
	if !m.e.Dry {
		m.c.Bad(m.kind, FnName(m.fn), at, msg, s.Trace()...)
	}
}

func (m *lraMon) own(t *Term, field string) bool {
	return t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == field && t.Args[0].Args[0] == m.recv
}

func plain(t *Term) *Term {
	for {
		n := unassert(t.StripConv())
		if n == t {
			return t
		}
		t = n
	}
}

// found: the lookup of a key in the table as it was at the start.
func (m *lraMon) lookupOf(t *Term) *Term {
	if t.Op == "res" && t.Aux == "0" {
		t = t.Args[0]
	}
	if t.Op == "lookup" && t.Aux == "" && m.own(t.Args[0], m.table) {
		return t
	}
	return nil
}

func (e *Engine) fieldOfEntry(s *State, en *Term, f string) *Term {
	return plain(e.Load(s, e.TT.mk("fieldaddr", f, nil, nil, en), types.NewInterfaceType(nil, nil)))
}

func isField(t *Term, f string) (*Term, bool) {
	if t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == f {
		return t.Args[0].Args[0], true
	}
	return nil, false
}

// isKeyOf: k is the key stored in element el.
func (m *lraMon) isKeyOf(s *State, k, el *Term) bool {
	k = plain(k)
	if l := m.lookupOf(el); l != nil && plain(l.Args[1]) == k {
		return true
	}
	if en, ok := isField(k, m.keyF); ok {
		return m.elemOf(en) == el
	}
	if k.Op == "res" && k.Aux == "1" && el.Op == "res" && el.Args[0] == k.Args[0] && k.Args[0].Op == "next" {
		return true
	}
	return false
}

// elemOf: the list element whose entry this is.
func (m *lraMon) elemOf(en *Term) *Term {
	v, ok := isField(plain(en), "Value")
	if !ok {
		return nil
	}
	if l := m.lookupOf(v); l != nil {
		// the element of a key met by a walk
		if k := plain(l.Args[1]); k.Op == "res" && k.Aux == "1" && k.Args[0].Op == "next" {
			for _, t := range m.e.TT.list {
				if t.Op == "res" && t.Aux == "2" && t.Args[0] == k.Args[0] {
					return t
				}
			}
			return k.Args[0]
		}
	}
	return v
}

// isValOf: v is the value of element el.
func (m *lraMon) valElem(v *Term) *Term {
	if en, ok := isField(plain(v), m.valF); ok {
		return m.elemOf(en)
	}
	return nil
}

func (m *lraMon) add(s *State, k, v string) { s.Set(k, s.Get(k)+v+";") }

func count(s string) int { return strings.Count(s, ";") }

// hit: the key was in the table at the start: 1 yes, -1 no, 0 not asked.
func (m *lraMon) hit(s *State, key *Term) int {
	r := 0
	for id, f := range s.facts {
		t := m.e.TT.list[id]
		if t.Op == "res" && t.Aux == "1" {
			if l := m.lookupOf(t.Args[0]); l != nil && plain(l.Args[1]) == key && f.truth != 0 {
				r = int(f.truth)
			}
		}
		if l := m.lookupOf(t); l != nil && plain(l.Args[1]) == key {
			if m.e.IsNil(s, t) {
				r = -1
			} else if m.e.NonNil(s, t) {
				r = 1
			}
		}
	}
	return r
}

// cmp: what is known of x < 0, where x is a polynomial over the limit and the size at the start.
func (m *lraMon) neg(s *State, d poly) int {
	if k, ok := d[""]; len(d) == 0 || ok && len(d) == 1 {
		if k < 0 {
			return 1
		}
		return -1
	}
	for id, f := range s.facts {
		t := m.e.TT.list[id]
		if t.Op != "bin" || f.truth == 0 || t.Aux != "<" && t.Aux != "==" {
			continue
		}
		q := toPoly(t.Args[0], nil).add(toPoly(t.Args[1], nil), -1)
		try := func(q poly) int { // q < 0 holds
			if df := d.add(q, -1); len(df) == 0 || len(df) == 1 && df[""] < 0 { // d <= q
				return 1
			}
			// -1-d < 0 is the negation of d < 0
			n := polyConst(-1).add(d, -1)
			if df := n.add(q, -1); len(df) == 0 || len(df) == 1 && df[""] < 0 {
				return -1
			}
			return 0
		}
		if t.Aux == "==" {
			if f.truth < 0 {
				continue
			}
			for _, sg := range []int64{1, -1} {
				if r := try(polyConst(-1).add(q, sg)); r != 0 {
					return r
				}
			}
			continue
		}
		if f.truth < 0 {
			q = polyConst(-1).add(q, -1)
		}
		if r := try(q); r != 0 {
			return r
		}
	}
	return 0
}

func (m *lraMon) engine() *Engine {
	w := m.c.W
	e := NewEngine(w)
	m.e = e
	m.recv = e.TT.mk("param", "p0", m.fn.Params[0].Type(), nil)
	m.len0 = e.TT.mk("call", "size", types.Typ[types.Int], nil)
	m.loops = map[string]string{}
	m.walks = map[*Term]bool{}
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	delta := func(s *State) int64 {
		return int64(count(s.Get("push")) - count(s.Get("rm")))
	}
	size := func(s *State, d int64, rt types.Type) *Term {
		if s.Get("fresh-list") != "" {
			return e.intT(d)
		}
		if d == 0 {
			return m.len0
		}
		return e.TT.Bin(token.ADD, m.len0, e.intT(d), rt)
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		at := w.At(k.Instr)
		var rt types.Type
		if v := k.Instr.Value(); v != nil {
			rt = v.Type()
		}
		id := func(t *Term) string { return fmt.Sprint(t.ID) }
		if k.Kind == "builtin" {
			switch k.Name {
			case "delete":
				if m.own(k.Args[0], m.table) {
					if x := plain(k.Args[1]); x.Op == "res" && x.Aux == "1" && x.Args[0].Op == "next" {
						s.Set("del-each", "1")
					} else {
						m.add(s, "del", id(x))
					}
				}
			case "append":
				if len(k.Args) == 2 && !e.Dry {
					r := e.TT.mk("append", "@"+k.Site, rt, nil, k.Args...)
					v := ""
					for _, x := range m.appended(s, r) {
						v += id(x) + ";"
					}
					s.Set("app"+id(r), v)
					return r, true
				}
			case "clear":
				if m.own(k.Args[0], m.table) {
					m.add(s, "wipe", "table")
				}
			case "len":
				if m.own(k.Args[0], m.table) {
					return size(s, int64(count(s.Get("set"))-count(s.Get("del"))), rt), true
				}
			}
			return nil, false
		}
		f := k.Fn
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "container/list" {
			return nil, false
		}
		if isExt(f, "container/list", "New") {
			return e.TT.mk("call", "list.New@"+k.Site, rt, nil), true
		}
		if isExtMethod(f, "container/list", "Element", "Next") || isExtMethod(f, "container/list", "Element", "Prev") {
			return e.TT.mk("call", "walk "+f.Name(), rt, nil, k.Args[0]), true
		}
		if len(k.Args) == 0 || !m.own(k.Args[0], m.lst) {
			if o := k.Args; len(o) > 0 && strings.HasPrefix(o[0].Aux, "list.New@") && f.Name() == "Init" {
				return o[0], true
			}
			m.bad(s, at, "a list other than the table's own is used: "+f.Name())
			return nil, true
		}
		switch f.Name() {
		case "Len":
			return size(s, delta(s), rt), true
		case "Init":
			m.add(s, "wipe", "list")
			return k.Args[0], true
		case "PushFront", "PushBack":
			el := e.TT.mk("call", "new element@"+k.Site, rt, nil, k.Args[1])
			if !e.Dry && m.keyF != "" {
				en := plain(k.Args[1])
				s.Set("newkey", id(e.fieldOfEntry(s, en, m.keyF)))
				s.Set("newval", id(e.fieldOfEntry(s, en, m.valF)))
			}
			m.add(s, "push", id(el))
			s.Set("end", f.Name())
			return el, true
		case "Back", "Front":
			r := e.TT.mk("call", f.Name()+fmt.Sprint(s.Get("rm")), rt, nil)
			if delta(s) > 0 {
				e.Assume(s, e.TT.Bin(token.EQL, r, e.TT.mk("nil", "", rt, nil), types.Typ[types.Bool]), false, k.Site)
			}
			return r, true
		case "Remove":
			if count(s.Get("rm")) >= 4 { // a loop; with a limit it has ended before
				if m.limited(s) > 0 && e.OnBranch != nil {
					m.bad(s, at, "one element after the other is removed")
				}
				s.Set("!prune", "1")
			}
			m.add(s, "rm", id(k.Args[1]))
			return m.e.TT.mk("load", "", types.NewInterfaceType(nil, nil), nil, e.TT.mk("fieldaddr", "Value", nil, nil, k.Args[1])), true
		case "MoveToFront", "MoveToBack", "MoveAfter", "MoveBefore":
			m.add(s, "move", id(k.Args[1]))
			return nil, true
		}
		m.bad(s, at, "the list is changed by "+f.Name())
		return nil, true
	}
	e.Rewrite = func(s *State, t *Term) *Term { // the limit stays what it was
		if m.own(t, m.max) && t.Aux != "" {
			return e.TT.mk("load", "", t.Typ, nil, t.Args...)
		}
		return t
	}
	e.OnMapSet = func(s *State, in ssa.Instruction, mp, k, v *Term) {
		if m.own(mp, m.table) {
			m.add(s, "set", fmt.Sprintf("%d=%d", plain(k).ID, v.ID))
		}
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if addr.Op != "fieldaddr" {
			return
		}
		switch {
		case addr.Args[0] == m.recv && addr.Aux == m.lst:
			if !strings.HasPrefix(plain(val).Aux, "list.New@") {
				m.bad(s, w.At(in), "the list is replaced by "+val.String())
			}
			m.add(s, "wipe", "list")
		case addr.Args[0] == m.recv && addr.Aux == m.table:
			if plain(val).Op != "make" {
				m.bad(s, w.At(in), "the map is replaced by "+val.String())
			}
			m.add(s, "wipe", "table")
		case addr.Args[0] == m.recv && addr.Aux == m.max:
			m.bad(s, w.At(in), "the limit is changed")
		case addr.Aux == m.valF || addr.Aux == m.keyF || addr.Aux == "Value":
			if addr.Args[0].Op == "alloc" {
				return
			}
			el, k, v := addr.Args[0], (*Term)(nil), (*Term)(nil)
			switch addr.Aux {
			case "Value":
				en := plain(val)
				k, v = e.fieldOfEntry(s, en, m.keyF), e.fieldOfEntry(s, en, m.valF)
			case m.keyF:
				el, k = m.elemOf(addr.Args[0]), plain(val)
			default:
				el, v = m.elemOf(addr.Args[0]), plain(val)
			}
			id := func(t *Term) int {
				if t == nil {
					return -1
				}
				return t.ID
			}
			m.add(s, "write", fmt.Sprintf("%d %d %d", id(el), id(k), id(v)))
		}
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		// the limit held before
		lim, top := m.limit(), poly(nil)
		if m.limited(s) > 0 {
			top = lim.add(toPoly(m.len0, nil), -1) // limit - size < 0 cannot be
			if m.neg(s, top) > 0 {
				s.Set("!prune", "1")
				return
			}
		}
		if m.neg(s, toPoly(m.len0, nil)) > 0 {
			s.Set("!prune", "1")
			return
		}
		// list and map agree: their elements have entries
		for id, f := range s.facts {
			t := e.TT.list[id]
			if f.truth < 0 && t.Op == "istype" && m.elemOf(t.Args[0]) != nil || f.truth < 0 && t.Op == "res" && t.Aux == "1" && t.Args[0].Op == "assert" && m.elemOf(t.Args[0].Args[0]) != nil || e.IsNil(s, t) && m.isEntryOrElem(t) {
				s.Set("!prune", "1")
				return
			}
			if t.Op == "call" && (t.Aux == "Back" || t.Aux == "Front") && e.IsNil(s, t) && m.limited(s) > 0 && m.neg(s, m.over()) > 0 {
				s.Set("!prune", "1") // an empty table is not full
				return
			}
		}
		x, neg := cond, false
		for x.Op == "not" {
			x, neg = x.Args[0], !neg
		}
		// the end of a walk over all entries
		if x.Op == "res" && x.Aux == "0" && x.Args[0].Op == "next" {
			if rg := x.Args[0].Args[0]; rg.Op == "range" && m.own(rg.Args[0], m.table) {
				if s.Get("range") != fmt.Sprint(rg.ID) {
					for _, k := range []string{"walk", "kept-some", "del-each", "all-deleted"} {
						s.Set(k, "")
					}
					s.Set("range", fmt.Sprint(rg.ID))
				}
				if taken == neg {
					if s.Get("walk") == "" || s.Get("del-each") != "" && s.Get("kept-some") == "" {
						s.Set("all-deleted", "1")
					}
					s.Set("walk", "done")
				} else {
					if s.Get("walk") == "in" && s.Get("del-each") == "" {
						s.Set("kept-some", "1")
					}
					s.Set("walk", "in")
					s.Set("cur", fmt.Sprint(x.Args[0].ID))
					s.Set("del-each", "")
				}
			}
		}
		if x.Op == "bin" && x.Aux == "==" {
			for i, p := range x.Args {
				if o := x.Args[1-i]; o.IsNil() && p.Op == "phi" && m.loops[p.String()] != "" {
					if taken != neg {
						s.Set("walk", "done")
					} else {
						s.Set("walk", "in")
						s.Set("cur", fmt.Sprint(p.ID))
					}
				}
			}
		}
	}
	return e
}

// over: limit - size - 1, negative when one entry more is too much.
func (m *lraMon) over() poly { return m.limit().add(toPoly(m.len0, nil), -1).add(polyConst(1), -1) }

// isEntryOrElem: an element reached from the map, or its entry.
func (m *lraMon) isEntryOrElem(t *Term) bool {
	if t.Op == "assert" && m.elemOf(t) != nil {
		return true
	}
	return t.Op == "res" && t.Aux == "2" && t.Args[0].Op == "next" && t.Args[0].Args[0].Op == "range" && m.own(t.Args[0].Args[0].Args[0], m.table)
}

func (m *lraMon) limit() poly {
	for _, t := range m.e.TT.list {
		if m.own(t, m.max) {
			return toPoly(t, nil)
		}
	}
	return toPoly(m.recv, nil)
}

// limited: the limit is not zero.
func (m *lraMon) limited(s *State) int {
	for _, t := range m.e.TT.list {
		if m.own(t, m.max) {
			if v := m.e.Eval(s, m.e.eqInt(t, 0)); v != 0 {
				return -v
			}
		}
	}
	return 0
}

func (m *lraMon) termOf(id string) *Term {
	var n int
	fmt.Sscan(id, &n)
	if n >= 0 && n < len(m.e.TT.list) {
		return m.e.TT.list[n]
	}
	return nil
}

func (m *lraMon) items(s *State, k string) []string {
	v := strings.TrimSuffix(s.Get(k), ";")
	if v == "" {
		return nil
	}
	return strings.Split(v, ";")
}

// unchanged: none of the effects named happened.
func (m *lraMon) none(s *State, at string, keys ...string) {
	for _, k := range keys {
		if s.Get(k) != "" {
			m.bad(s, at, map[string]string{"push": "an entry is added to the list", "rm": "an entry is taken from the list", "set": "a key is entered into the map",
				"del": "a key is deleted from the map", "del-each": "keys are deleted from the map", "wipe": "the table is emptied", "write": "an entry is overwritten", "move": "the age order is changed"}[k]+" by this operation")
		}
	}
}

var lraAll = []string{"push", "rm", "set", "del", "del-each", "wipe", "write", "move"}

func lraWithout(xs ...string) []string {
	var r []string
next:
	for _, a := range lraAll {
		for _, x := range xs {
			if a == x {
				continue next
			}
		}
		r = append(r, a)
	}
	return r
}

func (m *lraMon) method(name string, ret func(s *State, at string, in *ssa.Return, res []*Term)) {
	c := m.c
	fn := c.Need(lraPkg, "Cache", name)
	if fn == nil {
		return
	}
	m.fn = fn
	e := m.engine()
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		c.Ob(m.kind, FnName(fn)+fmt.Sprint(s.Trace()))
		ret(s, c.W.At(in), in, res)
	}
	if name == "GetValues" {
		m.values()
	}
	e.Run(fn, nil, nil, nil)
	c.Use(e, FnName(fn))
}

func (m *lraMon) par(i int) *Term {
	return m.e.TT.mk("param", fmt.Sprintf("p%d", i), m.fn.Params[i].Type(), nil)
}

// values: the walk that collects the values.
func (m *lraMon) values() {
	e, w := m.e, m.c.W
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		for p, v := range phis {
			if !back {
				if v.Op == "call" && (v.Aux == "Front" || v.Aux == "Back") {
					m.loops[p.String()] = v.Aux
				}
				if x := v.Strip(); x.Op == "make" || x.Op == "nil" || x.Op == "slice" || x.Op == "alloc" || x.Op == "zero" {
					m.loops["acc"+p.String()] = "1"
					s.Set("acc0", x.Op)
					if x.Op == "make" {
						if k, ok := x.Args[0].Int(); !ok || k != 0 {
							m.bad(s, w.FnAt(m.fn), "the list of values does not start empty")
						}
					}
				}
				continue
			}
			if d := m.loops[p.String()]; d != "" {
				if !(v.Op == "call" && v.Args != nil && v.Args[0] == p && (v.Aux == "walk Next" && d == "Front" || v.Aux == "walk Prev" && d == "Back")) {
					m.bad(s, w.FnAt(m.fn), "the walk over the entries does not visit every one")
				}
			}
		}
		if !back || s.Get("walk") != "in" {
			return
		}
		cur := m.termOf(s.Get("cur"))
		var el *Term
		if cur.Op == "next" {
			el = cur
			for _, t := range e.TT.list {
				if t.Op == "res" && t.Aux == "2" && t.Args[0] == cur {
					el = t
				}
			}
		} else {
			el = cur
		}
		for p, v := range phis {
			if m.loops["acc"+p.String()] == "" {
				continue
			}
			at := w.FnAt(m.fn)
			m.c.Ob(m.kind+"-walk", fmt.Sprint(s.Trace()))
			switch {
			case v == p:
				// left out: only for an entry without a value
				nil_ := e.IsNil(s, el)
				for id := range s.facts {
					t := e.TT.list[id]
					if !e.IsNil(s, t) {
						continue
					}
					if m.valElem(t) == el || m.elemOf(t) == el {
						nil_ = true
					}
				}
				if !nil_ && e.Dry == false {
					m.bad(s, at, "an entry of the table is left out of the values")
				}
			case v.Op == "append" && v.Args[0] == p:
				vs := m.items(s, fmt.Sprintf("app%d", v.ID))
				if len(vs) != 1 || m.valElem(m.termOf(vs[0])) != el {
					m.bad(s, at, "the values do not get the value of each entry exactly once")
				}
			default:
				m.bad(s, at, "the values collected so far are lost: "+v.String())
			}
		}
	}
}

// appended: the elements of an append of listed values.
func (m *lraMon) appended(s *State, v *Term) []*Term {
	e := m.e
	a := v.Args[1]
	for a.Op == "slice" {
		a = a.Args[0]
	}
	arr, ok := deref(a.Typ).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	var r []*Term
	for i := int64(0); i < arr.Len(); i++ {
		var x *Term
		for _, cl := range s.store {
			if cl.addr.Op == "indexaddr" && cl.addr.Args[0] == a {
				if k, ok := cl.addr.Args[1].Int(); ok && k == i {
					x = cl.val
				}
			}
		}
		if x == nil {
			x = e.TT.mk("fresh", "?", nil, nil)
		}
		r = append(r, x)
	}
	return r
}

// lraLemma checks the bounded table; its obligations are listed under kind.
func lraLemma(c *Ctx, kind string) {
	w := c.W
	m := &lraMon{c: c, kind: kind}
	t := w.Type(lraPkg, "Cache")
	if t == nil {
		c.Bad(kind, "lra", "", "type Cache of "+lraPkg+" not found")
		return
	}
	st, _ := t.Underlying().(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		f := st.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Map:
			m.table = f.Name()
		case *types.Pointer:
			if isNamedPath(u.Elem(), "container/list", "List") {
				m.lst = f.Name()
			}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				m.max = f.Name()
			}
		}
	}
	if m.table == "" || m.lst == "" || m.max == "" {
		c.Bad(kind, "lra.Cache", "", "the table is not built from a list and a map")
		return
	}
	// a new table is empty and has the limit asked for
	if fn := c.Need(lraPkg, "", "New"); fn != nil {
		m.fn = fn
		e := NewEngine(w)
		m.e = e
		e.KeepFact = func(*Term) bool { return true }
		e.OnCall = func(s *State, k *Call) (*Term, bool) {
			if k.Fn != nil && isExt(k.Fn, "container/list", "New") {
				return e.TT.mk("call", "list.New@"+k.Site, k.Instr.Value().Type(), nil), true
			}
			return nil, false
		}
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			if e.Dry {
				return
			}
			c.Ob(kind, FnName(fn)+fmt.Sprint(s.Trace()))
			at := w.At(in)
			o := res[0]
			if v := e.fieldAt(s, o, m.max); v == nil || v.StripConv() != e.TT.mk("param", "p0", fn.Params[0].Type(), nil) {
				m.bad(s, at, fmt.Sprintf("the limit of a new table is %v", v))
			}
			if v := e.fieldAt(s, o, m.lst); v == nil || !strings.HasPrefix(v.Aux, "list.New@") {
				m.bad(s, at, fmt.Sprintf("the list of a new table is %v", v))
			}
			if v := e.fieldAt(s, o, m.table); v == nil || v.Op != "make" {
				m.bad(s, at, fmt.Sprintf("the map of a new table is %v", v))
			}
		}
		e.Run(fn, nil, nil, nil)
		c.Use(e, FnName(fn))
	}
	// what an entry looks like
	add := c.Need(lraPkg, "Cache", "Add")
	if add == nil {
		return
	}
	m.entryFields(add)
	if m.keyF == "" || m.valF == "" {
		c.Bad(kind, FnName(add), w.FnAt(add), "no entry with the key and the value is put on the list")
		return
	}
	m.method("Add", m.added)
	m.method("Get", func(s *State, at string, in *ssa.Return, res []*Term) {
		m.none(s, at, lraAll...)
		r := plain(res[0])
		switch m.hit(s, m.par(1)) {
		case 1:
			if el := m.valElem(r); el == nil || m.lookupOf(el) == nil || plain(m.lookupOf(el).Args[1]) != m.par(1) {
				m.bad(s, at, fmt.Sprintf("for a known key %v is returned", r))
			}
		case -1:
			if !r.IsNil() {
				m.bad(s, at, fmt.Sprintf("for an unknown key %v is returned", r))
			}
		default:
			m.bad(s, at, "the key is not looked up")
		}
	})
	m.method("Contains", func(s *State, at string, in *ssa.Return, res []*Term) {
		m.none(s, at, lraAll...)
		r, want := res[0], m.hit(s, m.par(1))
		if want != 0 && m.e.Eval(s, r) == want {
			return
		}
		x, neg := r, false
		for x.Op == "not" {
			x, neg = x.Args[0], !neg
		}
		if x.Op == "res" && x.Aux == "1" && !neg {
			if l := m.lookupOf(x.Args[0]); l != nil && plain(l.Args[1]) == m.par(1) {
				return
			}
		}
		if x.Op == "bin" && x.Aux == "==" && neg {
			for i, a := range x.Args {
				if l := m.lookupOf(a); l != nil && x.Args[1-i].IsNil() && plain(l.Args[1]) == m.par(1) {
					return
				}
			}
		}
		m.bad(s, at, fmt.Sprintf("whether the key is known is answered with %v", r))
	})
	m.method("Remove", func(s *State, at string, in *ssa.Return, res []*Term) {
		switch m.hit(s, m.par(1)) {
		case 1:
			m.none(s, at, lraWithout("rm", "del")...)
			m.removed(s, at, func(el *Term) bool {
				l := m.lookupOf(el)
				return l != nil && plain(l.Args[1]) == m.par(1)
			}, "the entry of the key")
		case -1:
			m.none(s, at, lraWithout("del")...)
			for _, d := range m.items(s, "del") {
				if m.termOf(d) != m.par(1) {
					m.bad(s, at, "another key is deleted")
				}
			}
		default:
			m.bad(s, at, "the key is not looked up")
		}
	})
	size := func(s *State, at string, in *ssa.Return, res []*Term) {
		m.none(s, at, lraAll...)
		if r := res[0].StripConv(); r != m.len0 {
			m.bad(s, at, fmt.Sprintf("the size is given as %v", r))
		}
	}
	m.method("Size", size)
	m.method("Empty", func(s *State, at string, in *ssa.Return, res []*Term) {
		m.none(s, at, lraAll...)
		zero := m.e.eqInt(m.len0, 0)
		iv := m.e.Ival(s, m.len0)
		v := m.e.Eval(s, res[0])
		switch {
		case res[0] == zero:
		case iv.hi <= 0 && v == 1, iv.lo > 0 && v == -1, v != 0 && v == -m.neg(s, polyConst(0).add(toPoly(m.len0, nil), -1)):
		default:
			x := res[0]
			neg := 0
			for x.Op == "not" {
				x, neg = x.Args[0], 1-neg
			}
			if x.Op == "bin" && x.Aux == "<" {
				q := toPoly(x.Args[0], nil).add(toPoly(x.Args[1], nil), -1)
				if neg == 1 {
					q = polyConst(-1).add(q, -1)
				}
				if q.eq(toPoly(m.len0, nil).add(polyConst(1), -1)) {
					return
				}
			}
			m.bad(s, at, fmt.Sprintf("whether the table is empty is answered with %v", res[0]))
		}
	})
	m.method("Clear", func(s *State, at string, in *ssa.Return, res []*Term) {
		m.none(s, at, lraWithout("wipe", "del-each")...)
		for _, p := range []string{"list", "table"} {
			if !strings.Contains(s.Get("wipe"), p) && (p == "list" || s.Get("all-deleted") == "") {
				m.bad(s, at, "the "+map[string]string{"list": "list", "table": "map"}[p]+" is not emptied")
			}
		}
	})
	m.method("GetValues", func(s *State, at string, in *ssa.Return, res []*Term) {
		m.none(s, at, lraAll...)
		r := res[0]
		for r.Op == "slice" && r.Args[1].Op == "none" {
			r = r.Args[0]
		}
		switch {
		case s.Get("walk") != "done" && m.e.Ival(s, m.len0).hi > 0:
			m.bad(s, at, "not every entry is visited")
		case s.Get("walk") == "done" && m.loops["acc"+r.String()] == "":
			m.bad(s, at, fmt.Sprintf("the values returned are %v", r))
		}
	})
	if ak := c.W.Fn(lraPkg, "Cache", "AddKey"); ak != nil {
		m.method("AddKey", m.added)
	}
	// the limit stays what it was made with
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isNamedT(deref(fa.X.Type()), lraPkg, "Cache") {
					continue
				}
				name := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
				if _, own := methodOn(fn, lraPkg, "Cache"); !own && relPkg(FnPkg(fn)) != lraPkg {
					c.Bad(kind, FnName(fn), w.At(in), "the field "+name+" of a table is set outside its package")
				}
			}
		}
	}
	c.Floor(kind, 12)
	c.Floor(kind+"-walk", 1)
}

func isNamedPath(t types.Type, path, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path
}

// entryFields finds the fields that hold key and value of an entry.
func (m *lraMon) entryFields(add *ssa.Function) {
	m.fn = add
	e := m.engine()
	old := e.OnCall
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if k.Fn != nil && k.Fn.Pkg != nil && k.Fn.Pkg.Pkg.Path() == "container/list" && strings.HasPrefix(k.Fn.Name(), "Push") && !e.Dry {
			en := plain(k.Args[1])
			if st, ok := deref(en.Typ).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					switch v := e.fieldAt(s, en, st.Field(i).Name()); plain(v) {
					case m.par(1):
						m.keyF = st.Field(i).Name()
					case m.par(2):
						m.valF = st.Field(i).Name()
					}
				}
			}
		}
		return old(s, k)
	}
	e.OnBranch = nil
	e.Run(add, nil, nil, nil)
}

// removed: exactly one entry is removed, from the list and from the map.
func (m *lraMon) removed(s *State, at string, is func(el *Term) bool, what string) {
	rm, del := m.items(s, "rm"), m.items(s, "del")
	if len(rm) != 1 {
		m.bad(s, at, fmt.Sprintf("%s is taken from the list %d times", what, len(rm)))
		return
	}
	el := m.termOf(rm[0])
	if !is(el) {
		m.bad(s, at, fmt.Sprintf("not %s is taken from the list but %v", what, el))
		return
	}
	if len(del) != 1 {
		m.bad(s, at, fmt.Sprintf("the key of what is removed is deleted from the map %d times", len(del)))
		return
	}
	if k := m.termOf(del[0]); !m.isKeyOf(s, k, el) {
		m.bad(s, at, fmt.Sprintf("%s is taken from the list, but the key %v from the map", what, k))
	}
}

// added: what Add does. AddKey is Add with a value of its own.
func (m *lraMon) added(s *State, at string, in *ssa.Return, res []*Term) {
	key := m.par(1)
	isVal := func(v *Term) bool { return len(m.fn.Params) < 3 || plain(v) == m.par(2) }
	switch m.hit(s, key) {
	case 1:
		m.none(s, at, lraWithout("write")...)
		w := m.items(s, "write")
		if len(w) == 0 {
			m.bad(s, at, "the value of a known key is not replaced")
			return
		}
		replaced := false
		for _, id := range w {
			f := strings.Fields(id)
			el, k, v := m.termOf(f[0]), m.termOf(f[1]), m.termOf(f[2])
			l := (*Term)(nil)
			if el != nil {
				l = m.lookupOf(el)
			}
			if l == nil || plain(l.Args[1]) != key {
				m.bad(s, at, "an entry of another key is overwritten")
				continue
			}
			if k != nil && k != key && !m.isKeyOf(s, k, el) {
				m.bad(s, at, fmt.Sprintf("the key of the entry becomes %v", k))
			}
			if v != nil {
				replaced = true
				if !isVal(v) {
					m.bad(s, at, fmt.Sprintf("the value of a known key becomes %v", v))
				}
			}
		}
		if !replaced {
			m.bad(s, at, "the value of a known key is not replaced")
		}
	case -1:
		m.none(s, at, lraWithout("push", "set", "rm", "del")...)
		ps, ss := m.items(s, "push"), m.items(s, "set")
		if len(ps) != 1 || len(ss) != 1 {
			m.bad(s, at, fmt.Sprintf("a new key is put on the list %d times and into the map %d times", len(ps), len(ss)))
			return
		}
		el := m.termOf(ps[0])
		if k := m.termOf(s.Get("newkey")); k != key {
			m.bad(s, at, fmt.Sprintf("the new entry has the key %v", k))
		}
		if v := m.termOf(s.Get("newval")); !isVal(v) {
			m.bad(s, at, fmt.Sprintf("the new entry has the value %v", v))
		}
		if kv := strings.Split(ss[0], "="); m.termOf(kv[0]) != key || m.termOf(kv[1]) != el {
			m.bad(s, at, fmt.Sprintf("the map leads from %v to %v", m.termOf(kv[0]), m.termOf(kv[1])))
		}
		over := m.neg(s, m.over())
		lim := m.limited(s)
		evict := 0
		switch {
		case lim < 0:
			evict = -1
		case over < 0:
			evict = -1
		case lim > 0 && over > 0:
			evict = 1
		}
		rm := m.items(s, "rm")
		switch {
		case evict == 0 && len(rm) == 0:
			m.bad(s, at, "the table may grow over its limit")
		case evict == 0:
			m.bad(s, at, "an entry is removed although the limit may not be reached")
		case evict < 0 && (len(rm) > 0 || s.Get("del") != ""):
			m.bad(s, at, "an entry is removed although the limit is not reached")
		case evict > 0:
			oldest := map[string]string{"PushFront": "Back", "PushBack": "Front"}[s.Get("end")]
			m.removed(s, at, func(el *Term) bool { return el.Op == "call" && strings.HasPrefix(el.Aux, oldest) }, "the oldest entry")
		}
	default:
		m.bad(s, at, "the key is not looked up")
	}
}

func init() {
	register("C24", "Every method of the bounded table is followed path by path, with the list and the map of the table as abstract objects: what is pushed, removed, entered and deleted is compared with the meaning of the operation, on the assumption that list and map agreed before it, so that they agree after it.", func(c *Ctx) {
		lraLemma(c, "table")
	})
}
