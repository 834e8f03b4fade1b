package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/crc32"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C34: hashes, ids, addresses and times take the form the collector computes and reads.

// ---- the hash: CRC-32 followed bit by bit. A bit is the exclusive-or of a set of unknown bits: of the running value
// (x), of the byte of this round (b) and of the table entry for the low byte of their exclusive-or (t).

type affine struct {
	x, t uint32
	b    uint8
	one  bool
}

func (a affine) xor(b affine) affine {
	return affine{a.x ^ b.x, a.t ^ b.t, a.b ^ b.b, a.one != b.one}
}

func (a affine) isConst() bool { return a.x == 0 && a.t == 0 && a.b == 0 }

type hashMon struct {
	c      *Ctx
	e      *Engine
	text   *Term
	phi    *Term // the running value
	why    string
	tables map[string]bool
}

func (c *Ctx) least(count string, min int) {
	if c.counts[count] < min {
		c.Bad("floor", count, "-", fmt.Sprintf("%d %s followed, at least %d expected: the check would be vacuous", c.counts[count], count, min))
	}
}

func intWidth(t types.Type) (int, bool, bool) {
	if t == nil {
		return 0, false, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	signed := b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, signed, true
	case types.Int16, types.Uint16:
		return 16, signed, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, signed, true
	}
	return 64, signed, true
}

func (h *hashMon) ofConst(v constant.Value, w int) []affine {
	v = constant.ToInt(v)
	r := make([]affine, w)
	if i, ok := constant.Int64Val(v); ok {
		for k := range r {
			r[k].one = i>>uint(k)&1 == 1
		}
	} else if u, ok := constant.Uint64Val(v); ok {
		for k := range r {
			r[k].one = u>>uint(k)&1 == 1
		}
	}
	return r
}

func (h *hashMon) fail(format string, a ...interface{}) []affine {
	if h.why == "" {
		h.why = fmt.Sprintf(format, a...)
	}
	return nil
}

// isByte: the byte of the text that this round of the loop is at.
func (h *hashMon) isByte(t *Term) bool {
	var x, i *Term
	switch {
	case t.Op == "load" && t.Args[0].Op == "indexaddr":
		x, i = t.Args[0].Args[0], t.Args[0].Args[1]
	case (t.Op == "index" || t.Op == "lookup") && len(t.Args) >= 2:
		x, i = t.Args[0], t.Args[1]
	default:
		return false
	}
	if x.StripConv() != h.text {
		return false
	}
	i = i.Strip()
	off := int64(0)
	if i.Op == "bin" && i.Aux == "+" {
		if v, ok := i.Args[1].Int(); ok {
			off, i = v, i.Args[0].Strip()
		}
	}
	if i.Op != "phi" && i.Op != "loopcell" {
		return false
	}
	init := h.e.loopInit[i.ID]
	if init == nil {
		return false
	}
	v, ok := init.Int()
	return ok && v+off == 0
}

func (h *hashMon) bits(t *Term) []affine {
	w, signed, ok := intWidth(t.Typ)
	if !ok {
		return h.fail("a value that is no integer: %s", t)
	}
	r := make([]affine, w)
	if t.Op == "const" && t.C != nil {
		return h.ofConst(t.C, w)
	}
	if t == h.phi {
		for i := 0; i < w && i < 32; i++ {
			r[i].x = 1 << uint(i)
		}
		return r
	}
	if w == 8 && h.isByte(t) {
		for i := range r {
			r[i].b = 1 << uint(i)
		}
		return r
	}
	switch t.Op {
	case "load":
		ia := t.Args[0]
		if ia.Op != "indexaddr" {
			break
		}
		base := ia.Args[0]
		for base.Op == "load" || base.Op == "slice" {
			base = base.Args[0]
		}
		if base.Op != "global" {
			break
		}
		ix := h.bits(ia.Args[1])
		if ix == nil {
			return nil
		}
		for i, b := range ix {
			want := affine{}
			if i < 8 {
				want = affine{x: 1 << uint(i), b: 1 << uint(i)}
			}
			if b != want {
				return h.fail("the table is not read at the low byte of the running value and the byte of the text: bit %d of %s", i, ia.Args[1])
			}
		}
		h.tables[base.Aux] = true
		for i := 0; i < w && i < 32; i++ {
			r[i].t = 1 << uint(i)
		}
		return r
	case "conv":
		a := h.bits(t.Args[0])
		if a == nil {
			return nil
		}
		_, sg, _ := intWidth(t.Args[0].Typ)
		for i := range r {
			switch {
			case i < len(a):
				r[i] = a[i]
			case sg:
				r[i] = a[len(a)-1]
			}
		}
		return r
	case "un":
		if t.Aux == "^" {
			a := h.bits(t.Args[0])
			if len(a) != w {
				return nil
			}
			for i := range r {
				r[i] = a[i].xor(affine{one: true})
			}
			return r
		}
	case "bin":
		a := h.bits(t.Args[0])
		if a == nil {
			return nil
		}
		if t.Aux == ">>" || t.Aux == "<<" {
			n, ok := t.Args[1].StripConv().Int()
			if !ok || n < 0 || len(a) != w {
				return h.fail("a shift by an unknown number of bits")
			}
			for i := range r {
				j := i + int(n)
				if t.Aux == "<<" {
					j = i - int(n)
				}
				switch {
				case j >= 0 && j < w:
					r[i] = a[j]
				case j >= w && signed:
					r[i] = a[w-1]
				}
			}
			return r
		}
		b := h.bits(t.Args[1])
		if b == nil || len(a) != w || len(b) != w {
			return nil
		}
		if t.Aux == "%" && !signed {
			if v, ok := t.Args[1].Int(); ok && v > 0 && v&(v-1) == 0 {
				for i := range r {
					if int64(1)<<uint(i) < v && i < 62 {
						r[i] = a[i]
					}
				}
				return r
			}
		}
		for i := range r {
			p, q := a[i], b[i]
			switch t.Aux {
			case "^":
				r[i] = p.xor(q)
				continue
			case "&^":
				q = q.xor(affine{one: true})
				fallthrough
			case "&":
				if q.isConst() {
					p, q = q, p
				}
				switch {
				case p.isConst() && p.one || p == q:
					r[i] = q
				case p.isConst():
				default:
					return h.fail("two unknown bits are combined by &: %s", t)
				}
				continue
			case "|":
				if q.isConst() {
					p, q = q, p
				}
				switch {
				case p.isConst() && !p.one || p == q:
					r[i] = q
				case p.isConst():
					r[i].one = true
				default:
					return h.fail("two unknown bits are combined by |: %s", t)
				}
				continue
			}
			return h.fail("an operation that is not followed bit by bit: %s", t)
		}
		return r
	}
	return h.fail("a value that is neither the running value nor a byte of the text, nor read from a table: %s", t)
}

// constTable: the numbers a table of package name holds, provided that nothing writes to it after its initialisation.
func constTable(w *World, name string) (tab []uint64, where string) {
	i := strings.LastIndex(name, ".")
	if i < 0 || w.SSA[rootPkg+"/"+name[:i]] == nil {
		return nil, "it is not a variable of this repository"
	}
	sp := w.SSA[rootPkg+"/"+name[:i]]
	g, ok := sp.Members[name[i+1:]].(*ssa.Global)
	if !ok {
		return nil, "it is not a package variable"
	}
	init := sp.Func("init")
	fill := func(base ssa.Value, in *ssa.Function) bool {
		refs := base.Referrers()
		var all []ssa.Instruction
		if refs != nil {
			all = *refs
		} else {
			for _, b := range in.Blocks {
				all = append(all, b.Instrs...)
			}
		}
		for _, r := range all {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok || ia.X != base {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return false
			}
			for _, r2 := range *ia.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(ia) {
					continue
				}
				cv, ok := st.Val.(*ssa.Const)
				if !ok || cv.Value == nil {
					return false
				}
				n := int(k.Int64())
				for len(tab) <= n {
					tab = append(tab, 0)
				}
				if u, ok := constant.Uint64Val(constant.ToInt(cv.Value)); ok {
					tab[n] = u
				} else if v, ok := constant.Int64Val(constant.ToInt(cv.Value)); ok {
					tab[n] = uint64(v)
				}
			}
		}
		return true
	}
	size := 0
	if ar, ok := deref(g.Type()).Underlying().(*types.Array); ok {
		if !fill(g, init) {
			return nil, "its numbers are not constants"
		}
		size = int(ar.Len())
	}
	sets := 0
	seen := map[*ssa.Function]bool{}
	for _, f := range append([]*ssa.Function{init}, w.Funcs...) {
		if seen[f] {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(g) {
						if f != init {
							return nil, "it is replaced at " + w.At(in)
						}
						sets++
						v := x.Val
						if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL { // *array
							v = u.X
						}
						if sl, ok := v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
							v = sl.X
						}
						al, ok := v.(*ssa.Alloc)
						if !ok || !fill(al, init) {
							return nil, "its numbers are not constants"
						}
						if ar, ok := deref(al.Type()).Underlying().(*types.Array); ok {
							size = int(ar.Len())
						}
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && (f != init || sets == 0 && ia.X != ssa.Value(g)) {
						b := ia.X
						if u, ok := b.(*ssa.UnOp); ok {
							b = u.X
						}
						if b == ssa.Value(g) {
							return nil, "one of its numbers is changed at " + w.At(in)
						}
					}
				}
			}
		}
	}
	if sets > 1 {
		return nil, "it is set more than once"
	}
	for len(tab) < size {
		tab = append(tab, 0)
	}
	return tab, ""
}

func hashForm(c *Ctx) {
	fn := c.Need("common/util", "", "HashString")
	if fn == nil {
		return
	}
	e := NewEngine(c.W)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	h := &hashMon{c: c, e: e, tables: map[string]bool{}}
	ps := e.Params(fn)
	h.text = ps[0]
	name := FnName(fn)
	c.Ob("hash", name)
	whole := e.TT.mk("call", "crc32", types.Typ[types.Uint32], nil, h.text)
	ext := func(f *ssa.Function, n string) bool { return isExt(f, "hash/crc32", n) }
	ieee := func(t *Term) bool {
		return t.Op == "call" && t.Aux == "ieeetable" || t.Op == "load" && t.Args[0].Op == "global" && strings.HasSuffix(t.Args[0].Aux, "IEEETable")
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		isText := func(i int) bool { return len(k.Args) > i && k.Args[i].StripConv() == h.text }
		switch {
		case k.Fn == nil:
			return nil, false
		case ext(k.Fn, "MakeTable"):
			if v, ok := k.Args[0].Int(); ok && uint32(v) == crc32.IEEE {
				return e.TT.mk("call", "ieeetable", k.Fn.Signature.Results().At(0).Type(), nil), true
			}
		case ext(k.Fn, "ChecksumIEEE") && isText(0), ext(k.Fn, "Checksum") && isText(0) && ieee(k.Args[1]):
			return whole, true
		case ext(k.Fn, "Update") && isText(2) && ieee(k.Args[1]):
			if v, ok := k.Args[0].Int(); ok && v == 0 {
				return whole, true
			}
		}
		return nil, false
	}
	type step struct {
		v  *Term
		at string
		tr []string
	}
	inits, backs := map[*Term][]step{}, map[*Term][]step{}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		for p, v := range phis {
			if back {
				backs[p] = append(backs[p], step{v, c.W.FnAt(fn), s.Trace()})
			} else {
				inits[p] = append(inits[p], step{v, c.W.FnAt(fn), s.Trace()})
			}
		}
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		kind, count, _ := e.LoopIf(s, in, cond, taken)
		if kind == "done" && count != nil && count.Op == "len" && count.Args[0].StripConv() == h.text {
			s.Set("done", "1")
		}
	}
	running := map[*Term]bool{}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		at := c.W.At(in)
		bad := func(format string, a ...interface{}) { c.Bad("hash", name, at, fmt.Sprintf(format, a...), s.Trace()...) }
		r := res[0]
		if r.StripConv() == whole {
			c.counts["hash_paths"]++
			return
		}
		if v, ok := r.Int(); ok {
			if e.Eval(s, e.eqInt(e.TT.mk("len", "", types.Typ[types.Int], nil, h.text), 0)) > 0 && v == 0 {
				c.counts["hash_paths"]++
			} else {
				bad("the hash of a text is the constant %d", v)
			}
			return
		}
		var phi *Term
		r.Mentions(func(x *Term) bool {
			if (x.Op == "phi" || x.Op == "loopcell") && phi == nil {
				phi = x
			}
			return false
		})
		if phi == nil {
			bad("the hash is not CRC-32 of the bytes of the text, but %s", r)
			return
		}
		if s.Get("done") == "" {
			bad("the hash is complete before all bytes of the text were taken")
		}
		h.phi, h.why = phi, ""
		bs := h.bits(r)
		if bs == nil || len(bs) < 32 {
			bad("the hash cannot be seen to be CRC-32: %s", h.why)
			return
		}
		for i := 0; i < 32; i++ {
			if bs[i] != (affine{x: 1 << uint(i), one: true}) {
				bad("the hash is not the complement of the running value (bit %d)", i)
				break
			}
		}
		running[phi] = true
		c.counts["hash_paths"]++
	}
	e.Run(fn, ps, nil, nil)
	c.Use(e, name)
	for phi := range running {
		h.phi = phi
		c.counts["hash_rounds"] += len(backs[phi])
		c.least("hash_rounds", 1)
		for _, st := range inits[phi] {
			h.why = ""
			bs := h.bits(st.v)
			for i := 0; i < len(bs); i++ {
				if bs[i] != (affine{one: i < 32}) {
					c.Bad("hash", name, st.at, fmt.Sprintf("the running value does not start with 32 one bits, but as %s", st.v), st.tr...)
					break
				}
			}
			if bs == nil {
				c.Bad("hash", name, st.at, "the running value starts as "+st.v.String(), st.tr...)
			}
		}
		for _, st := range backs[phi] {
			h.why = ""
			bs := h.bits(st.v)
			if bs == nil {
				c.Bad("hash", name, st.at, "a round of the hash cannot be seen to be a CRC-32 step: "+h.why, st.tr...)
				continue
			}
			for i := range bs {
				want := affine{}
				if i < 24 {
					want.x = 1 << uint(i+8)
				}
				if i < 32 {
					want.t = 1 << uint(i)
				}
				if bs[i] != want {
					c.Bad("hash", name, st.at, fmt.Sprintf("after a byte the running value is not its upper three bytes and the table entry (bit %d of %s)", i, st.v), st.tr...)
					break
				}
			}
			c.counts["hash_bits"] += len(bs)
		}
	}
	for t := range h.tables {
		if strings.HasSuffix(t, "IEEETable") {
			continue
		}
		c.Ob("hash table", t)
		tab, why := constTable(c.W, t)
		if why != "" {
			c.Bad("hash table", t, c.W.FnAt(fn), why)
			continue
		}
		for i := 0; i < 256; i++ {
			if i >= len(tab) || uint32(tab[i]) != crc32.IEEETable[i] || tab[i]>>32 != 0 {
				got := "missing"
				if i < len(tab) {
					got = fmt.Sprintf("%#x", tab[i])
				}
				c.Bad("hash table", t, c.W.FnAt(fn), fmt.Sprintf("entry %d is %s, not %#x", i, got, crc32.IEEETable[i]))
				break
			}
		}
		c.counts["table_entries"] += len(tab)
	}
}

// ---- the text of an id

func idForm(c *Ctx) {
	fn := c.Need("common/util", "", "IntToXlogString32")
	if fn == nil {
		return
	}
	e := NewEngine(c.W)
	e.KeepFact = func(*Term) bool { return true }
	name := FnName(fn)
	c.Ob("id", name)
	ps := e.Params(fn)
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		switch {
		case k.Fn == nil:
		case isExt(k.Fn, "strconv", "FormatInt"), isExt(k.Fn, "strconv", "FormatUint"):
			return e.TT.mk("call", "digits", types.Typ[types.String], nil, k.Args...), true
		}
		return nil, false
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		for _, neg := range []bool{true, false} {
			s2 := s.clone()
			if !e.Assume(s2, e.TT.Bin(token.LSS, ps[0], e.intT(0), types.Typ[types.Bool]), neg, "sign") {
				continue
			}
			iv := e.Ival(s2, ps[0])
			if iv != nil && (neg && iv.lo >= 0 || !neg && iv.hi < 0) {
				continue
			}
			want := "x"
			if neg {
				want = "z"
			}
			var parts []*Term
			var flat func(t *Term)
			flat = func(t *Term) {
				if t.Op == "bin" && t.Aux == "+" {
					flat(t.Args[0])
					flat(t.Args[1])
					return
				}
				parts = append(parts, t)
			}
			flat(res[0])
			ok := len(parts) == 2
			if ok {
				p, isS := parts[0].Str()
				d := parts[1]
				ok = isS && p == want && d.Op == "call" && d.Aux == "digits"
				if ok {
					v, isI := d.Args[1].Int()
					n := sameWidth(d.Args[0])
					ok = isI && v == 32
					switch {
					case n.Op == "un" && n.Aux == "-" && sameWidth(n.Args[0]) == ps[0]:
						ok = ok && neg
					case n.Op == "bin" && (n.Aux == "-" || n.Aux == "*"):
						z := toPoly(n, nil).add(toPoly(ps[0], nil), 1)
						ok = ok && neg && z.eq(polyConst(0))
					default:
						ok = ok && n == ps[0] && !neg
					}
				}
			}
			if !ok {
				sign := "an id that is not negative"
				if neg {
					sign = "a negative id"
				}
				c.Bad("id", name, c.W.At(in), fmt.Sprintf("the text of %s is not %q and the magnitude in base 32, but %s", sign, want, res[0]), s.Trace()...)
			}
			c.counts["id_paths"]++
		}
	}
	e.Run(fn, ps, nil, nil)
	c.Use(e, name)
	c.least("id_paths", 2)

	next := c.Need(kgPkg, "", "Next")
	if next == nil {
		return
	}
	e = NewEngine(c.W)
	e.KeepFact = func(*Term) bool { return true }
	name2 := FnName(next)
	c.Ob("id", name2)
	isRand := func(t *Term) bool { return t.Op == "call" && strings.HasPrefix(t.Aux, "rand ") }
	e.TermIval = func(t *Term) *ival {
		if isRand(t) && !strings.HasPrefix(t.Aux, "rand Uint") {
			if _, hi, ok := typeRange(t.Typ); ok {
				return &ival{lo: 0, hi: hi}
			}
		}
		return nil
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if k.Fn == nil || k.Fn.Pkg == nil {
			return nil, false
		}
		if p := k.Fn.Pkg.Pkg.Path(); p == "math/rand" || p == "math/rand/v2" {
			switch n := k.Fn.Name(); n {
			case "Int63", "Int63n", "Int64", "Int64N", "Int31", "Int31n", "Int", "Intn", "IntN", "Uint64", "Uint32":
				return e.TT.mk("call", "rand "+n+"@"+k.Site, k.Fn.Signature.Results().At(0).Type(), nil), true
			}
		}
		return nil, false
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		c.counts["new_ids"]++
		if !res[0].Mentions(isRand) {
			c.Bad("id", name2, c.W.At(in), "a new id is not drawn at random, but "+res[0].String(), s.Trace()...)
			return
		}
		if iv := e.Ival(s, res[0]); (iv == nil || iv.lo < 0 || strings.HasPrefix(sameWidth(res[0]).Aux, "rand Uint64")) && !maskedPositive(res[0]) {
			c.Bad("id", name2, c.W.At(in), "a new id can be negative: "+res[0].String(), s.Trace()...)
		}
	}
	e.Run(next, e.Params(next), nil, nil)
	c.Use(e, name2)
	c.least("new_ids", 1)
}

// sameWidth: the value without conversions between integers of the same size.
func sameWidth(t *Term) *Term {
	for t.Op == "conv" {
		from, _, ok := intWidth(t.Args[0].Typ)
		to, _, ok2 := intWidth(t.Typ)
		if !ok || !ok2 || from != to {
			break
		}
		t = t.Args[0]
	}
	return t
}

// maskedPositive: the topmost bit is cleared by a mask or by a shift of an unsigned number.
func maskedPositive(t *Term) bool {
	for t.Op == "conv" {
		from, _, ok := intWidth(t.Args[0].Typ)
		to, _, _ := intWidth(t.Typ)
		if !ok || from != to {
			return false
		}
		t = t.Args[0]
	}
	if t.Op != "bin" {
		return false
	}
	switch t.Aux {
	case "&":
		for _, a := range t.Args {
			if v, ok := a.Int(); ok && v >= 0 {
				return true
			}
		}
	case ">>":
		_, signed, _ := intWidth(t.Typ)
		v, ok := t.Args[1].StripConv().Int()
		return ok && v > 0 && !signed
	}
	return false
}

// ---- the bytes of an address

type addrMon struct {
	c           *Ctx
	e           *Engine
	name        string
	text, split *Term
}

func (m *addrMon) bad(s *State, in ssa.Instruction, msg string) {
	if !m.e.Dry {
		m.c.Bad("address", m.name, m.c.W.At(in), msg, s.Trace()...)
	}
}

func bufOf(t *Term) *Term {
	for t.Op == "slice" || t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// number: v is the number one part of the text spells, 0 to 255, the text being well-formed; the part's index.
func (m *addrMon) number(s *State, v *Term) (*Term, string) {
	n := v.StripConv()
	if n.Op != "call" || n.Aux != "num" {
		return nil, "a byte of the address is not the number of a part of the text: " + v.String()
	}
	part := n.Args[0]
	if part.Op != "load" || part.Args[0].Op != "indexaddr" || part.Args[0].Args[0] != m.split {
		return nil, "what is read as a number is not a part of the text between dots: " + part.String()
	}
	if !m.e.IsNil(s, m.e.TT.mk("call", "numerr", types.Universe.Lookup("error").Type(), nil, n.Args...)) {
		return nil, "a part that is not a number is taken"
	}
	if iv := m.e.Ival(s, n); iv == nil || iv.lo < 0 || iv.hi > 255 {
		return nil, "a part above 255 or below 0 is cut to a byte"
	}
	return part.Args[0].Args[1], ""
}

// element: i counts the rounds of a loop from 0.
func (m *addrMon) element(i *Term) bool {
	i = i.Strip()
	off := int64(0)
	if i.Op == "bin" && i.Aux == "+" {
		if v, ok := i.Args[1].Int(); ok {
			off, i = v, i.Args[0].Strip()
		}
	}
	if i.Op != "phi" && i.Op != "loopcell" || m.e.loopInit[i.ID] == nil {
		return false
	}
	v, ok := m.e.loopInit[i.ID].Int()
	return ok && v+off == 0
}

func addrForm(c *Ctx) {
	fn := c.Need("common/util", "", "IpToBytes")
	if fn == nil {
		return
	}
	e := NewEngine(c.W)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	name := FnName(fn)
	c.Ob("address", name)
	ps := e.Params(fn)
	str, errT := types.Typ[types.String], types.Universe.Lookup("error").Type()
	e.PeelInit = true
	m := &addrMon{c: c, e: e, name: name, text: ps[0]}
	m.split = e.TT.mk("call", "split", types.NewSlice(str), nil, ps[0])
	parts := e.TT.mk("len", "", types.Typ[types.Int], nil, m.split)
	whole := e.TT.mk("call", "ip4", types.NewSlice(types.Typ[types.Byte]), nil, ps[0])
	e.TermIval = func(t *Term) *ival {
		if t.Op == "call" && t.Aux == "num" && len(t.Args) == 2 {
			if n, ok := t.Args[1].Int(); ok && n > 0 && n < 63 {
				return &ival{lo: 0, hi: 1<<uint(n) - 1}
			}
		}
		if t == parts {
			return &ival{lo: 1, hi: 1 << 40}
		}
		return nil
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if k.Fn == nil {
			return nil, false
		}
		isDot := func(t *Term) bool { v, ok := t.Str(); return ok && v == "." }
		num := func(kind *Term, dec bool) (*Term, bool) {
			args := []*Term{k.Args[0]}
			if kind != nil {
				args = append(args, kind)
			}
			if !dec {
				return nil, false
			}
			ty := k.Fn.Signature.Results().At(0).Type()
			n := e.TT.mk("call", "num", ty, nil, args...)
			er := e.TT.mk("call", "numerr", errT, nil, args...)
			if s.Get("num") != fmt.Sprint(n.ID) { // a new part
				e.forget(s, n)
				e.forget(s, er)
			}
			s.Set("num", fmt.Sprint(n.ID))
			s.Set("numerr", fmt.Sprint(er.ID))
			return e.TT.mk("tuple", "", nil, nil, n, er), true
		}
		switch {
		case isExt(k.Fn, "strings", "Split") && k.Args[0] == m.text && isDot(k.Args[1]):
			return m.split, true
		case isExt(k.Fn, "strings", "SplitN") && k.Args[0] == m.text && isDot(k.Args[1]):
			if n, ok := k.Args[2].Int(); ok && (n < 0 || n > 4) {
				return m.split, true
			}
		case isExt(k.Fn, "strings", "Count") && k.Args[0] == m.text && isDot(k.Args[1]):
			return e.TT.Bin(token.SUB, parts, e.intT(1), types.Typ[types.Int]), true
		case isExt(k.Fn, "strconv", "ParseUint"):
			b, _ := k.Args[1].Int()
			return num(k.Args[2], b == 10)
		case isExt(k.Fn, "strconv", "ParseInt"):
			b, _ := k.Args[1].Int()
			return num(nil, b == 10)
		case isExt(k.Fn, "strconv", "Atoi"):
			return num(nil, true)
		case isExt(k.Fn, "net", "ParseIP") && k.Args[0] == m.text:
			return whole, true
		case isExtMethod(k.Fn, "net", "IP", "To4") && k.Args[0].StripConv() == whole:
			return whole, true
		}
		return nil, false
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if addr.Op != "indexaddr" || e.Dry {
			return
		}
		if w, _, ok := intWidth(val.Typ); !ok || w != 8 {
			return
		}
		if bufOf(addr.Args[0]).Op == "global" || bufOf(addr.Args[0]).Op == "load" && bufOf(addr.Args[0]).Args[0].Op == "global" {
			m.bad(s, in, "the shared bytes of the empty address are changed")
			return
		}
		if v, ok := val.Int(); ok && v == 0 {
			return
		}
		buf := fmt.Sprint(bufOf(addr.Args[0]).ID)
		i, why := m.number(s, val)
		if why != "" {
			m.bad(s, in, why)
			return
		}
		one := false // the array append is given its one element in
		if ar, ok := deref(bufOf(addr.Args[0]).Typ).Underlying().(*types.Array); ok && ar.Len() == 1 {
			one = true
		}
		if !one && i.StripConv() != addr.Args[1].StripConv() {
			m.bad(s, in, fmt.Sprintf("part %s of the text becomes byte %s of the address", i, addr.Args[1]))
			return
		}
		s.Set("buf", buf)
		if k, ok := i.Int(); ok {
			s.Set(fmt.Sprintf("part %d", k), "1")
		} else if m.element(i) {
			s.Set("kept", "1")
		} else {
			m.bad(s, in, "the parts are not taken one after the other")
		}
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		kind, count, _ := e.LoopIf(s, in, cond, taken)
		if count == nil {
			return
		}
		if v, ok := count.Int(); count != parts && (!ok || v != 4) {
			if ok && v < 4 && kind == "done" && s.Get("loop") != "" {
				m.bad(s, in, fmt.Sprintf("only %d parts are taken", v))
			}
			return
		}
		switch kind {
		case "iter":
			s.Set("in", "1")
			s.Set("kept", "")
		case "done":
			s.Set("in", "")
			s.Set("done", "1")
		}
	}
	grown := map[*Term]bool{}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if e.Dry {
			return
		}
		if back && s.Get("in") != "" {
			for p, v := range phis { // a slice that grows by one byte a round
				if v.Op == "append" && len(v.Args) >= 2 && v.Args[0] == p {
					one := v.Args[1]
					if one.Op == "slice" && one.Args[0].Op == "alloc" {
						if s.Get("kept") != "" && s.Get("buf") == fmt.Sprint(one.Args[0].ID) {
							grown[p] = true
						}
						continue
					}
					if i, why := m.number(s, one); why == "" && m.element(i) {
						grown[p] = true
						s.Set("kept", "1")
					}
				}
			}
			if s.Get("kept") == "" {
				c.Bad("address", name, c.W.FnAt(fn), "a part of the text is left out", s.Trace()...)
			}
		}
		s.Set("in", "")
		s.Set("kept", "")
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		r := res[0]
		four := e.eqInt(parts, 4)
		c.counts["address_paths"]++
		if r.StripConv() == whole {
			return
		}
		buf := bufOf(r)
		all := true
		for i := 0; i < 4; i++ {
			all = all && s.Get(fmt.Sprintf("part %d", i)) != ""
		}
		switch {
		case s.Get("buf") == fmt.Sprint(buf.ID) && buf.Op != "phi" || grown[buf]:
			switch {
			case s.Get("done") == "" && !all:
				m.bad(s, in, "an address is returned before all its parts were taken")
			case e.Eval(s, four) <= 0:
				m.bad(s, in, "a text is taken for an address although it need not have four parts")
			case !grown[buf] && !fourLong(r):
				m.bad(s, in, "the address is not four bytes: "+r.String())
			}
			c.counts["addresses"]++
		default:
			zero := fourLong(r)
			if r.Op == "load" && r.Args[0].Op == "global" {
				tab, why := constTable(c.W, r.Args[0].Aux)
				zero = why == "" && len(tab) == 4 && tab[0]|tab[1]|tab[2]|tab[3] == 0
			}
			if !zero {
				m.bad(s, in, "what is returned for a text that is no address is not four zero bytes: "+r.String())
				break
			}
			reason := e.Eval(s, four) < 0 || e.Eval(s, e.eqInt(e.TT.mk("len", "", types.Typ[types.Int], nil, m.text), 0)) > 0
			if id := s.Get("num"); id != "" {
				n := e.TT.list[atoi(id)]
				er := e.TT.list[atoi(s.Get("numerr"))]
				iv := e.Ival(s, n)
				reason = reason || e.NonNil(s, er) || iv != nil && (iv.hi < 0 || iv.lo > 255)
			}
			if e.Eval(s, e.TT.Bin(token.EQL, whole, e.TT.mk("nil", "", nil, nil), types.Typ[types.Bool])) > 0 {
				reason = true
			}
			if !reason {
				m.bad(s, in, "an address is refused that may be well-formed")
			}
			c.counts["refusals"]++
		}
	}
	e.Run(fn, ps, nil, nil)
	c.Use(e, name)
	c.least("address_paths", 2)
}

// fourLong: a slice made here with four elements.
func fourLong(r *Term) bool {
	switch r.Op {
	case "make":
		v, ok := r.Args[0].Int()
		return ok && v == 4
	case "slice":
		if r.Args[1].Op != "none" {
			if v, ok := r.Args[1].Int(); !ok || v != 0 {
				return false
			}
		}
		if r.Args[2].Op != "none" {
			v, ok := r.Args[2].Int()
			return ok && v == 4 && (r.Args[0].Op == "alloc" || r.Args[0].Op == "make")
		}
		if r.Args[0].Op == "alloc" {
			ar, ok := deref(r.Args[0].Typ).Underlying().(*types.Array)
			return ok && ar.Len() == 4
		}
		return fourLong(r.Args[0])
	}
	return false
}

// ---- milliseconds

func millisForm(c *Ctx) {
	for _, want := range []struct{ name, of string }{
		{"TimeToMillis", "since 1970"}, {"MillisBetween", "from the first time to the second"}, {"MillisToNow", "from the time to now"},
	} {
		fn := c.W.Fn("common/util", "", want.name)
		if fn == nil {
			if want.name != "MillisBetween" { // nothing uses it
				c.Need("common/util", "", want.name)
			}
			continue
		}
		e := NewEngine(c.W)
		name := FnName(fn)
		c.Ob("milliseconds", name)
		ps := e.Params(fn)
		i64 := types.Typ[types.Int64]
		now := e.TT.mk("call", "now", nil, nil)
		sub := func(a, b *Term) *Term { return e.TT.mk("call", "nanos", i64, nil, a, b) }
		div := func(t *Term) *Term { return e.TT.Bin(token.QUO, t, e.TT.Const(constant.MakeInt64(1000000), i64), i64) }
		unix := e.TT.mk("call", "epoch", nil, nil)
		e.OnCall = func(s *State, k *Call) (*Term, bool) {
			f := k.Fn
			switch {
			case f == nil:
			case isExt(f, "time", "Now"):
				return now, true
			case isExt(f, "time", "Since"):
				return sub(now, k.Args[0]), true
			case isExt(f, "time", "Until"):
				return sub(k.Args[0], now), true
			case isExtMethod(f, "time", "Time", "Sub"):
				return sub(k.Args[0], k.Args[1]), true
			case isExtMethod(f, "time", "Duration", "Milliseconds"):
				return div(k.Args[0]), true
			case isExtMethod(f, "time", "Duration", "Nanoseconds"):
				return k.Args[0], true
			case isExtMethod(f, "time", "Time", "UnixNano"):
				return sub(k.Args[0], unix), true
			case isExtMethod(f, "time", "Time", "UnixMilli"):
				return div(sub(k.Args[0], unix)), true
			case isExtMethod(f, "time", "Time", "Truncate"), isExtMethod(f, "time", "Duration", "Truncate"):
				if v, ok := k.Args[1].Int(); ok && v == 1000000 && f.Signature.Recv() != nil && isNamedT(f.Signature.Recv().Type(), "time", "Duration") {
					return k.Args[0], true
				}
			}
			return nil, false
		}
		wide := func(t *Term) *Term {
			for t.Op == "conv" {
				if w, _, ok := intWidth(t.Typ); !ok || w != 64 {
					break
				}
				t = t.Args[0]
			}
			return t
		}
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			if e.Dry {
				return
			}
			c.counts["time_paths"]++
			r := res[0].Strip()
			if r.Op == "conv" {
				if w, _, ok := intWidth(r.Typ); ok && w >= 32 {
					r = wide(r.Args[0])
				}
			}
			r = wide(r)
			ok := false
			if r.Op == "bin" && r.Aux == "/" {
				v, isC := r.Args[1].Int()
				d := wide(r.Args[0])
				a, b := ps[0], unix
				switch want.name {
				case "MillisBetween":
					a, b = ps[1], ps[0]
				case "MillisToNow":
					a, b = now, ps[0]
				}
				ok = isC && v == 1000000 && d == sub(a, b)
			}
			if !ok {
				c.Bad("milliseconds", name, c.W.At(in), fmt.Sprintf("what is returned is not the whole milliseconds %s, but %s", want.of, res[0]), s.Trace()...)
			}
		}
		e.Run(fn, ps, nil, nil)
		c.Use(e, name)
	}
	c.least("time_paths", 2)
}

func init() {
	register("C34", "The hash is followed bit by bit (each bit an exclusive-or of unknown bits of the running value, the byte and the table entry) and must make the CRC-32 step in every round, over all bytes; the 256 numbers of its table are read from the program. Every path through the functions that write an id, take an address apart and count milliseconds must return the value the collector's own functions compute.", func(c *Ctx) {
		hashForm(c)
		idForm(c)
		addrForm(c)
		millisForm(c)
	})
}
