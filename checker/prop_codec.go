package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errType = types.Universe.Lookup("error").Type()

// decoders: pack types the factory offers, and every value type
var readPacks = []string{"AlertPack", "MapPack", "ObjectPack", "ObjectPack2", "PerfCounterK8SPack", "PerfCounterPack", "TextPack"}

// factory tables: tag -> concrete type
var packFactory = map[int64]string{10: "MapPack", 50: "TextPack", 60: "PerfCounterPack", 65: "PerfCounterK8SPack", 70: "AlertPack", 80: "ObjectPack2"}

// readModel turns calls of the input stream's primitives into events; used by C02 and C04.
type readModel struct {
	e       *Engine
	in      *Term
	onRead  func(s *State, k *Call, kind string, val, err *Term)
	inlineP bool // inline the primitives down to binary.Read / io.ReadFull
}

func rdTuple(e *Engine, s *State, k *Call) (val, err, tup *Term) {
	sig := k.Fn.Signature.Results()
	val = e.TT.mk("call", k.Fn.Name()+"@"+k.Site, sig.At(0).Type(), nil)
	err = e.TT.mk("call", "err:"+k.Fn.Name()+"@"+k.Site, errType, nil)
	e.forget(s, val)
	e.forget(s, err)
	tup = e.TT.mk("tuple", "", sig, nil, val, err)
	return
}

// checkReader decides one Read method against the layout its Write side has.
func checkReader(c *Ctx, typ, layout string) {
	fn := c.Need(ndPkg, typ, "Read")
	rule := "read-layout"
	c.Ob(rule, typ)
	if fn == nil {
		return
	}
	e := NewEngine(c.W)
	m := &layoutMon{c: c, e: e, rule: rule, name: typ, root: fn, spec: parseLayout(layout), read: true}
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(t *Term) bool { return isErrType(t.Typ) }
	e.OnBranch = m.branch
	ps := e.Params(fn)
	byID := map[string]*Term{}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		n, ok := methodOn(k.Fn, ndPkg, "DataInputX")
		if !ok {
			return nil, false
		}
		kind, prim := inPrims[n]
		if !prim {
			return nil, false
		}
		val, _, tup := rdTuple(e, s, k)
		if !e.Dry {
			at := c.W.At(k.Instr)
			s.Note("%s: read %s", at, kind)
			if k.Args[0] != ps[1] {
				m.bad(s, at, "read from a stream that is not the record's input")
			}
			pos := atoi(s.Get("pos"))
			m.event(s, at, kind, nil, "")
			id := fmt.Sprint(val.ID)
			byID[id] = val
			if s.Get("in") != "" {
				s.Set("L"+fmt.Sprint(atoi(s.Get("lpos"))-1), id)
				s.Set("used", "")
			} else {
				s.Set("R"+fmt.Sprint(pos), id)
			}
			if kind == "raw" && typ == "Ip4Value" {
				if v, ok := k.Args[1].Int(); !ok || v != 4 {
					m.bad(s, at, "an IPv4 address is four bytes")
				}
			}
		}
		return tup, true
	}
	e.OnMapSet = func(s *State, in ssa.Instruction, mp, k, v *Term) {
		if s.Get("dead") != "" || errKnown(e, s) {
			return
		}
		kt, vt := byID[s.Get("L0")], byID[s.Get("L1")]
		if kt == nil || vt == nil || k.StripConv() != kt || v.StripConv() != vt {
			m.bad(s, c.W.At(in), "the map entry stored is not the key and value just read")
		}
		s.Set("used", "1")
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if vt := byID[s.Get("L0")]; vt != nil && s.Get("in") != "" && val.StripConv() == vt && addr.Op == "indexaddr" {
			s.Set("used", "1")
		}
	}
	hasLoop := false
	for _, it := range m.spec {
		if it.kind == "loop" {
			hasLoop = true
		}
	}
	if hasLoop {
		ob := m.branch
		e.OnBranch = func(s *State, x *ssa.If, cond *Term, taken bool) {
			if !e.Dry && s.Get("dead") == "" && !errKnown(e, s) {
				if kind, _, _ := e.LoopIf(s, x, cond, taken); (kind == "iter" || kind == "done") && s.Get("in") != "" && s.Get("used") == "" {
					m.bad(s, c.W.At(x), "an entry is read but not stored in the container")
				}
			}
			ob(s, x, cond, taken)
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := c.W.At(in)
		m.end(s, at)
		if s.Get("dead") != "" || errKnown(e, s) || retErr(e, s, res) {
			return
		}
		if res[0].Strip() != ps[0] {
			m.bad(s, at, "the decoded object is not the one returned")
		}
		for i, it := range m.spec {
			if it.kind == "loop" || strings.HasPrefix(it.arg, "len(") {
				continue
			}
			v := byID[s.Get("R"+fmt.Sprint(i))]
			found := false
			for _, cl := range s.store {
				if shortT(e.TT.mk("load", "", elemType(cl.addr.Typ), nil, cl.addr)) == it.arg {
					x := cl.val.StripConv()
					if x.Op == "assert" {
						x = x.Args[0]
					}
					found = x == v && losslessInto(cl.val, elemType(cl.addr.Typ))
					if !found && v != nil && typ == "BooleanValue" {
						found = true
					}
				}
			}
			if !found {
				m.bad(s, at, fmt.Sprintf("item %d (%s) is not stored in its field %s", i+1, it.kind, it.arg))
			}
		}
	}
	e.Run(fn, ps, nil, nil)
	c.Use(e, FnName(fn))
}

// losslessInto: no conversion on the way narrows below the destination's own type.
func losslessInto(t *Term, dst types.Type) bool {
	dl, dh, ok := typeRange(dst)
	for t.Op == "conv" || t.Op == "iface" {
		if t.Op == "conv" && ok {
			if l, h, ok2 := typeRange(t.Typ); ok2 && (l > dl || h < dh) && !(h-l >= dh-dl && h-l > 0) {
				return false
			}
		}
		t = t.Args[0]
	}
	return true
}

// retErr: the returned error is certainly non-nil (a fresh error value, or known non-nil).
func retErr(e *Engine, s *State, res []*Term) bool {
	for _, r := range res {
		if r == nil {
			continue
		}
		t := r
		if isErrish(t) || e.NonNil(s, t) && t.Typ != nil && isErrType(t.Typ) {
			return true
		}
	}
	return false
}

// isErrish: errors.New / fmt.Errorf results and package-level error variables.
func isErrish(t *Term) bool {
	if t.Op == "call" && (strings.HasPrefix(t.Aux, "errors.New") || strings.HasPrefix(t.Aux, "fmt.Errorf")) {
		return true
	}
	if t.Op == "load" && t.Args[0].Op == "global" && isErrType(t.Typ) {
		return true // a package-level error variable
	}
	return false
}

// checkFactory: the factory maps every known tag to a fresh object of the type carrying that tag, and any other tag to nil.
func checkFactory(c *Ctx, name, rule string, table map[int64]string) {
	fn := c.Need(ndPkg, "", name)
	if fn == nil {
		return
	}
	for tag := int64(0); tag < 256; tag++ {
		want, known := table[tag]
		cons := fmt.Sprintf("%s(%d)", name, tag)
		if known {
			c.Ob(rule, cons)
		}
		e := NewEngine(c.W)
		p := e.TT.Const(constInt(tag), types.Typ[types.Uint8])
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			r := res[0]
			if !known {
				if !r.IsNil() {
					c.Bad(rule, name+" unknown tag", c.W.At(in), fmt.Sprintf("tag %d belongs to no type but the factory returns %s", tag, r))
				}
				return
			}
			got := "nil"
			if r.Op == "iface" {
				got = strings.TrimPrefix(typeStr(r.Typ), "*common/netdata.")
			}
			if got != want {
				c.Bad(rule, cons, c.W.At(in), fmt.Sprintf("tag %d is decoded with %s, it belongs to %s", tag, got, want))
				return
			}
			// containers must be ready to receive entries
			obj := r.Args[0]
			if obj.Mentions(func(t *Term) bool { return t.Op == "global" }) {
				c.Bad(rule, cons, c.W.At(in), "the decoded "+want+" is one object shared by every decoding")
			}
			st, ok := deref(obj.Typ).Underlying().(*types.Struct)
			if !ok || obj.Op != "alloc" {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if _, isMap := f.Type().Underlying().(*types.Map); isMap {
					fa := e.TT.mk("fieldaddr", f.Name(), types.NewPointer(f.Type()), nil, obj)
					if cl, ok := s.store[fa.ID]; !ok || cl.val.Op != "make" {
						c.Bad(rule, cons, c.W.At(in), "the decoded "+want+" has no entry table to read into")
					}
				}
			}
		}
		e.Run(fn, []*Term{p}, nil, nil)
		c.Use(e, FnName(fn))
	}
}

func init() {
	register("C02", "Each decoder (Read method) is explored abstractly over SSA and its language of wire items, the field each item is stored in and the container entries are compared with the layout table the encoder of the same type is checked against; the value and pack factories are evaluated for all 256 tags.",
		func(c *Ctx) {
			for _, t := range readPacks {
				checkReader(c, t, packLayouts[t])
				checkWriter(c, t, packLayouts[t])
			}
			vt := map[int64]string{}
			for _, t := range sortedKeys(valueLayouts) {
				checkReader(c, t, valueLayouts[t])
				checkWriter(c, t, valueLayouts[t])
				vt[valueTags[t]] = t
				constResult(c, c.Need(ndPkg, t, "GetValueType"), "type-tag", t, valueTags[t])
			}
			for _, t := range readPacks {
				constResult(c, c.Need(ndPkg, t, "GetPackType"), "type-tag", t, packTags[t])
			}
			checkFactory(c, "CreateValue", "value-factory", vt)
			checkFactory(c, "CreatePack", "pack-factory", packFactory)
			// one tag, one layout: a pack type that shares its tag with another is not decodable from what it writes
			byTag := map[int64][]string{}
			for _, t := range readPacks {
				byTag[packTags[t]] = append(byTag[packTags[t]], t)
			}
			for tag, ts := range byTag {
				for _, t := range ts {
					c.Check(packFactory[tag] == t, "pack-roundtrip", t, "scouterx/common/netdata/packcreator.go",
						fmt.Sprintf("a %s is written with tag %d, which is read back as %s", t, tag, packFactory[tag]))
				}
			}
			c.Floor("read-layout", 18)
			c.Floor("value-factory", 11)
			c.Floor("pack-factory", 6)
		})
}
