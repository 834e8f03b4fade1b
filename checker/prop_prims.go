package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pev struct {
	kind string // w1 w2 w4 w8 f4 f8 raw
	t    *Term
	typ  types.Type
}

type primRun struct {
	c    *Ctx
	e    *Engine
	fn   *ssa.Function
	name string
	rule string
	byID map[string]pev
	ps   []*Term
}

func widthOf(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "?"
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return "w1"
	case types.Int16, types.Uint16:
		return "w2"
	case types.Int32, types.Uint32:
		return "w4"
	case types.Int64, types.Uint64:
		return "w8"
	case types.Float32:
		return "f4"
	case types.Float64:
		return "f8"
	case types.Bool:
		return "w1b"
	}
	return "?"
}

func (p *primRun) add(s *State, at string, ev pev) {
	n := atoi(s.Get("n"))
	if n >= 8 {
		p.bad(s, at, "more wire items than any encoding of one value has")
		s.Set("!prune", "1")
		return
	}
	id := fmt.Sprintf("%s:%d:%s", ev.kind, ev.t.ID, typeStr(ev.typ))
	p.byID[id] = ev
	s.Set(fmt.Sprintf("e%d", n), id)
	s.Set("n", fmt.Sprint(n+1))
	s.Note("%s: %s %s", at, ev.kind, ev.t)
}

func (p *primRun) events(s *State) []pev {
	var r []pev
	for i := 0; i < atoi(s.Get("n")); i++ {
		r = append(r, p.byID[s.Get(fmt.Sprintf("e%d", i))])
	}
	return r
}

func (p *primRun) bad(s *State, at, msg string) { p.c.Bad(p.rule, p.name, at, msg, s.Trace()...) }

func isBigEndian(t *Term) bool {
	return t.Mentions(func(x *Term) bool { return x.Op == "global" && strings.HasSuffix(x.Aux, "encoding/binary.BigEndian") })
}

func newPrim(c *Ctx, recv, name, rule string) *primRun {
	fn := c.Need(ndPkg, recv, name)
	c.Ob(rule, name)
	if fn == nil {
		return nil
	}
	e := NewEngine(c.W)
	p := &primRun{c: c, e: e, fn: fn, name: name, rule: rule, byID: map[string]pev{}, ps: e.Params(fn)}
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(t *Term) bool { return true }
	isStream := func(t *Term, f string) bool {
		t = t.Strip()
		return t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == f && t.Args[0].Args[0] == p.ps[0]
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		at := ""
		if !e.Dry {
			at = c.W.At(k.Instr)
		}
		mkErr := func() *Term {
			t := e.TT.mk("call", "err@"+k.Site, errType, nil)
			e.forget(s, t)
			return t
		}
		if k.Fn != nil && k.Fn.Pkg != nil && k.Fn.Pkg.Pkg.Path() == "encoding/binary" && k.Fn.Signature.Recv() != nil {
			w, put := map[string]string{"PutUint16": "w2", "PutUint32": "w4", "PutUint64": "w8"}[k.Fn.Name()]
			r, get := map[string]string{"Uint16": "w2", "Uint32": "w4", "Uint64": "w8"}[k.Fn.Name()]
			switch {
			case put || get:
				if !strings.Contains(k.Fn.Signature.Recv().Type().String(), "bigEndian") && !e.Dry {
					p.bad(s, at, "not in big-endian order")
				}
				args := k.Args
				if len(args) == 0 {
					break
				}
				buf := args[len(args)-1]
				if put {
					buf = args[len(args)-2]
				}
				if buf.Op != "slice" || buf.Args[0].Op != "alloc" || e.Dry {
					break
				}
				if put {
					id := fmt.Sprintf("%s:%d:put", w, args[len(args)-1].ID)
					p.byID[id] = pev{w, args[len(args)-1], args[len(args)-1].Typ}
					s.Set(fmt.Sprintf("buf%d", buf.Args[0].ID), id)
					return nil, true
				}
				for i := 0; i < atoi(s.Get("n")); i++ {
					ev := p.byID[s.Get(fmt.Sprintf("e%d", i))]
					if ev.kind == "raw" && ev.t == buf && bufWidth(buf) == r {
						v := e.TT.mk("call", "in@"+k.Site, k.Fn.Signature.Results().At(0).Type(), nil)
						e.forget(s, v)
						id := fmt.Sprintf("%s:%d:%s", r, v.ID, typeStr(v.Typ))
						p.byID[id] = pev{r, v, v.Typ}
						s.Set(fmt.Sprintf("e%d", i), id)
						return v, true
					}
				}
			}
		}
		switch {
		case isExt(k.Fn, "encoding/binary", "Write"):
			if !e.Dry {
				d := k.Args[2]
				if d.Op != "iface" {
					p.bad(s, at, "cannot see the type of the value written")
					return mkErr(), true
				}
				if !isBigEndian(k.Args[1]) {
					p.bad(s, at, "not written in big-endian order")
				}
				if !isStream(k.Args[0], "writer") {
					p.bad(s, at, "not written to the record's stream")
				}
				p.add(s, at, pev{widthOf(d.Typ), d.Args[0], d.Typ})
			}
			return mkErr(), true
		case isExt(k.Fn, "encoding/binary", "Read"):
			d := k.Args[2]
			if d.Op != "iface" {
				if !e.Dry {
					p.bad(s, at, "cannot see the type of the value read")
				}
				return mkErr(), true
			}
			v := e.TT.mk("call", "in@"+k.Site, deref(d.Typ), nil)
			e.forget(s, v)
			e.doStore(s, d.Args[0], v, k.Site)
			if !e.Dry {
				if !isBigEndian(k.Args[1]) {
					p.bad(s, at, "not read in big-endian order")
				}
				if !isStream(k.Args[0], "reader") {
					p.bad(s, at, "not read from the record's stream")
				}
				p.add(s, at, pev{widthOf(deref(d.Typ)), v, deref(d.Typ)})
			}
			return mkErr(), true
		case isExt(k.Fn, "io", "ReadFull"):
			if !e.Dry {
				if !isStream(k.Args[0], "reader") {
					p.bad(s, at, "not read from the record's stream")
				}
				p.add(s, at, pev{"raw", k.Args[1], k.Args[1].Typ})
			}
			n := e.TT.mk("fresh", "n@"+k.Site, types.Typ[types.Int], nil)
			return e.TT.mk("tuple", "", nil, nil, n, mkErr()), true
		case k.Method != nil && k.Method.Name() == "Write" && isStream(k.Recv, "writer"):
			if !e.Dry {
				ev := pev{"raw", k.Args[0], k.Args[0].Typ}
				if b := k.Args[0]; b.Op == "slice" && b.Args[0].Op == "alloc" {
					if x, ok := p.byID[s.Get(fmt.Sprintf("buf%d", b.Args[0].ID))]; ok && bufWidth(b) == x.kind {
						ev = x
					}
				}
				p.add(s, at, ev)
			}
			n := e.TT.mk("fresh", "n@"+k.Site, types.Typ[types.Int], nil)
			return e.TT.mk("tuple", "", nil, nil, n, mkErr()), true
		case k.Method != nil && k.Method.Name() == "Read" && isStream(k.Recv, "reader"):
			if !e.Dry {
				p.add(s, at, pev{"rawpartial", k.Args[0], k.Args[0].Typ})
			}
			n := e.TT.mk("fresh", "n@"+k.Site, types.Typ[types.Int], nil)
			return e.TT.mk("tuple", "", nil, nil, n, mkErr()), true
		}
		return nil, false
	}
	return p
}

func (p *primRun) run(check func(s *State, at string, ev []pev, res []*Term)) {
	p.e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if errKnown(p.e, s) {
			if n := p.fn.Signature.Params().Len(); n == 0 || p.fn.Name() == "Read" {
				if r := res[len(res)-1]; isErrType(p.fn.Signature.Results().At(len(res)-1).Type()) && p.e.IsNil(s, r) {
					p.bad(s, p.c.W.At(in), "a read that failed is reported as a success")
				}
			}
			return
		}
		check(s, p.c.W.At(in), p.events(s), res)
	}
	p.e.Run(p.fn, p.ps, nil, nil)
	p.c.Use(p.e, FnName(p.fn))
}

func evStr(ev []pev) string {
	var r []string
	for _, e := range ev {
		r = append(r, e.kind+" "+e.t.String())
	}
	if len(r) == 0 {
		return "nothing"
	}
	return strings.Join(r, ", ")
}

var signedRange = map[string][2]int64{"w1": {math.MinInt8, math.MaxInt8}, "w2": {math.MinInt16, math.MaxInt16}, "w4": {math.MinInt32, math.MaxInt32}, "w8": {math.MinInt64, math.MaxInt64}}
var tagWidth = map[int64]string{1: "w1", 2: "w2", 4: "w4", 8: "w8"}

func (p *primRun) decimalOK(s *State, ev []pev, v *Term) string {
	iv := p.e.Ival(s, v)
	if len(ev) == 0 {
		return "nothing is written"
	}
	tag, ok := ev[0].t.Int()
	if !ok || ev[0].kind != "w1" {
		return "the first byte is not a constant length tag"
	}
	if tag == 0 {
		if len(ev) != 1 || iv.lo != 0 || iv.hi != 0 {
			return fmt.Sprintf("the zero form is used for values in [%d,%d]", iv.lo, iv.hi)
		}
		return ""
	}
	w, ok := tagWidth[tag]
	if !ok {
		return fmt.Sprintf("length tag %d is not part of the encoding", tag)
	}
	if len(ev) != 2 || ev[1].kind != w {
		return fmt.Sprintf("length tag %d is followed by %s", tag, evStr(ev[1:]))
	}
	if ev[1].t.StripConv() != v {
		return "the bytes written are not the value's"
	}
	r := signedRange[w]
	if iv.lo < r[0] || iv.hi > r[1] {
		return fmt.Sprintf("the %d-byte form is used for values in [%d,%d], which do not all fit", tag, iv.lo, iv.hi)
	}
	return ""
}

func (p *primRun) blobOK(s *State, ev []pev, v *Term, max int64) string {
	ln := p.e.TT.mk("len", "", types.Typ[types.Int], nil, v)
	iv := *p.e.Ival(s, ln)
	if iv.hi > max {
		iv.hi = max
	}
	isLen := func(t *Term) bool { return t.StripConv() == ln }
	isVal := func(t *Term) bool { return t.StripConv() == v }
	if len(ev) == 0 || ev[0].kind != "w1" {
		return "no length prefix is written"
	}
	if c, ok := ev[0].t.Int(); ok {
		switch c {
		case 0:
			if iv.lo != 0 || iv.hi != 0 {
				return fmt.Sprintf("the empty form is used for lengths in [%d,%d]", iv.lo, iv.hi)
			}
			if len(ev) > 1 && !(len(ev) == 2 && ev[1].kind == "raw" && isVal(ev[1].t)) {
				return "the empty form is followed by " + evStr(ev[1:])
			}
			return ""
		case 255, -1:
			if len(ev) != 3 || ev[1].kind != "w2" || !isLen(ev[1].t) || ev[2].kind != "raw" || !isVal(ev[2].t) {
				return "marker 255 must be followed by the 16-bit length and the bytes, not " + evStr(ev[1:])
			}
			if iv.hi > 65535 {
				return fmt.Sprintf("the 16-bit length form is used for lengths up to %d", iv.hi)
			}
			return ""
		case 254, -2:
			if len(ev) != 3 || ev[1].kind != "w4" || !isLen(ev[1].t) || ev[2].kind != "raw" || !isVal(ev[2].t) {
				return "marker 254 must be followed by the 32-bit length and the bytes, not " + evStr(ev[1:])
			}
			return ""
		default:
			if iv.lo == c && iv.hi == c && len(ev) == 2 && ev[1].kind == "raw" && isVal(ev[1].t) && c > 0 && c < 254 {
				return ""
			}
		}
		return fmt.Sprintf("marker %d does not belong to the encoding", c)
	}
	if !isLen(ev[0].t) || len(ev) != 2 || ev[1].kind != "raw" || !isVal(ev[1].t) {
		return "the short form must be the length and the bytes, not " + evStr(ev)
	}
	if iv.hi > 253 {
		return fmt.Sprintf("the one-byte length form is used for lengths up to %d; 254 and 255 are markers", iv.hi)
	}
	return ""
}

func init() {
	register("C03", "Each primitive encoder/decoder of the wire streams is explored abstractly down to the raw byte operations with interval facts on the encoded value and length; each path's items must form one of the encodings the peer operation understands, for the interval of values that reaches that path.",
		func(c *Ctx) {
			wfix := map[string]string{"WriteInt8": "w1", "WriteUInt8": "w1", "WriteInt16": "w2", "WriteInt32": "w4", "WriteInt64": "w8", "WriteUInt64": "w8", "WriteFloat32": "f4", "WriteFloat64": "f8", "Write": "raw"}
			for _, n := range sortedKeys(wfix) {
				if p := newPrim(c, "DataOutputX", n, "fixed-write"); p != nil {
					p.run(func(s *State, at string, ev []pev, res []*Term) {
						if len(ev) != 1 || ev[0].kind != wfix[n] || ev[0].t != p.ps[1] && (ev[0].t.Op != "conv" || ev[0].t.Args[0] != p.ps[1] || strings.HasPrefix(ev[0].kind, "f")) {
							p.bad(s, at, fmt.Sprintf("writes %s, must write its argument once as %s", evStr(ev), wfix[n]))
						}
					})
				}
			}
			for _, n := range []string{"WriteDecimal", "WriteDecimal32"} {
				if p := newPrim(c, "DataOutputX", n, "decimal-write"); p != nil {
					p.run(func(s *State, at string, ev []pev, res []*Term) {
						if m := p.decimalOK(s, ev, p.ps[1]); m != "" {
							p.bad(s, at, m)
						}
					})
				}
			}
			if p := newPrim(c, "DataOutputX", "WriteBoolean", "bool-write"); p != nil {
				p.run(func(s *State, at string, ev []pev, res []*Term) {
					v := int64(-1)
					if len(ev) == 1 && ev[0].kind == "w1" {
						if x, ok := ev[0].t.Int(); ok {
							v = x
						}
					}
					tr := p.e.Eval(s, p.ps[1])
					if v < 0 || v > 1 || tr == 0 || (v == 1) != (tr == 1) {
						p.bad(s, at, fmt.Sprintf("writes %s for a value that is %d", evStr(ev), tr))
					}
				})
			}
			if p := newPrim(c, "DataOutputX", "WriteBlob", "blob-write"); p != nil {
				p.run(func(s *State, at string, ev []pev, res []*Term) {
					if m := p.blobOK(s, ev, p.ps[1], math.MaxInt32); m != "" {
						p.bad(s, at, m)
					}
				})
			}
			if p := newPrim(c, "DataOutputX", "WriteString", "text-write"); p != nil {
				p.run(func(s *State, at string, ev []pev, res []*Term) {
					ln := p.e.TT.mk("len", "", types.Typ[types.Int], nil, p.ps[1])
					iv := p.e.Ival(s, ln)
					// beyond 100000 bytes a constant placeholder may stand for the text
					if iv.lo > 100000 && len(ev) >= 1 {
						last := ev[len(ev)-1]
						if last.t.StripConv().IsConst() && len(ev) == 2 {
							if str, ok := last.t.StripConv().Str(); ok {
								if n, ok := ev[0].t.StripConv().Int(); ok && n == int64(len(str)) && n <= 253 && n > 0 {
									return
								}
							}
						}
					}
					if m := p.blobOK(s, ev, p.ps[1], math.MaxInt32); m != "" {
						p.bad(s, at, m)
					}
				})
			}
			if p := newPrim(c, "DataOutputX", "WriteIntBytes", "intbytes-write"); p != nil {
				p.run(func(s *State, at string, ev []pev, res []*Term) {
					ln := p.e.TT.mk("len", "", types.Typ[types.Int], nil, p.ps[1])
					if len(ev) == 2 && ev[0].kind == "w4" && ev[0].t.StripConv() == ln && ev[1].kind == "raw" && ev[1].t == p.ps[1] {
						return
					}
					if iv := p.e.Ival(s, ln); len(ev) == 1 && ev[0].kind == "w4" && iv.hi == 0 {
						return
					}
					p.bad(s, at, "writes "+evStr(ev)+", must write the 32-bit length and the bytes")
				})
			}
			rfix := map[string]string{"ReadInt8": "w1", "ReadUInt8": "w1", "ReadInt16": "w2", "ReadInt32": "w4", "ReadInt64": "w8", "ReadFloat32": "f4", "ReadFloat64": "f8"}
			for _, n := range sortedKeys(rfix) {
				if p := newPrim(c, "DataInputX", n, "fixed-read"); p != nil {
					p.run(func(s *State, at string, ev []pev, res []*Term) {
						if len(ev) != 1 || ev[0].kind != rfix[n] || res[0].Strip() != ev[0].t && res[0].StripConv() != ev[0].t {
							p.bad(s, at, fmt.Sprintf("reads %s and returns %s, must return one item %s", evStr(ev), res[0], rfix[n]))
						}
					})
				}
			}
			if p := newPrim(c, "DataInputX", "ReadBoolean", "bool-read"); p != nil {
				p.run(func(s *State, at string, ev []pev, res []*Term) {
					if len(ev) != 1 || ev[0].kind != "w1" {
						p.bad(s, at, "reads "+evStr(ev))
						return
					}
					iv := p.e.Ival(s, ev[0].t)
					isZero := iv.lo == 0 && iv.hi == 0
					nonZero := iv.lo > 0 || iv.hi < 0 || func() bool {
						for _, x := range iv.ne {
							if x == 0 {
								return true
							}
						}
						return false
					}()
					if b, ok := res[0].Bool(); ok {
						one := iv.lo == 1 && iv.hi == 1
						notOne := func() bool {
							for _, x := range iv.ne {
								if x == 1 {
									return true
								}
							}
							return iv.lo > 1 || iv.hi < 1
						}()
						if b && (nonZero || one) || !b && (isZero || notOne) {
							return
						}
					} else if x := res[0]; x.Op == "not" && x.Args[0].Op == "bin" && x.Args[0].Aux == "==" && x.Args[0].Args[0].StripConv() == ev[0].t {
						if v, ok := x.Args[0].Args[1].Int(); ok && v == 0 {
							return
						}
					} else if x.Op == "bin" && x.Aux == "==" && x.Args[0].StripConv() == ev[0].t {
						if v, ok := x.Args[1].Int(); ok && v == 1 {
							return
						}
					}
					p.bad(s, at, "the boolean returned is not whether the byte is set")
				})
			}
			if p := newPrim(c, "DataInputX", "ReadDecimal", "decimal-read"); p != nil {
				tags := map[int64]bool{}
				p.run(func(s *State, at string, ev []pev, res []*Term) {
					if retErr(p.e, s, res) {
						if len(ev) > 0 {
							iv := p.e.Ival(s, ev[0].t)
							for _, t := range []int64{0, 1, 2, 4, 8} {
								if iv == nil || iv.lo <= t && t <= iv.hi && !hasNe(iv, t) {
									p.bad(s, at, fmt.Sprintf("length tag %d is refused", t))
								}
							}
						}
						return
					}
					if len(ev) == 0 || ev[0].kind != "w1" {
						p.bad(s, at, "no length tag is read")
						return
					}
					iv := p.e.Ival(s, ev[0].t)
					if iv.lo != iv.hi {
						p.bad(s, at, fmt.Sprintf("undefined length tags (in [%d,%d]) are decoded as %s without an error", iv.lo, iv.hi, res[0]))
						return
					}
					tag := iv.lo
					tags[tag] = true
					if tag == 0 {
						if v, ok := res[0].Int(); len(ev) != 1 || !ok || v != 0 {
							p.bad(s, at, "the zero form is decoded as "+res[0].String())
						}
						return
					}
					w, ok := tagWidth[tag]
					if !ok {
						p.bad(s, at, fmt.Sprintf("length tag %d is not part of the encoding", tag))
						return
					}
					if len(ev) != 2 || ev[1].kind != w {
						p.bad(s, at, fmt.Sprintf("length tag %d is decoded by reading %s", tag, evStr(ev[1:])))
						return
					}
					got := res[0].Strip()
					if got.Op == "conv" && got.Args[0] == ev[1].t && widthOf(got.Typ) == w && signedT(got.Typ) {
						return
					}
					if got != ev[1].t || !signedT(ev[1].typ) {
						p.bad(s, at, fmt.Sprintf("the %d-byte form is not returned as a sign-extended value", tag))
					}
				})
				for _, t := range []int64{0, 1, 2, 4, 8} {
					if !tags[t] {
						c.Bad("decimal-read", fmt.Sprintf("tag %d", t), c.W.FnAt(p.fn), "no path decodes this length tag")
					}
				}
			}
			blobRead := func(name, rule string, val func(t *Term) *Term) {
				p := newPrim(c, "DataInputX", name, rule)
				if p == nil {
					return
				}
				forms := map[string]bool{}
				p.run(func(s *State, at string, ev []pev, res []*Term) {
					if retErr(p.e, s, res) {
						if !(len(ev) >= 2 && ev[1].kind == "w4" && p.badLen(s, ev[1].t)) {
							p.bad(s, at, "a length that was announced correctly is refused: "+evStr(ev))
						}
						return
					}
					if len(ev) == 0 || ev[0].kind != "w1" {
						p.bad(s, at, "no length prefix is read")
						return
					}
					tag := ev[0].t
					iv := p.e.Ival(s, tag)
					r := val(res[0])
					buf := func(want *Term, lo, hi int64, ev pev) {
						if ev.kind == "rawpartial" {
							p.bad(s, at, "a short read is taken for the whole value")
							return
						}
						if ev.kind != "raw" || ev.t.Op != "make" {
							p.bad(s, at, "the bytes are not read into a buffer of their length: "+evStr([]pev{ev}))
							return
						}
						ln := ev.t.Args[0]
						li := p.e.Ival(s, ln)
						if hi == 65535 {
							// the 16-bit length is unsigned: what the conversions alone make of it, before any test
							li = p.e.Ival(&State{facts: map[int]fact{}}, ln)
							if li.hi < hi {
								li = &ival{lo: li.lo, hi: math.MaxInt64}
							}
						}
						if m := ln.StripConv(); m.Op == "bin" && m.Aux == "&" && hi == 65535 {
							if v, ok := m.Args[1].Int(); ok && v == hi {
								ln = m.Args[0]
							}
						}
						if ln.StripConv() != want {
							p.bad(s, at, "the number of bytes read is not the announced length")
							return
						}
						if li.lo < lo || li.hi > hi {
							p.bad(s, at, fmt.Sprintf("the announced length is interpreted as [%d,%d], it ranges over [%d,%d]", li.lo, li.hi, lo, hi))
						}
						if r != ev.t {
							p.bad(s, at, "the bytes read are not what is returned")
						}
					}
					switch {
					case iv.lo == 0 && iv.hi == 0:
						forms["0"] = true
						n := r
						if len(ev) != 1 && !(len(ev) == 2 && ev[1].kind == "raw") {
							p.bad(s, at, "the empty form reads "+evStr(ev[1:]))
						}
						if str, ok := res[0].Str(); ok && str == "" {
							return
						}
						if n.Op == "slice" && n.Args[0].Op == "alloc" || n.Op == "make" || n.IsNil() {
							return
						}
						p.bad(s, at, "the empty form is decoded as "+res[0].String())
					case iv.lo == 255 && iv.hi == 255:
						forms["255"] = true
						if len(ev) != 3 || ev[1].kind != "w2" {
							p.bad(s, at, "marker 255 is decoded by reading "+evStr(ev[1:]))
							return
						}
						buf(ev[1].t, 0, 65535, ev[2])
					case iv.lo == 254 && iv.hi == 254:
						forms["254"] = true
						if len(ev) != 3 || ev[1].kind != "w4" {
							p.bad(s, at, "marker 254 is decoded by reading "+evStr(ev[1:]))
							return
						}
						buf(ev[1].t, 0, math.MaxInt32, ev[2])
					default:
						if iv.hi > 253 && iv.lo <= 253 || iv.lo == 0 && !hasNe(iv, 0) && len(ev) != 2 {
							p.bad(s, at, fmt.Sprintf("prefixes in [%d,%d] share one path", iv.lo, iv.hi))
							return
						}
						forms["n"] = true
						if len(ev) != 2 {
							p.bad(s, at, "the short form is decoded by reading "+evStr(ev[1:]))
							return
						}
						buf(tag, 0, 253, ev[1])
					}
				})
				for _, f := range []string{"0", "n", "254", "255"} {
					if !forms[f] && !(f == "0" && forms["n"]) {
						c.Bad(rule, name+" form "+f, c.W.FnAt(p.fn), "no path decodes this length form")
					}
				}
			}
			checkStreams(c)
			blobRead("ReadBlob", "blob-read", func(t *Term) *Term { return t })
			blobRead("ReadString", "text-read", func(t *Term) *Term { return t.StripConv() })
			if p := newPrim(c, "DataInputX", "ReadIntBytes", "intbytes-read"); p != nil {
				p.run(func(s *State, at string, ev []pev, res []*Term) {
					if retErr(p.e, s, res) {
						if !(len(ev) >= 1 && ev[0].kind == "w4" && p.badLen(s, ev[0].t)) {
							p.bad(s, at, "a length that was announced correctly is refused: "+evStr(ev))
						}
						return
					}
					if len(ev) == 1 && ev[0].kind == "w4" {
						if iv := p.e.Ival(s, ev[0].t); iv.lo == 0 && iv.hi == 0 {
							return
						}
					}
					if len(ev) != 2 || ev[0].kind != "w4" || ev[1].kind != "raw" || ev[1].t.Op != "make" || ev[1].t.Args[0].StripConv() != ev[0].t || res[0] != ev[1].t {
						p.bad(s, at, "reads "+evStr(ev)+", must read the 32-bit length and that many bytes")
					}
				})
			}
			if p := newPrim(c, "DataInputX", "Read", "raw-read"); p != nil {
				p.run(func(s *State, at string, ev []pev, res []*Term) {
					if retErr(p.e, s, res) {
						return
					}
					if iv := p.e.Ival(s, p.ps[1]); len(ev) == 0 && iv.lo == 0 && iv.hi == 0 {
						return
					}
					if len(ev) != 1 || ev[0].kind != "raw" || ev[0].t.Op != "make" || ev[0].t.Args[0].StripConv() != p.ps[1] || res[0] != ev[0].t {
						p.bad(s, at, "reads "+evStr(ev)+", must read exactly the requested number of bytes")
					}
				})
			}
			c.Floor("fixed-write", 9)
			c.Floor("fixed-read", 7)
		})
}

// bufWidth is the width of a whole local array taken as a slice.
func bufWidth(b *Term) string {
	for _, a := range b.Args[1:] {
		if a.Op != "none" {
			if v, ok := a.Int(); !ok || v != 0 {
				return "?"
			}
		}
	}
	if a, ok := deref(b.Args[0].Typ).Underlying().(*types.Array); ok {
		return map[int64]string{2: "w2", 4: "w4", 8: "w8"}[a.Len()]
	}
	return "?"
}

func hasNe(iv *ival, v int64) bool {
	for _, x := range iv.ne {
		if x == v {
			return true
		}
	}
	return iv.lo > v || iv.hi < v
}

func signedT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// badLen: only lengths that are negative, or larger than any blob that is promised to pass.
func (p *primRun) badLen(s *State, t *Term) bool {
	no := func(iv *ival) bool { return iv != nil && (iv.hi < 0 || iv.lo > 100000) }
	if no(p.e.Ival(s, t)) {
		return true
	}
	for id := range s.facts {
		if x := p.e.TT.list[id]; x.Op == "conv" && x.StripConv() == t.StripConv() && no(p.e.Ival(s, x)) {
			return true
		}
	}
	return false
}
