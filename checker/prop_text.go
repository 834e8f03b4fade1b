package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// textKinds: what the collector calls the texts each function reports.
var textKinds = map[string]string{
	"SendServiceName": "service", "SendHashedMessage": "hmsg", "SendObjName": "object", "SendReferer": "referer", "SendUserAgent": "ua",
	"SendMethod": "method", "SendApicall": "apicall", "SendError": "error", "SendLogin": "login", "SendDesc": "desc", "SendStackElement": "stackelem",
}

// isCacheType: one of the repository's bounded containers.
func isCacheMethod(f *ssa.Function) (string, bool) {
	if f == nil || f.Signature.Recv() == nil || !strings.HasPrefix(relPkg(FnPkg(f)), "common/structure/") {
		return "", false
	}
	return f.Name(), true
}

func isCacheT(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(relPkg(n.Obj().Pkg().Path()), "common/structure/")
}

// cacheID names the cache: a package variable, or an element of one.
func cacheID(t *Term) string {
	g := ""
	t.Mentions(func(x *Term) bool {
		if x.Op == "global" {
			g = x.Aux
		}
		return false
	})
	if g == "" {
		return ""
	}
	if t.Op == "load" && t.Args[0].Op == "global" || t.Op == "global" {
		return g
	}
	return g + "|" + t.String()
}

func textDict(c *Ctx) {
	w := c.W
	caches := map[string]string{} // kind -> cache
	owner := map[string]string{}
	var senders []*ssa.Function
	for _, name := range sortedKeys(textKinds) {
		fn := c.Need(nioPkg, "", name)
		if fn == nil {
			continue
		}
		if !textSender(fn) {
			c.Bad("text", name, w.FnAt(fn), "does not map a text to a hash")
			continue
		}
		c.Ob("text", name)
		want := textKinds[name]
		e := NewEngine(w)
		e.KeepFact = func(*Term) bool { return true }
		e.NoHavoc = func(*Call) bool { return true }
		p := func() *Term { return e.Params(fn)[0] }
		bad := func(s *State, at, msg string) {
			if !e.Dry {
				c.Bad("text", name, at, msg, s.Trace()...)
			}
		}
		isHash := func(t *Term) bool {
			for t.Op == "conv" || t.Op == "iface" {
				t = t.Args[0]
			}
			return t.Op == "call" && t.Aux == "HashString" && t.Args[0] == p()
		}
		note := func(s *State, cache *Term, at string) bool {
			id := cacheID(cache)
			if id == "" {
				bad(s, at, "the texts already sent are kept in something that is no fixed cache: "+cache.String())
				return false
			}
			if o := caches[name]; o != "" && o != id {
				bad(s, at, "texts are looked up and remembered in different caches: "+o+", "+id)
				return false
			}
			caches[name] = id
			return true
		}
		count := func(s *State, k string) {
			if !e.Dry && len(s.Get(k)) < 2 {
				s.Set(k, s.Get(k)+"1")
			}
		}
		e.OnCall = func(s *State, k *Call) (*Term, bool) {
			f := k.Fn
			var rt types.Type
			if v := k.Instr.Value(); v != nil {
				rt = v.Type()
			}
			at := w.At(k.Instr)
			switch {
			case isFn(f, "common/util", "HashString"):
				return e.TT.mk("call", "HashString", rt, nil, k.Args...), true
			case isFn(f, "common/util", "Hash"):
				a := k.Args[0]
				for a.Op == "conv" {
					a = a.Args[0]
				}
				return e.TT.mk("call", "HashString", rt, nil, a), true
			}
			if m, ok := isCacheMethod(f); ok && isCacheT(k.Args[0].Typ) {
				cache := k.Args[0]
				if e.Dry {
					return e.TT.mk("call", "cache."+m+"@"+k.Site, rt, nil, k.Args...), true
				}
				switch m {
				case "Contains", "Get":
					if !note(s, cache, at) {
						return nil, true
					}
					if !isHash(k.Args[1]) {
						bad(s, at, "a text is looked up by something else than its hash: "+k.Args[1].String())
					}
					r := e.TT.mk("call", "cache."+m, rt, nil, k.Args...)
					s.Set("asked", fmt.Sprint(r.ID))
					return r, true
				case "Add", "AddKey":
					if !note(s, cache, at) {
						return nil, true
					}
					if !isHash(k.Args[1]) {
						bad(s, at, "a text is remembered by something else than its hash: "+k.Args[1].String())
					}
					count(s, "added")
					return nil, true
				}
				bad(s, at, "the cache is used by "+m)
				return nil, true
			}
			if n, ok := methodOn(f, usPkg, "UDPSender"); ok {
				switch n {
				case "AddPack", "SendPackDirect":
					if e.Dry {
						return nil, true
					}
					count(s, "sent")
					pk := unboxS(k.Args[1])
					if !isNamedT(pk.Typ, ndPkg, "TextPack") {
						bad(s, at, "something else than a text is sent: "+pk.String())
						return nil, true
					}
					get := func(n string) *Term { return e.fieldAt(s, pk, n) }
					if v, ok := get("Xtype").Str(); !ok || v != want {
						bad(s, at, "the text is sent as "+get("Xtype").String()+", not as "+want)
					}
					if !isHash(get("Hash")) {
						bad(s, at, "the text is sent with something else than its hash: "+get("Hash").String())
					}
					if get("Text") != p() {
						bad(s, at, "another text is sent: "+get("Text").String())
					}
					return nil, true
				}
				return nil, true
			}
			if isFn(f, usPkg, "GetInstance") {
				return e.TT.mk("call", "sender", rt, nil), true
			}
			return nil, false
		}
		paths := 0
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			if e.Dry {
				return
			}
			at := w.At(in)
			empty := e.Eval(s, e.eqInt(e.TT.mk("len", "", types.Typ[types.Int], nil, p()), 0))
			added, sent := s.Get("added"), s.Get("sent")
			if empty > 0 {
				if v, ok := res[0].Int(); !ok || v != 0 {
					bad(s, at, "an empty text has a hash: "+res[0].String())
				}
				if added+sent != "" {
					bad(s, at, "an empty text is sent or remembered")
				}
				return
			}
			if !isHash(res[0]) {
				bad(s, at, "the value returned is not the hash of the text: "+res[0].String())
			}
			if empty == 0 {
				bad(s, at, "whether the text is empty is not looked at")
			}
			id := s.Get("asked")
			known := 0
			if id != "" {
				r := e.TT.list[atoi(id)]
				if b, ok := r.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					known = e.Eval(s, r)
				} else if e.IsNil(s, r) {
					known = -1
				} else if e.NonNil(s, r) {
					known = 1
				}
			}
			paths++
			switch {
			case known > 0:
				if sent != "" {
					bad(s, at, "a text already sent is sent again")
				}
			case known < 0:
				if sent != "1" {
					bad(s, at, "a text not yet sent is not sent once")
				}
				if added == "" {
					bad(s, at, "a text sent is not remembered")
				}
			default:
				bad(s, at, "whether the text was sent before is not looked at")
			}
		}
		e.Run(fn, nil, nil, func() { paths = 0 })
		c.Use(e, FnName(fn))
		for f := range e.Visited {
			senders = append(senders, f)
		}
		senders = append(senders, fn)
		if paths == 0 {
			c.Bad("text", name, w.FnAt(fn), "no path sends a text")
		}
		if id := caches[name]; id != "" {
			if o := owner[id]; o != "" {
				c.Bad("cache", name, w.FnAt(fn), "shares its cache of sent texts with "+o)
			}
			owner[id] = name
		}
	}
	// the caches are different objects, set once, and remember only texts that were sent
	byGlobal := map[string]string{}
	for k, id := range caches {
		byGlobal[strings.SplitN(id, "|", 2)[0]] = k
	}
	stores := map[string]int{}
	made := map[ssa.Value]string{}
	visited := map[*ssa.Function]bool{}
	for _, f := range senders {
		visited[f] = true
	}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					g, ok := st.Addr.(*ssa.Global)
					if !ok || byGlobal[relPkg(g.Pkg.Pkg.Path())+"."+g.Name()] == "" {
						continue
					}
					n := relPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
					stores[n]++
					c.Ob("cache", n)
					if stores[n] > 1 {
						c.Bad("cache", n, w.At(in), "the cache of sent texts is replaced")
					}
					v := st.Val
					if _, fresh := v.(*ssa.Call); !fresh && isCacheT(v.Type()) {
						c.Bad("cache", n, w.At(in), "the cache of sent texts is not one of its own")
					}
					if o := made[v]; o != "" {
						c.Bad("cache", n, w.At(in), "the same cache as "+o)
					}
					made[v] = n
				}
				if ci, ok := in.(ssa.CallInstruction); ok && !visited[f] {
					if m, ok := isCacheMethod(ci.Common().StaticCallee()); ok && (m == "Add" || m == "AddKey") {
						if u, ok := ci.Common().Args[0].(*ssa.UnOp); ok {
							if g, ok := u.X.(*ssa.Global); ok && byGlobal[relPkg(g.Pkg.Pkg.Path())+"."+g.Name()] != "" {
								c.Bad("cache", FnName(f), w.At(in), "something is remembered as sent that is not a text just sent")
							}
						}
					}
				}
			}
		}
	}
	// reset
	fn := c.Need(nioPkg, "", "ResetTextSent")
	if fn == nil {
		return
	}
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if m, ok := isCacheMethod(k.Fn); ok && isCacheT(k.Args[0].Typ) {
			if m == "Clear" {
				s.Set("cleared:"+cacheID(k.Args[0]), "1")
			} else if !e.Dry {
				c.Bad("reset", FnName(fn), w.At(k.Instr), "the cache is used by "+m)
			}
			return nil, true
		}
		return nil, false
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		for _, name := range sortedKeys(caches) {
			c.Ob("reset", name)
			if s.Get("cleared:"+caches[name]) == "" {
				c.Bad("reset", name, w.At(in), "the texts sent by "+name+" are not forgotten", s.Trace()...)
			}
		}
	}
	e.Run(fn, nil, nil, nil)
	c.Use(e, FnName(fn))
}

func init() {
	register("C35", "Each function that maps a text to its hash is explored on all abstract paths: returned value, look-up, remembering and the text pack queued; the caches are the package variables reached, compared between functions and with those cleared by ResetTextSent.",
		func(c *Ctx) {
			textDict(c)
			lraLemma(c, "table")
			c.Floor("text", len(textKinds))
			c.Floor("reset", len(textKinds))
		})
}
