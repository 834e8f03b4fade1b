package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var udpSettings = []string{"NetCollectorIP", "NetCollectorUDPPort", "UDPMaxBytes"}

func isConfigureT(t types.Type) bool { return isNamedT(t, confPkg, "Configure") }

// confOf: the configuration field a term is the value of.
func confOf(t *Term) string {
	t = t.StripConv()
	if t.Op == "load" && t.Args[0].Op == "fieldaddr" && isConfigureT(deref(t.Args[0].Args[0].Typ)) {
		return t.Args[0].Aux
	}
	return ""
}

// clientMon follows the making and installing of a UDP client.
type clientMon struct {
	c     *Ctx
	e     *Engine
	fn    *ssa.Function
	pairs map[string]map[string]bool // setting -> variable compared with it
	first bool
	seen  int
	quiet bool // only find out what is compared
}

func (m *clientMon) bad(s *State, at, msg string) {
	if !m.e.Dry && !m.quiet {
		m.c.Bad("udp", FnName(m.fn), at, msg, s.Trace()...)
	}
}

// holds: the term is the current value of the setting.
func (m *clientMon) holds(s *State, t *Term, f string) bool { return confOf(t) == f }

func (m *clientMon) run() {
	e, c := m.e, m.c
	w := c.W
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	isClientT := func(t types.Type) bool { return isNamedT(t, ucPkg, "UDPClient") }
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		f := k.Fn
		at := w.At(k.Instr)
		if f == nil {
			return nil, false
		}
		if v := k.Instr.Value(); f.Signature.Recv() == nil && FnPkg(f) == rootPkg+"/"+ucPkg && v != nil && isClientT(v.Type()) {
			r := e.TT.mk("call", "newclient@"+k.Site, v.Type(), nil, k.Args...)
			if e.Dry {
				return r, true
			}
			if s.Get("new") != "" {
				m.bad(s, at, "two clients are made for one change")
			}
			e.forget(s, r)
			s.Set("new", fmt.Sprint(r.ID))
			s.Set("max", "")
			for i, f := range udpSettings[:2] {
				if i >= len(k.Args) || !m.holds(s, k.Args[i], f) {
					m.bad(s, at, "the client is not made for the current "+f)
				}
			}
			return r, true
		}
		if n, ok := methodOn(f, ucPkg, "UDPClient"); ok {
			if n == "SetUDPMaxBytes" && !e.Dry {
				if fmt.Sprint(k.Args[0].ID) != s.Get("new") || !m.holds(s, k.Args[1], "UDPMaxBytes") {
					m.bad(s, at, "the size limit set is not the current UDPMaxBytes on the new client")
				} else {
					s.Set("max", "1")
				}
			}
			return nil, true
		}
		if f.Name() == "Close" && len(k.Args) > 0 && k.Args[0].Mentions(func(t *Term) bool { return t.Op == "fieldaddr" && t.Aux == "Conn" }) {
			if e.Dry {
				return nil, true
			}
			a := k.Args[0]
			nw := s.Get("new")
			if nw != "" && a.Mentions(func(t *Term) bool { return fmt.Sprint(t.ID) == nw }) {
				m.bad(s, at, "the socket of the new client is closed")
			} else if nw == "" || s.Get("inst") != "1" {
				m.bad(s, at, "the socket in use is closed before another client is in use")
			} else {
				s.Set("closed", "1")
			}
			return nil, true
		}
		if isExt(f, "time", "Sleep") {
			s.Set("tick", "1")
			return nil, true
		}
		if isFn(f, confPkg, "GetInstance") {
			return e.TT.mk("call", "conf", f.Signature.Results().At(0).Type(), nil), true
		}
		if strings.HasPrefix(FnPkg(f), "sync") {
			return nil, true
		}
		return nil, false
	}
	e.OnRecv = func(s *State, in ssa.Instruction, ch *Term) *Term { s.Set("tick", "1"); return nil }
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if e.Dry || addr.Op != "fieldaddr" || !isClientT(val.Typ) || !isNamedT(addr.Args[0].Typ, usPkg, "UDPSender") {
			return
		}
		at := w.At(in)
		if fmt.Sprint(val.ID) != s.Get("new") {
			m.bad(s, at, "a client is put to use that was not made for the current settings")
			return
		}
		if s.Get("max") == "" && !m.first {
			m.bad(s, at, "the client is put to use before its size limit is set")
		}
		s.Set("inst", "1")
	}
	differ := func(s *State) { // what the path knows about settings and what is in use
		for id, f := range s.facts {
			t := e.TT.list[id]
			if t.Op != "bin" || t.Aux != "==" || f.truth == 0 {
				continue
			}
			for i := 0; i < 2; i++ {
				cf := confOf(t.Args[i])
				o := t.Args[1-i]
				if cf == "" || confOf(o) != "" || o.Op != "load" && o.Op != "loopcell" {
					continue
				}
				if m.pairs[cf] == nil {
					m.pairs[cf] = map[string]bool{}
				}
				if o.Op == "load" {
					m.pairs[cf][o.Args[0].String()] = true
				} else if g := globalOf(o); g != "" {
					m.pairs[cf][g] = true
				}
				if f.truth > 0 {
					s.Set("same:"+cf, "1")
				} else {
					s.Set("diff", "1")
				}
			}
		}
	}
	sameNow := func(s *State, f string) bool {
		if s.Get("same:"+f) != "" {
			return true
		}
		for a := range m.pairs[f] {
			for _, t := range e.TT.list {
				if (t.Op == "global" || t.Op == "fieldaddr") && t.String() == a && m.holds(s, e.Load(s, t, elemType(t.Typ)), f) {
					return true
				}
			}
		}
		return false
	}
	judge := func(s *State, at string) {
		nw := s.Get("new")
		if nw == "" {
			for _, f := range udpSettings {
				if !sameNow(s, f) {
					m.bad(s, at, "no new client is made although "+f+" may have changed")
				}
			}
			return
		}
		m.seen++
		if s.Get("inst") != "1" {
			m.bad(s, at, "the new client is not put to use")
		}
		if s.Get("max") == "" {
			m.bad(s, at, "the size limit of the new client is not set")
		}
		if m.first {
			return
		}
		if s.Get("diff") == "" {
			m.bad(s, at, "a new client is made although no setting is known to differ")
		}
		if s.Get("closed") != "1" {
			nilConn := false
			for id := range s.facts {
				t := e.TT.list[id]
				t.Mentions(func(x *Term) bool {
					if x.Op == "load" && x.Args[0].Op == "fieldaddr" && x.Args[0].Aux == "Conn" && e.IsNil(s, x) {
						nilConn = true
					}
					return false
				})
			}
			if !nilConn {
				m.bad(s, at, "the socket of the client no longer used stays open")
			}
		}
	}
	inUse := func(s *State, at string, in map[*Term]*Term) { // what later comparisons will look at
		if s.Get("new") == "" {
			return
		}
		for _, f := range udpSettings {
			for a := range m.pairs[f] {
				for _, t := range e.TT.list {
					if t.String() == a && (t.Op == "global" || t.Op == "fieldaddr") {
						v := e.Load(s, t, elemType(t.Typ))
						if x := in[v]; x != nil {
							v = x
						}
						if !m.holds(s, v, f) {
							m.bad(s, at, "the "+f+" in use is not noted for later comparison: "+v.String())
						}
					}
				}
			}
		}
	}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if !back || s.Get("tick") == "" {
			return
		}
		differ(s)
		judge(s, w.FnAt(m.fn))
		inUse(s, w.FnAt(m.fn), phis)
		for _, k := range sortedKeys(s.Vars) {
			if !strings.HasPrefix(k, "!") {
				s.Set(k, "")
			}
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry || s.Get("new") == "" && !m.first {
			return
		}
		at := w.At(in)
		if m.first {
			judge(s, at)
			inUse(s, at, nil)
		}
	}
	e.Run(m.fn, nil, nil, func() { m.seen = 0 })
	c.Use(e, FnName(m.fn))
}

func udpReload(c *Ctx) {
	w := c.W
	makes := func(f *ssa.Function) bool {
		return w.reaches(f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			g := ci.Common().StaticCallee()
			return g != nil && g.Signature.Recv() == nil && FnPkg(g) == rootPkg+"/"+ucPkg && g.Signature.Results().Len() == 1 && isNamedT(g.Signature.Results().At(0).Type(), ucPkg, "UDPClient")
		})
	}
	pairs := map[string]map[string]bool{}
	n := 0
	for _, g := range goStarts(w) {
		if relPkg(FnPkg(g.In)) != usPkg || g.Fn == nil || !makes(g.Fn) {
			continue
		}
		n++
		c.Ob("udp", FnName(g.Fn))
		(&clientMon{c: c, e: NewEngine(w), fn: g.Fn, pairs: pairs, quiet: true}).run()
		m := &clientMon{c: c, e: NewEngine(w), fn: g.Fn, pairs: pairs}
		m.run()
		if m.seen == 0 {
			c.Bad("udp", FnName(g.Fn), w.FnAt(g.Fn), "no path makes a client for changed settings")
		}
		for _, f := range udpSettings {
			if len(pairs[f]) == 0 {
				c.Bad("udp", FnName(g.Fn), w.FnAt(g.Fn), f+" is not compared with the one in use")
			}
		}
	}
	if n != 1 {
		c.Bad("udp", "reload", "-", fmt.Sprintf("%d background functions watch the settings of the UDP client", n))
		return
	}
	// the first client: made where the goroutines are started
	k := 0
	for _, f := range w.Funcs {
		if relPkg(FnPkg(f)) != usPkg || !makes(f) {
			continue
		}
		starts := false
		for _, g := range goStarts(w) {
			starts = starts || g.In == f
		}
		if !starts {
			continue
		}
		k++
		c.Ob("udp", FnName(f))
		m := &clientMon{c: c, e: NewEngine(w), fn: f, pairs: pairs, first: true}
		m.run()
	}
	if k != 1 {
		c.Bad("udp", "first", "-", "the first UDP client is not made where the sender is started")
	}
}

// samplerReload: the matchers are those of the current patterns.
func samplerReload(c *Ctx) {
	w := c.W
	fields := patternFields(c)
	pats := []string{"XlogSamplingExcludePatterns", "XlogDiscardServicePatterns", "XlogPatternedSamplingServicePatterns", "XlogPatterned2SamplingServicePatterns", "XlogPatterned3SamplingServicePatterns"}
	used := map[string]string{}
	for _, p := range pats {
		if fields[p] == "" {
			c.Bad("sampler", p, "-", "no matcher is made of "+p+" when the sampler is made")
		} else if o := used[fields[p]]; o != "" {
			c.Bad("sampler", p, "-", "shares its matcher with "+o)
		}
		used[fields[p]] = p
	}
	// registered where it is made
	reg := false
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !isFn(ci.Common().StaticCallee(), confPkg, "AddToConfObserver") {
					continue
				}
				if mi, ok := ci.Common().Args[1].(*ssa.MakeInterface); ok && isNamedT(mi.X.Type(), stPkg, "XlogSampler") {
					if w.partOf(f, stPkg, "GetXlogSampler", map[*ssa.Function]bool{}) {
						reg = true
					}
				}
			}
		}
	}
	c.Ob("sampler", "registered")
	if !reg {
		c.Bad("sampler", "registered", "-", "the sampler is not told of configuration changes")
	}
	fn := c.Need(stPkg, "XlogSampler", "Run")
	if fn == nil {
		return
	}
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	e.PureCall = func(g *ssa.Function) bool { return isFn(g, "common/util", "NewCommaSeparatedChainedStrMatcher") }
	e.Opaque = e.PureCall
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if isFn(k.Fn, confPkg, "GetInstance") {
			return e.TT.mk("call", "conf", k.Fn.Signature.Results().At(0).Type(), nil), true
		}
		return nil, false
	}
	p0 := e.Params(fn)[0]
	st := deref(p0.Typ).Underlying().(*types.Struct)
	now := func(s *State, n string) *Term {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return e.Load(s, e.TT.mk("fieldaddr", n, types.NewPointer(st.Field(i).Type()), nil, p0), st.Field(i).Type())
			}
		}
		return nil
	}
	pair := map[string]map[string]bool{}
	type built struct {
		pat, at string
		holds   map[string]bool
	}
	var rebuilt []built
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		at := w.At(in)
		for _, p := range pats {
			c.Ob("sampler", p)
			if fields[p] == "" {
				continue
			}
			v := now(s, fields[p])
			switch {
			case v == nil:
				c.Bad("sampler", p, at, "the sampler has no "+fields[p])
			case v.Op == "call" && strings.HasSuffix(v.Aux, "NewCommaSeparatedChainedStrMatcher"):
				if confOf(v.Args[0]) != p {
					c.Bad("sampler", p, at, "the matcher is made of "+v.Args[0].String(), s.Trace()...)
					continue
				}
				b := built{p, at, map[string]bool{}}
				for i := 0; i < st.NumFields(); i++ {
					if f := st.Field(i); types.Identical(f.Type(), types.Typ[types.String]) && confOf(now(s, f.Name())) == p {
						b.holds[f.Name()] = true
					}
				}
				rebuilt = append(rebuilt, b)
			default:
				same := ""
				for id, f := range s.facts {
					t := e.TT.list[id]
					if t.Op != "bin" || t.Aux != "==" || f.truth <= 0 {
						continue
					}
					for i := 0; i < 2; i++ {
						o := t.Args[1-i]
						if confOf(t.Args[i]) == p && o.Op == "load" && o.Args[0].Op == "fieldaddr" && o.Args[0].Args[0] == p0 {
							same = o.Args[0].Aux
						}
					}
				}
				if same == "" || !(v.Op == "load" && v.Args[0].Op == "fieldaddr" && v.Args[0].Aux == fields[p]) {
					c.Bad("sampler", p, at, "the matcher is not renewed although "+p+" may have changed", s.Trace()...)
					continue
				}
				if pair[p] == nil {
					pair[p] = map[string]bool{}
				}
				pair[p][same] = true
			}
		}
	}
	e.Run(fn, nil, nil, func() { rebuilt = nil; pair = map[string]map[string]bool{} })
	c.Use(e, FnName(fn))
	for _, b := range rebuilt {
		for f := range pair[b.pat] {
			if !b.holds[f] {
				c.Bad("sampler", b.pat, b.at, "the pattern the matcher was made of is not noted in "+f)
			}
		}
	}
	// nobody else changes matchers or the patterns noted
	guarded := map[string]bool{}
	for p, m := range fields {
		guarded[m] = true
		for f := range pair[p] {
			guarded[f] = true
		}
	}
	noted := map[string]map[string]string{}
	for _, f := range w.Funcs {
		if e.Visited[f] || f == fn {
			continue
		}
		if w.partOf(f, stPkg, "GetXlogSampler", map[*ssa.Function]bool{}) {
			samplerStores(c, f, noted)
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Store); ok {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isNamedT(fa.X.Type(), stPkg, "XlogSampler") && guarded[st.Field(fa.Field).Name()] {
						c.Bad("sampler", FnName(f), w.At(in), "changes a matcher of the sampler")
					}
				}
			}
		}
	}
	for p := range fields {
		for n := range pair[p] {
			for q, at := range noted[n] {
				if q != p {
					c.Bad("sampler", p, at, "a new sampler notes "+q+" in "+n+", where "+p+" is compared")
				}
			}
			if len(noted[n]) == 0 && len(noted) > 0 {
				c.Bad("sampler", p, "-", "a new sampler does not note "+p+" in "+n)
			}
		}
	}
}

// partOf: f is the named function, written inside it, or an unexported function only used by such functions.
func (w *World) partOf(f *ssa.Function, pkg, name string, seen map[*ssa.Function]bool) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if isFn(f, pkg, name) {
		return true
	}
	if seen[f] {
		return true
	}
	if ast.IsExported(f.Name()) {
		return false
	}
	seen[f] = true
	n := 0
	for _, g := range w.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if o != nil && *o == ssa.Value(f) {
						if !w.partOf(g, pkg, name, seen) {
							return false
						}
						n++
					}
				}
			}
		}
	}
	return n > 0
}

// samplerStores: what a new sampler notes in which field, and where.
func samplerStores(c *Ctx, f *ssa.Function, noted map[string]map[string]string) {
	e := NewEngine(c.W)
	e.NoHavoc = func(*Call) bool { return true }
	e.PureCall = func(g *ssa.Function) bool { return isFn(g, "common/util", "NewCommaSeparatedChainedStrMatcher") }
	e.Opaque = e.PureCall
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if p := confOf(val); !e.Dry && addr.Op == "fieldaddr" && isNamedT(addr.Args[0].Typ, stPkg, "XlogSampler") && p != "" {
			if noted[addr.Aux] == nil {
				noted[addr.Aux] = map[string]string{}
			}
			noted[addr.Aux][p] = c.W.At(in)
		}
	}
	e.Run(f, nil, nil, nil)
}

// nameReload: the observer of the object name reports the current name.
func nameReload(c *Ctx) {
	w := c.W
	n := 0
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !isFn(ci.Common().StaticCallee(), confPkg, "AddObjChangedObserver") {
					continue
				}
				mi, ok := ci.Common().Args[0].(*ssa.MakeInterface)
				if !ok {
					continue
				}
				var run *ssa.Function
				if nt, ok := deref(mi.X.Type()).(*types.Named); ok && nt.Obj().Pkg() != nil {
					run = w.Fn(relPkg(nt.Obj().Pkg().Path()), nt.Obj().Name(), "Run")
				}
				if run == nil || run.Blocks == nil {
					continue
				}
				n++
				c.Ob("name", FnName(run))
				e := NewEngine(w)
				e.NoHavoc = func(*Call) bool { return true }
				e.OnCall = func(s *State, k *Call) (*Term, bool) {
					if isFn(k.Fn, confPkg, "GetInstance") {
						return e.TT.mk("call", "conf", k.Fn.Signature.Results().At(0).Type(), nil), true
					}
					if textSender(k.Fn) {
						if k.Fn.Name() == "SendObjName" && confOf(k.Args[0]) == "ObjName" {
							s.Set("told", "1")
						}
						return nil, true
					}
					return nil, false
				}
				e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
					if !e.Dry && s.Get("told") == "" {
						c.Bad("name", FnName(run), w.At(in), "the new object name is not reported", s.Trace()...)
					}
				}
				e.Run(run, nil, nil, nil)
				c.Use(e, FnName(run))
			}
		}
	}
	if n == 0 {
		c.Bad("name", "observer", "-", "nothing reports a changed object name")
	}
}

// descCopy: the description map given out has every entry.
func descCopy(c *Ctx) {
	w := c.W
	fn := c.Need(confPkg, "", "GetConfigureDescMap")
	if fn == nil {
		return
	}
	c.Ob("describe", FnName(fn))
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	bad := func(s *State, at, msg string) {
		if !e.Dry {
			c.Bad("describe", FnName(fn), at, msg, s.Trace()...)
		}
	}
	isDesc := func(t *Term) bool {
		return t.Mentions(func(x *Term) bool { return x.Op == "global" && x.Aux == "conf.descMap" })
	}
	puts := 0
	iter := func(s *State, k *Call) *Term { // the iterator itself, which may lie in a variable
		a := k.Args[0]
		if id := s.Get(fmt.Sprintf("it:%d", a.ID)); id != "" {
			return e.TT.list[atoi(id)]
		}
		return a
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if val.Op == "call" && strings.HasPrefix(val.Aux, "iter@") {
			s.Set(fmt.Sprintf("it:%d", addr.ID), fmt.Sprint(val.ID))
		}
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		f := k.Fn
		var rt types.Type
		if v := k.Instr.Value(); v != nil {
			rt = v.Type()
		}
		at := w.At(k.Instr)
		switch {
		case isLockCall(f):
			return nil, true
		case isExt(f, lhmLib, "New"):
			return e.TT.mk("call", "newmap@"+k.Site, rt, nil), true
		case isExtMethod(f, lhmLib, "Map", "Iterator"):
			return e.TT.mk("call", "iter@"+k.Site, rt, nil, k.Args...), true
		case isExtMethod(f, lhmLib, "Map", "Keys"):
			return e.TT.mk("call", "keys", rt, nil, k.Args...), true
		case isExtMethod(f, lhmLib, "Map", "Get"):
			a := e.TT.mk("call", "value", types.NewInterfaceType(nil, nil), nil, k.Args...)
			return e.TT.mk("tuple", "", nil, nil, a, e.TT.mk("call", "found@"+k.Site, types.Typ[types.Bool], nil, k.Args...)), true
		case isExtMethod(f, lhmLib, "Iterator", "Next"):
			r := e.TT.mk("call", "Next@"+k.Site, rt, nil, k.Args...)
			e.forget(s, r)
			if !e.Dry {
				if s.Get("open") == "1" && s.Get("put") == "" {
					bad(s, at, "an entry is left out")
				}
				s.Set("open", "1")
				s.Set("put", "")
			}
			return r, true
		case isExtMethod(f, lhmLib, "Iterator", "Key"):
			return e.TT.mk("call", "key", rt, nil, iter(s, k)), true
		case isExtMethod(f, lhmLib, "Iterator", "Value"):
			return e.TT.mk("call", "val", rt, nil, iter(s, k)), true
		case isExtMethod(f, lhmLib, "Map", "Put"):
			if e.Dry {
				return nil, true
			}
			puts++
			s.Set("to", fmt.Sprint(k.Args[0].ID))
			kk, v := unassert(k.Args[1]), unassert(k.Args[2])
			src := func(t *Term) *Term { // the iterator or list of keys
				if t.Op == "call" && (t.Aux == "key" || t.Aux == "val") {
					return t.Args[0]
				}
				return nil
			}
			switch {
			case isDesc(k.Args[0]):
				bad(s, at, "the description map itself is changed")
			case src(kk) != nil && kk.Aux == "key" && v.Op == "call" && v.Aux == "val" && src(v) == src(kk) && isDesc(kk):
				s.Set("put", "1")
			case v.Op == "call" && v.Aux == "value" && unassert(v.Args[1]) == kk && isDesc(v.Args[0]) && isDesc(kk):
				s.Set("put", "1")
			default:
				bad(s, at, "an entry of the copy is not one of the map: "+kk.String()+", "+v.String())
			}
			return nil, true
		}
		return nil, false
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		if e.Dry {
			return
		}
		kind, x, _ := e.LoopIf(s, in, cond, taken)
		if x != nil && kind == "iter" && isDesc(x) {
			s.Set("open", "1")
			s.Set("put", "")
		}
		if x != nil && kind == "done" && isDesc(x) {
			s.Set("all", "1")
		}
		c := cond
		neg := false
		for c.Op == "not" {
			c, neg = c.Args[0], !neg
		}
		if c.Op == "call" && strings.HasPrefix(c.Aux, "Next@") && taken == neg {
			s.Set("all", "1")
			s.Set("open", "")
		}
	}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if back && s.Get("open") == "1" {
			if s.Get("put") == "" {
				bad(s, w.FnAt(fn), "an entry is left out")
			}
			s.Set("open", "")
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		if !(res[0].Op == "call" && strings.HasPrefix(res[0].Aux, "newmap@")) {
			bad(s, w.At(in), "what is given out is not a copy: "+res[0].String())
			return
		}
		if s.Get("to") != "" && s.Get("to") != fmt.Sprint(res[0].ID) {
			bad(s, w.At(in), "the entries are put into another map")
		}
		if s.Get("all") == "" {
			bad(s, w.At(in), "not all entries are looked at")
		}
	}
	e.Run(fn, nil, nil, func() { puts = 0 })
	c.Use(e, FnName(fn))
	if puts == 0 {
		c.Bad("describe", FnName(fn), w.FnAt(fn), "nothing is copied")
	}
}

// noCopies: no package variable keeps the value of a setting, except where a background check renews it.
func noCopies(c *Ctx) {
	w := c.W
	for _, f := range w.Funcs {
		if relPkg(FnPkg(f)) == confPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				cf := confValue(st.Val, 0)
				if cf == "" {
					continue
				}
				n := relPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
				c.Ob("copy", n)
				if relPkg(g.Pkg.Pkg.Path()) == usPkg && (cf == udpSettings[0] || cf == udpSettings[1] || cf == udpSettings[2]) {
					continue // judged with the UDP client
				}
				if cf == "SendQueueSize" {
					continue // a queue's size cannot change
				}
				c.Bad("copy", n, w.At(in), "keeps the value of "+cf+": later changes of the configuration are not seen")
			}
		}
	}
}

func confValue(v ssa.Value, d int) string {
	if d > 6 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && isConfigureT(deref(fa.X.Type())) {
			n := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
			if _, ok := confFields[n]; ok {
				return n
			}
			return ""
		}
		return ""
	case *ssa.BinOp:
		if r := confValue(x.X, d+1); r != "" {
			return r
		}
		return confValue(x.Y, d+1)
	case *ssa.Convert:
		return confValue(x.X, d+1)
	case *ssa.ChangeType:
		return confValue(x.X, d+1)
	case *ssa.MakeInterface:
		return confValue(x.X, d+1)
	case *ssa.MakeChan:
		return confValue(x.Size, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if r := confValue(e, d+1); r != "" {
				return r
			}
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if r := confValue(a, d+1); r != "" {
				return r
			}
		}
	}
	return ""
}

func init() {
	register("C36", "The background check of the UDP sender, the start of the sender, the sampler's configuration observer, the object name observer and the copy of the description map are explored on all abstract paths; stores of configuration values into package variables are enumerated.",
		func(c *Ctx) {
			udpReload(c)
			samplerReload(c)
			nameReload(c)
			descCopy(c)
			noCopies(c)
			c.Floor("udp", 2)
			c.Floor("sampler", 6)
			c.Floor("name", 1)
			c.Floor("describe", 1)
		})
}
