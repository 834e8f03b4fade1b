package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tcpPkg  = "netio/tcpclient"
	dumpPkg = "dump"
	flagPkg = "common/constants/tcpflag"
)

// isNdType: the type is the named netdata type (or a pointer to it).
func isNd(t types.Type, name string) bool { return isNamedT(t, ndPkg, name) }

// commandHandler: a function of the session package that answers a command: it takes the command
// and its parameter pack and gives back a pack.
func commandHandler(f *ssa.Function) bool {
	if f == nil || relPkg(FnPkg(f)) != tcpPkg {
		return false
	}
	sig := f.Signature
	str, pk := false, false
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			str = true
		}
		if isNd(t, "Pack") {
			pk = true
		}
	}
	return str && pk && sig.Results().Len() == 1 && isNd(sig.Results().At(0).Type(), "Pack")
}

// unassert strips type assertions and interface boxes.
func unassert(t *Term) *Term {
	for t.Op == "iface" || t.Op == "assert" || t.Op == "fieldaddr" && t.Aux == "conn" || t.Op == "res" && t.Args[0].Op == "assert" && t.Aux == "0" {
		t = t.Args[0]
	}
	return t
}

func confLoads(t *Term, field string) bool {
	return t.Mentions(func(x *Term) bool { return isConfLoad(x, field) })
}

// nowConf: a term that holds the current value of a configuration field equals x on this path.
func (e *Engine) nowConf(s *State, x *Term, field string) bool {
	for _, t := range e.TT.list {
		if isConfLoad(t, field) && t.Aux == s.epoch["conf.Configure."+field] && e.Eval(s, e.eqT(x, t)) > 0 {
			return true
		}
	}
	return false
}

type session struct {
	c      *Ctx
	e      *Engine
	root   *ssa.Function
	rule   string
	counts map[string]int
}

func (m *session) bad(s *State, at, msg string) {
	if !m.e.Dry {
		m.c.Bad(m.rule, FnName(m.root), at, msg, s.Trace()...)
	}
}

func (m *session) term(s *State, k string) *Term {
	if v := s.Get(k); v != "" {
		return m.e.TT.list[atoi(v)]
	}
	return nil
}

func (m *session) isConn(s *State, t *Term) bool {
	cn := m.term(s, "conn")
	return cn != nil && unassert(t) == cn
}

// reply judges what was written in answer to a command.
func (m *session) reply(s *State, at string) {
	res := m.term(s, "res")
	_ = res
	var kinds []string
	var args []*Term
	for _, it := range strings.Split(strings.TrimSuffix(s.Get("rep"), ";"), ";") {
		if it == "" {
			continue
		}
		p := strings.SplitN(it, ":", 2)
		kinds = append(kinds, p[0])
		args = append(args, m.e.TT.list[atoi(p[1])])
	}
	s.Set("rep", "")
	s.Set("res", "")
	flag := func(i int, v int64) bool {
		return i < len(kinds) && kinds[i] == "1" && sameConst(args[i].StripConv(), v)
	}
	i := 0
	if i < len(kinds) && kinds[i] == "handler" {
		i++
	} else {
		m.bad(s, at, "what the handler streamed is not sent before the answer")
	}
	isNil := s.Get("isnil") == "1"
	if s.Get("isnil") == "" {
		m.bad(s, at, "the answer does not depend on whether the handler gave a result")
		return
	}
	if !isNil {
		ok := flag(i, 3) && i+1 < len(kinds)
		if ok {
			switch kinds[i+1] {
			case "intbytes":
				ok = args[i+1].Op == "call" && strings.HasPrefix(args[i+1].Aux, "packbytes") && args[i+1].Args[0] == res
			default:
				ok = false
			}
		}
		if !ok {
			m.bad(s, at, "the handler's result is not answered as a HasNEXT flag and the pack's length-prefixed bytes")
			return
		}
		i += 2
	}
	if !flag(i, 4) || i+1 != len(kinds) {
		m.bad(s, at, fmt.Sprintf("the answer does not end with exactly one NoNEXT flag (items: %s)", strings.Join(kinds, " ")))
	}
	m.counts["reply"]++
}

// write is one item (a primitive or raw bytes) sent on the connection.
func (m *session) write(s *State, at, kind string, arg *Term) {
	e := m.e
	if s.Get("errst") == "bad" {
		m.bad(s, at, "something is sent after an error")
	}
	switch s.Get("ph") {
	case "":
		if kind != "4" || !m.magic(arg) {
			m.bad(s, at, "the session does not begin with the TCP_AGENT_V2 mark: "+kind+" "+arg.String())
		}
		s.Set("ph", "1")
	case "1":
		if kind != "4" || !confLoads(arg, "ObjHash") && !m.wasHash(s, arg) {
			m.bad(s, at, "the object's hash is not announced: "+kind+" "+arg.String())
		}
		s.Set("hash", fmt.Sprint(arg.StripConv().ID))
		s.Set("ph", "2")
	case "2":
		m.bad(s, at, "something is sent that no command asked for: "+kind)
	case "cmd":
		m.bad(s, at, "something is sent before the command was handled: "+kind)
	case "h":
		if res := m.term(s, "res"); e.IsNil(s, res) {
			s.Set("isnil", "1")
		} else if e.NonNil(s, res) {
			s.Set("isnil", "0")
		}
		if kind == "raw" {
			if arg.Op == "call" && strings.HasPrefix(arg.Aux, "bytes@") {
				s.Set("rep", s.Get("rep")+s.Get(fmt.Sprintf("b:%05d", arg.ID)))
				return
			}
			m.bad(s, at, "unknown bytes are sent: "+arg.String())
			return
		}
		s.Set("rep", s.Get("rep")+fmt.Sprintf("%s:%d;", kind, arg.ID))
	}
}

func (m *session) wasHash(s *State, t *Term) bool { return false }

func (m *session) magic(t *Term) bool {
	t = t.StripConv()
	if v, ok := t.Int(); ok {
		return uint32(v) == 0xCAFE1002
	}
	if t.Op == "load" && t.Args[0].Op == "global" {
		n := t.Args[0].Aux
		if i := strings.LastIndex(n, "."); i >= 0 {
			v, ok := globalInt(m.c.W, n[:i], n[i+1:])
			return ok && uint32(v) == 0xCAFE1002
		}
	}
	return false
}

func (m *session) readable(s *State, at string) {
	e := m.e
	if ph := s.Get("ph"); ph != "2" && ph != "h" {
		m.bad(s, at, "a command is read before the session was announced or while one is open")
	} else if ph == "h" {
		m.reply(s, at)
		s.Set("ph", "2")
	}
	if s.Get("errst") != "ok" && s.Get("err") != "" {
		m.bad(s, at, "a command is read although sending may have failed")
	}
	if s.Get("dl") == "" {
		m.bad(s, at, "a command is awaited without a read deadline")
	}
	s.Set("dl", "")
	if h := m.term(s, "hash"); h != nil && !e.nowConf(s, h, "ObjHash") {
		m.bad(s, at, "a command is awaited although the object's hash may no longer be the announced one")
	}
	for f, k := range map[string]string{"NetCollectorIP": "ip", "NetCollectorTCPPort": "port"} {
		if d := m.term(s, k); d != nil && !e.nowConf(s, d, f) {
			m.bad(s, at, "a command is awaited although the collector's address ("+f+") may no longer be the one connected to")
		}
	}
	if !s.hasDefer(func(d deferred) bool {
		f := d.instr.Common().StaticCallee()
		return f != nil && f.Name() == "Close" || d.instr.Common().IsInvoke() && d.instr.Common().Method.Name() == "Close" ||
			f != nil && m.c.W.reaches(f, isConnClose) || d.fn != nil && d.fn.Fn != nil && m.c.W.reaches(d.fn.Fn, isConnClose)
	}) {
		m.bad(s, at, "the connection would not be closed on a panic")
	}
	m.counts["read"]++
}

func isConnClose(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if ci.Common().IsInvoke() {
		return ci.Common().Method.Name() == "Close"
	}
	f := ci.Common().StaticCallee()
	return f != nil && f.Name() == "Close" && FnPkg(f) == "net"
}

// globalInt is the number a package variable holds, provided nothing but its initialiser writes it.
func globalInt(w *World, pkg, name string) (int64, bool) {
	sp := w.SSA[rootPkg+"/"+pkg]
	if sp == nil {
		return 0, false
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return 0, false
	}
	n, val := 0, int64(0)
	for _, f := range append(append([]*ssa.Function(nil), w.Funcs...), sp.Func("init")) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				k, ok := st.Val.(*ssa.Const)
				if f != sp.Func("init") || !ok || k.Value == nil {
					return 0, false
				}
				val = k.Int64()
				n++
			}
		}
	}
	return val, n >= 1
}

func (m *session) model(s *State, k *Call) (*Term, bool) {
	e, c := m.e, m.c
	at := c.W.At(k.Instr)
	nilErr := e.TT.mk("nil", "", errType, nil)
	mkErr := func(what string) *Term {
		t := e.TT.mk("call", what+"@"+k.Site, errType, nil)
		e.forget(s, t)
		return t
	}
	name, recv := "", (*Term)(nil)
	if k.Fn != nil {
		name = k.Fn.Name()
		if len(k.Args) > 0 {
			recv = k.Args[0]
		}
	} else if k.Method != nil {
		name, recv = k.Method.Name(), k.Recv
	}
	f := k.Fn
	switch {
	case f == nil && k.Method == nil:
		return nil, false
	case f != nil && FnPkg(f) == "net" && strings.HasPrefix(name, "Dial"):
		if s.Get("conn") != "" && s.Get("closed") == "" {
			m.bad(s, at, "a new connection is opened while the last one is still open")
		}
		for _, v := range []string{"conn", "closed", "ph", "hash", "err", "dl", "rep", "res", "ip", "port", "ferr", "buf", "in", "dec", "encbad", "isnil", "errst"} {
			s.Set(v, "")
		}
		var addr, tmo *Term
		for _, a := range k.Args {
			if b, ok := a.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.String && (addr == nil || a.Op != "const") {
				addr = a
			}
			if isNamed(a.Typ, "time", "Duration") {
				tmo = a
			}
		}
		if addr == nil || !confLoads(addr, "NetCollectorIP") || !confLoads(addr, "NetCollectorTCPPort") {
			m.bad(s, at, "the connection is not made to the configured collector host and TCP port")
		} else {
			addr.Find(func(x *Term) bool {
				if isConfLoad(x, "NetCollectorIP") {
					s.Set("ip", fmt.Sprint(x.ID))
				}
				if isConfLoad(x, "NetCollectorTCPPort") {
					s.Set("port", fmt.Sprint(x.ID))
				}
				return false
			})
		}
		if tmo == nil || !confLoads(tmo, "NetCollectorTcpConnectionTimeoutMs") || !hasConst(tmo, 1000000) {
			m.bad(s, at, "the connection attempt is not bounded by the configured timeout in milliseconds")
		}
		cn := e.TT.mk("call", "conn@"+k.Site, f.Signature.Results().At(0).Type(), nil)
		er := mkErr("dialerr")
		e.forget(s, cn)
		e.Assume(s, e.eqT(cn, e.TT.mk("nil", "", cn.Typ, nil)), false, "")
		s.Set("conn", fmt.Sprint(cn.ID))
		s.Set("derr", fmt.Sprint(er.ID))
		for _, fd := range []string{"ObjHash", "NetCollectorIP", "NetCollectorTCPPort"} {
			s.epoch["conf.Configure."+fd] = "dial@" + k.Site
		}
		m.counts["dial"]++
		return e.TT.mk("tuple", "", f.Signature.Results(), nil, cn, er), true
	case name == "Close" && recv != nil && m.isConn(s, recv):
		s.Set("closed", "1")
		return mkErr("closeerr"), true
	case (name == "SetReadDeadline" || name == "SetDeadline") && recv != nil && m.isConn(s, recv):
		a := k.Args[len(k.Args)-1]
		if a.Mentions(func(x *Term) bool { return x.Op == "call" && strings.HasPrefix(x.Aux, "time.Now") }) && confLoads(a, "NetCollectorTcpSoTimeoutMs") && hasConst(a, 1000000) {
			s.Set("dl", "1")
		} else {
			m.bad(s, at, "the read deadline is not the configured timeout in milliseconds from now: "+a.String())
		}
		return mkErr("dlerr"), true
	case isExtMethod(f, "time", "Time", "Add"), isExt(f, "time", "Now"), isExt(f, "strconv", "Itoa"), isExt(f, "net", "JoinHostPort"), isExt(f, "fmt", "Sprintf"):
		args := append([]*Term(nil), k.Args...)
		for _, a := range k.Args {
			for _, x := range e.elems(s, a) {
				args = append(args, unboxS(x))
			}
		}
		return e.TT.mk("call", FnPkg(f)+"."+name, f.Signature.Results().At(0).Type(), nil, args...), true
	case isFn(f, ndPkg, "NewDataOutputX"):
		t := e.TT.mk("call", "out@"+k.Site, f.Signature.Results().At(0).Type(), nil)
		e.forget(s, t)
		if m.isConn(s, k.Args[0]) {
			s.Set(sk(t), "C")
		} else {
			s.Set(sk(t), "I|")
		}
		return t, true
	case isFn(f, ndPkg, "NewDataInputX"):
		a := unboxS(k.Args[0])
		t := e.TT.mk("call", "in@"+k.Site, f.Signature.Results().At(0).Type(), nil, a)
		e.forget(s, t)
		if b := m.term(s, "buf"); b != nil && a == b {
			s.Set("in", fmt.Sprint(t.ID))
			s.Set("dec", "")
		}
		return t, true
	case commandHandler(f):
		var cmd, par, out *Term
		for i, a := range k.Args {
			switch t := f.Params[i].Type(); {
			case isNd(t, "Pack"):
				par = a
			case isNd(t, "DataOutputX"):
				out = a
			default:
				if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
					cmd = a
				}
			}
		}
		if s.Get("ph") != "cmd" {
			m.bad(s, at, "a command is handled that was not just read")
		}
		if s.Get("dec") != "tp" || cmd != m.term(s, "cmd") || unboxS(par) != m.term(s, "par") {
			m.bad(s, at, "the handler is not given the command and parameter pack decoded, in this order, from the bytes read: "+s.Get("dec"))
		}
		for _, v := range []string{"rerr", "perr"} {
			if er := m.term(s, v); er == nil || e.Eval(s, e.eqT(er, nilErr)) <= 0 {
				m.bad(s, at, "a command is handled although reading or decoding it may have failed")
			}
		}
		s.Set("ph", "h")
		s.Set("rep", "")
		s.Set("isnil", "")
		s.Set("encbad", "")
		r := e.TT.mk("call", "answer@"+k.Site, f.Signature.Results().At(0).Type(), nil)
		e.forget(s, r)
		s.Set("res", fmt.Sprint(r.ID))
		h := fmt.Sprintf("handler:%d;", r.ID)
		if out == nil {
			s.Set("rep", h)
		} else if st := s.Get(sk(out)); st == "C" {
			s.Set("rep", h)
		} else if st == "I|" {
			s.Set(sk(out), "I|"+h)
		} else {
			m.bad(s, at, "the handler's output is not a fresh reply buffer")
		}
		for _, fd := range []string{"ObjHash", "NetCollectorIP", "NetCollectorTCPPort", "NetCollectorTcpSoTimeoutMs"} {
			s.epoch["conf.Configure."+fd] = "handled@" + k.Site
		}
		m.counts["handle"]++
		return r, true
	}
	if n, ok := methodOn(f, ndPkg, "DataInputX"); ok {
		in := k.Args[0]
		sig := f.Signature.Results()
		v := e.TT.mk("call", n+"@"+k.Site, sig.At(0).Type(), nil, in)
		e.forget(s, v)
		var er *Term
		res := v
		if sig.Len() == 2 {
			er = mkErr(n + "err")
			res = e.TT.mk("tuple", "", sig, nil, v, er)
		}
		if in.Op == "call" && m.isConn(s, in.Args[0]) {
			if n != "ReadIntBytes" {
				m.bad(s, at, "a command is not read as length-prefixed bytes but with "+n)
			}
			m.readable(s, at)
			s.Set("ph", "cmd")
			s.Set("buf", fmt.Sprint(v.ID))
			s.Set("rerr", fmt.Sprint(er.ID))
			s.Set("err", fmt.Sprint(er.ID))
			s.Set("errst", "")
			s.Set("perr", "")
			s.Set("in", "")
			s.Set("dec", "")
			return res, true
		}
		if ti := m.term(s, "in"); ti != nil && ti == in {
			s.Set("dec", s.Get("dec")+map[string]string{"ReadString": "t", "ReadPack": "p"}[n])
			switch n {
			case "ReadString":
				s.Set("cmd", fmt.Sprint(v.ID))
			case "ReadPack":
				s.Set("par", fmt.Sprint(v.ID))
				s.Set("perr", fmt.Sprint(er.ID))
				s.Set("err", fmt.Sprint(er.ID))
				s.Set("errst", "")
			default:
				m.bad(s, at, "the command is decoded with "+n)
			}
		} else {
			m.bad(s, at, "something else than the bytes read is decoded")
		}
		return res, true
	}
	if n, ok := methodOn(f, ndPkg, "DataOutputX"); ok {
		out := k.Args[0]
		st := s.Get(sk(out))
		sig := f.Signature.Results()
		if n == "Bytes" {
			var t *Term
			if strings.HasPrefix(st, "I|pack:") && strings.Count(st, ";") == 1 {
				p := e.TT.list[atoi(strings.TrimSuffix(st[len("I|pack:"):], ";"))]
				t = e.TT.mk("call", "packbytes", sig.At(0).Type(), nil, p)
			} else {
				t = e.TT.mk("call", "bytes@"+k.Site, sig.At(0).Type(), nil, out)
				e.forget(s, t)
			}
			s.Set(fmt.Sprintf("b:%05d", t.ID), strings.TrimPrefix(st, "I|"))
			return t, true
		}
		kind, prim := outPrims[n]
		if !prim {
			return nil, false
		}
		er := mkErr("werr")
		r := er
		if sig.Len() == 2 {
			r = e.TT.mk("tuple", "", sig, nil, out, er)
		}
		arg := k.Args[1]
		if kind == "pack" {
			arg = unboxS(arg)
		}
		if st == "C" {
			m.write(s, at, kind, arg)
			s.Set("err", fmt.Sprint(er.ID))
			s.Set("errst", "")
		} else if strings.HasPrefix(st, "I|") {
			if kind == "raw" && arg.Op == "call" && strings.HasPrefix(arg.Aux, "bytes@") {
				s.Set(sk(out), st+s.Get(fmt.Sprintf("b:%05d", arg.ID)))
			} else {
				s.Set(sk(out), st+fmt.Sprintf("%s:%d;", kind, arg.ID))
			}
		}
		return r, true
	}
	return nil, false
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func hasConst(t *Term, v int64) bool {
	return t.Mentions(func(x *Term) bool { i, ok := x.Int(); return ok && i == v })
}

// sessionRoots are the goroutine bodies of the session package that open connections.
func sessionRoots(w *World) []*ssa.Function {
	dial := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := ci.Common().StaticCallee()
		return f != nil && FnPkg(f) == "net" && strings.HasPrefix(f.Name(), "Dial")
	}
	var r []*ssa.Function
	for _, g := range goStarts(w) {
		if relPkg(FnPkg(g.In)) == tcpPkg && g.Fn != nil && w.reaches(g.Fn, dial) {
			r = append(r, g.Fn)
		}
	}
	return r
}

func init() {
	register("C08", "The goroutine that keeps the collector session is explored on all abstract paths with the streams modelled as item lists: dialling, the announcement, the deadline, the read-decode-handle-answer cycle, the error exits and closing are compared with the session protocol; the streaming handlers may only emit whole frames.",
		func(c *Ctx) {
			roots := sessionRoots(c.W)
			if len(roots) == 0 {
				c.Bad("anchor", tcpPkg+".StartTcp", "-", "no goroutine of the session package opens a connection")
				return
			}
			for _, fn := range roots {
				c.Ob("session", FnName(fn))
				m := &session{c: c, e: NewEngine(c.W), root: fn, rule: "session", counts: map[string]int{}}
				e := m.e
				e.NoHavoc = func(*Call) bool { return true }
				e.KeepFact = func(*Term) bool { return true }
				e.WidenAt = 1 << 30
				e.OnCall = m.model
				e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
					if neg, c0 := false, cond; true {
						for c0.Op == "not" {
							c0, neg = c0.Args[0], !neg
						}
						if taken != neg && c0.Op == "bin" && c0.Aux == "==" && (m.isConn(s, c0.Args[0]) && c0.Args[1].IsNil() || m.isConn(s, c0.Args[1]) && c0.Args[0].IsNil()) {
							s.Set("!prune", "1") // a dialled connection is not nil
							return
						}
						if c0.Op == "bin" && c0.Aux == "==" && taken == neg && (strings.HasPrefix(c0.Args[0].Aux, "werr@") || strings.HasPrefix(c0.Args[1].Aux, "werr@")) {
							s.Set("encbad", "1") // encoding failed
						}
					}
					if er := m.term(s, "err"); er != nil {
						switch v := e.Eval(s, e.eqT(er, e.TT.mk("nil", "", errType, nil))); {
						case v > 0:
							s.Set("errst", "ok")
						case v < 0:
							s.Set("errst", "bad")
						}
					}
					if er := m.term(s, "derr"); er != nil && e.Eval(s, e.eqT(er, e.TT.mk("nil", "", errType, nil))) < 0 {
						s.Set("conn", "")
						s.Set("derr", "")
					}
				}
				reset := func() { m.counts = map[string]int{} }
				// leaving a function with the connection: errors reported, connection closed
				e.OnInstr = func(s *State, in ssa.Instruction) {
					if _, ok := in.(*ssa.Return); !ok || s.Get("ph") == "" {
						return
					}
					if s.Get("closed") == "1" && s.Get("ph") == "h" {
						// the session ends after a handled command: the answer must be complete unless sending failed
						er := m.term(s, "err")
						if er != nil && e.Eval(s, e.eqT(er, e.TT.mk("nil", "", errType, nil))) > 0 && s.Get("encbad") == "" {
							m.reply(s, c.W.At(in))
						}
						s.Set("ph", "end")
					}
				}
				e.Run(fn, nil, nil, reset)
				c.Use(e, FnName(fn))
				for _, k := range []string{"dial", "read", "handle", "reply"} {
					if m.counts[k] == 0 {
						c.Bad("session", FnName(fn)+"/"+k, c.W.FnAt(fn), "no path of the session reaches this step")
					}
				}
			}
			// handlers that stream write whole frames only
			for _, f := range c.W.Funcs {
				if relPkg(FnPkg(f)) != dumpPkg || f.Object() == nil || !f.Object().Exported() {
					continue
				}
				for i, p := range f.Params {
					if isNd(p.Type(), "DataOutputX") {
						frames(c, f, i)
					}
				}
			}
			c.Floor("session", 1)
			c.Floor("frames", 2)
		})
}

// frames checks that a handler only writes (HasNEXT, blob) pairs to its output.
func frames(c *Ctx, fn *ssa.Function, oi int) {
	c.Ob("frames", FnName(fn))
	e := NewEngine(c.W)
	e.NoHavoc = func(*Call) bool { return true }
	e.WidenAt = 1 << 30
	e.KeepFact = func(*Term) bool { return true }
	ps := e.Params(fn)
	n := 0
	bad := func(s *State, at, msg string) {
		if !e.Dry {
			c.Bad("frames", FnName(fn), at, msg, s.Trace()...)
		}
	}
	tm := func(s *State, k string) *Term {
		if v := s.Get(k); v != "" {
			return e.TT.list[atoi(v)]
		}
		return nil
	}
	// unsent reports a part that was read but not sent when the next one is read or the handler ends
	unsent := func(s *State, at string) {
		er := tm(s, "rerr")
		if er == nil {
			return
		}
		if e.Eval(s, e.eqT(er, e.TT.mk("nil", "", errType, nil))) >= 0 {
			bad(s, at, "a part that was read is not sent")
		} else if s.Get("read") == "ReadAt" {
			if cnt := tm(s, "cnt"); s.Get("other") == "" && e.Eval(s, e.TT.Bin(token.LSS, e.TT.Const(constant.MakeInt64(0), cnt.Typ), cnt, types.Typ[types.Bool])) >= 0 && e.Eval(s, e.eqInt(cnt, 0)) <= 0 {
				bad(s, at, "the last part of the file is not sent")
			}
		}
		s.Set("rerr", "")
	}
	// a loop's read position: zero at first, then increased by the length of each part
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		for ph, in := range phis {
			if in == nil || !isIntTerm(ph) {
				continue
			}
			in = in.StripConv()
			if v, ok := in.Int(); ok && v == 0 && !back {
				s.Set("off", fmt.Sprint(ph.ID))
			}
			if back && s.Get("at") == fmt.Sprint(ph.ID) {
				cnt := tm(s, "cnt")
				if cnt != nil && toPoly(in, nil).eq(toPoly(ph, nil).add(toPoly(cnt, nil), 1)) {
					s.Set("off", fmt.Sprint(ph.ID))
				}
			}
		}
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		// the read failed with something else than the end of the file
		if er := tm(s, "rerr"); er != nil {
			pos := taken
			for cond.Op == "not" {
				cond, pos = cond.Args[0], !pos
			}
			if cond.Op == "bin" && cond.Aux == "==" && (cond.Args[0] == er || cond.Args[1] == er) && !cond.Mentions(func(t *Term) bool { return t.Op == "nil" }) && !pos {
				s.Set("other", "1")
			}
		}
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		at := c.W.At(k.Instr)
		if k.Fn != nil && k.Fn.Signature.Recv() != nil && !c.W.InRepo(k.Fn) && (k.Fn.Name() == "Read" || k.Fn.Name() == "ReadAt") && len(k.Args) > 1 {
			unsent(s, at)
			sig := k.Fn.Signature.Results()
			cnt := e.TT.mk("call", "count@"+k.Site, sig.At(0).Type(), nil)
			er := e.TT.mk("call", "readerr@"+k.Site, errType, nil)
			e.forget(s, cnt)
			e.forget(s, er)
			s.Set("buf", fmt.Sprint(k.Args[1].ID))
			s.Set("cnt", fmt.Sprint(cnt.ID))
			s.Set("rerr", fmt.Sprint(er.ID))
			s.Set("read", k.Fn.Name())
			if k.Fn.Name() == "ReadAt" {
				o := k.Args[2].StripConv()
				if v, ok := o.Int(); !(ok && v == 0) && s.Get("off") != fmt.Sprint(o.ID) {
					bad(s, at, "the next part is not read from where the last one ended: "+o.String())
				}
				s.Set("off", "")
				s.Set("at", fmt.Sprint(k.Args[2].ID))
			}
			return e.TT.mk("tuple", "", sig, nil, cnt, er), true
		}
		w, ok := methodOn(k.Fn, ndPkg, "DataOutputX")
		kind, prim := outPrims[w]
		if !ok || !prim || k.Args[0] != ps[oi] {
			return nil, false
		}
		sig := k.Fn.Signature.Results()
		er := e.TT.mk("call", "werr@"+k.Site, errType, nil)
		e.forget(s, er)
		r := er
		if sig.Len() == 2 {
			r = e.TT.mk("tuple", "", sig, nil, k.Args[0], er)
		}
		if s.Get("f") == "" {
			if kind != "1" || !sameConst(k.Args[1].StripConv(), 3) {
				bad(s, at, "a frame does not begin with the HasNEXT flag")
			}
			s.Set("f", "1")
		} else {
			if kind != "blob" {
				bad(s, at, "a frame carries "+kind+" instead of a blob")
			}
			s.Set("f", "")
			b, cnt := k.Args[1], tm(s, "cnt")
			lo := func(t *Term) bool { v, ok := t.Int(); return t.Op == "none" || ok && v == 0 }
			if cnt == nil || tm(s, "rerr") == nil || b.Op != "slice" || len(b.Args) != 4 || b.Args[0] != tm(s, "buf") || !lo(b.Args[1]) || b.Args[2] != cnt {
				bad(s, at, "a frame does not carry the bytes just read: "+b.String())
			}
			s.Set("rerr", "")
			n++
		}
		return r, true
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if s.Get("f") != "" {
			bad(s, c.W.At(in), "the handler ends in the middle of a frame")
		}
		if !e.Dry && s.Get("sendfail") == "" {
			unsent(s, c.W.At(in))
		}
	}
	e.Run(fn, ps, nil, nil)
	c.Use(e, FnName(fn))
	if n == 0 {
		c.Bad("frames", FnName(fn), c.W.FnAt(fn), "no path writes a frame")
	}
}
