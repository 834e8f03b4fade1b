package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// traceMon explores one exported tracing function with the calls around a trace modelled.
type traceMon struct {
	c      *Ctx
	e      *Engine
	fn     *ssa.Function
	rule   string
	ps     []*Term
	life   *lifeMon
	onStep func(s *State, at, op string, coll, step *Term) // Add, Push, Pop of a collector
	onReg  func(s *State, at string, tab, key, val *Term)  // entry into the active table
	onHdr  func(s *State, at string, h, k, v *Term)        // header set
	onDyn  func(s *State, k *Call)                         // call of an unknown function value
	events bool
}

func (m *traceMon) bad(s *State, at, msg string) {
	m.c.Bad(m.rule, FnName(m.fn), at, msg, s.Trace()...)
}

func newTrace(c *Ctx, fn *ssa.Function, rule string) *traceMon {
	c.Ob(rule, FnName(fn))
	m := &traceMon{c: c, e: NewEngine(c.W), fn: fn, rule: rule}
	e := m.e
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(*Term) bool { return true }
	e.WidenAt = 1 << 30

	m.ps = e.Params(fn)
	e.OnCall = m.model
	return m
}

func (m *traceMon) model(s *State, k *Call) (*Term, bool) {
	e, c := m.e, m.c
	at := c.W.At(k.Instr)
	mk := func(name string, typ types.Type, args ...*Term) (*Term, bool) {
		return e.TT.mk("call", name, typ, nil, args...), true
	}
	if k.Method != nil && k.Fn == nil {
		if k.Method.Pkg() != nil && k.Method.Pkg().Path() == "context" && k.Method.Name() == "Value" {
			if k.Recv.Op == "call" && k.Recv.Aux == "Background" {
				return e.TT.mk("nil", "", k.Method.Type().(*types.Signature).Results().At(0).Type(), nil), true
			}
			return mk("ctx.Value", k.Method.Type().(*types.Signature).Results().At(0).Type(), k.Recv, k.Args[0])
		}
		if k.Method.Name() == "Error" {
			return mk("err.Error", types.Typ[types.String], k.Recv)
		}
		return nil, false
	}
	f := k.Fn
	if f == nil {
		if k.Kind == "call" && m.onDyn != nil && !e.Dry {
			m.onDyn(s, k)
		}
		return nil, false
	}
	if textSender(f) {
		return mk(f.Name(), types.Typ[types.Int32], k.Args...)
	}
	if n, ok := methodOn(f, nioPkg, "ProfileCollector"); ok {
		if n == "Add" || n == "Push" || n == "Pop" {
			if !e.Dry && m.onStep != nil {
				m.onStep(s, at, n, k.Args[0], unboxS(k.Args[1]))
			}
			return nil, true
		}
		if !e.Dry && n != "Close" {
			m.bad(s, at, "unexpected use of the profile: "+n)
		}
		return nil, true
	}
	if n, ok := methodOn(f, lraPkg, "Cache"); ok {
		if n == "Add" && !e.Dry && m.onReg != nil {
			m.onReg(s, at, k.Args[0], k.Args[1], k.Args[2])
		}
		return nil, true
	}
	switch {
	case isFn(f, "common/util", "MillisToNow"):
		return mk("MillisToNow", types.Typ[types.Int32], k.Args...)
	case isFn(f, "common/util", "IntToXlogString32"), isFn(f, "common/util", "IpToBytes"):
		return mk(f.Name(), f.Signature.Results().At(0).Type(), k.Args...)
	case isFn(f, "common", "Goid"):
		return mk("Goid", types.Typ[types.Int])
	case isFn(f, nioPkg, "NewProfileCollector"):
		return mk("NewProfileCollector", f.Signature.Results().At(0).Type(), k.Args...)
	case isFn(f, "common/util/keygen", "Next"):
		return mk("keygen.Next@"+k.Site, types.Typ[types.Int64])
	case isExt(f, "context", "WithValue"):
		return mk("WithValue", f.Signature.Results().At(0).Type(), k.Args...)
	case isExt(f, "context", "Background"), isExt(f, "context", "TODO"):
		return mk("Background", f.Signature.Results().At(0).Type())
	case isExt(f, "fmt", "Sprintf"), isExt(f, "fmt", "Sprint"), isExt(f, "strings", "Join"):
		// the text shows the elements of its argument list
		args := append([]*Term(nil), k.Args...)
		for _, a := range k.Args {
			for _, x := range e.elems(s, a) {
				args = append(args, unboxS(x))
			}
		}
		return mk(FnPkg(f)+"."+f.Name(), types.Typ[types.String], args...)
	case isExtMethod(f, "net/http", "Header", "Add"), isExtMethod(f, "net/http", "Header", "Set"):
		if !e.Dry && m.onHdr != nil {
			m.onHdr(s, at, k.Args[0], k.Args[1], k.Args[2])
		}
		return nil, true
	case isExtMethod(f, "net/http", "Header", "Get"), isExtMethod(f, "net/http", "Request", "UserAgent"), isExtMethod(f, "net/http", "Request", "Referer"):
		return mk("http."+f.Name(), types.Typ[types.String], k.Args...)
	case isExtMethod(f, "strings", "Builder", "String"):
		return nil, false
	}
	if _, _, _, ok := isCAS(k); ok {
		return nil, true
	}
	if FnPkg(f) == "sync" {
		return nil, true
	}
	return nil, false
}

// fieldPath reads a possibly nested field (a.b) of an object.
func (e *Engine) fieldPath(s *State, obj *Term, path string) *Term {
	parts := strings.Split(path, ".")
	obj = unboxS(obj)
	for i, p := range parts {
		st, ok := deref(obj.Typ).Underlying().(*types.Struct)
		if !ok {
			break
		}
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == p {
				t := st.Field(j).Type()
				a := e.TT.mk("fieldaddr", p, types.NewPointer(t), nil, obj)
				if i == len(parts)-1 {
					return e.Load(s, a, t)
				}
				obj = a
			}
		}
	}
	return e.TT.mk("fresh", "nofield", nil, nil)
}

// startTime: the trace's start time.
func (m *traceMon) since(s *State, tc *Term) *Term {
	return m.e.TT.mk("call", "MillisToNow", types.Typ[types.Int32], nil, m.e.fieldAt(s, tc, "StartTime"))
}
func (m *traceMon) text(fn string, v *Term) *Term {
	return m.e.TT.mk("call", fn, types.Typ[types.Int32], nil, v)
}
func (m *traceMon) hash(v, x *Term, s *State) bool {
	return v == x || len(x.Args) == 1 && m.e.Eval(s, m.e.TT.Bin(token.EQL, x.Args[0], m.e.str(""), types.Typ[types.Bool])) > 0 && sameConst(v, 0)
}

// old reads what a field held before the call.
func (m *traceMon) old(obj *Term, name string) *Term {
	st := deref(obj.Typ).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == name {
			return m.e.TT.mk("load", "", f.Type(), nil, m.e.TT.mk("fieldaddr", name, types.NewPointer(f.Type()), nil, obj))
		}
	}
	return nil
}

// tctx is the trace the context parameter carries on this path (nil when it carries none).
func (m *traceMon) tctx(s *State) *Term {
	e := m.e
	for id, f := range s.facts {
		t := e.TT.list[id]
		if t.Op == "istype" && isTctxT(t.Typ) && f.truth > 0 {
			a := e.TT.mk("assert", "", t.Typ, nil, t.Args[0])
			if e.IsNil(s, a) {
				return nil
			}
			if t.Args[0].Op == "call" && t.Args[0].Args[0] == m.ps[0] {
				return a
			}
		}
	}
	return nil
}

// untracked: the path knows that the context carries no trace.
func (m *traceMon) untracked(s *State) bool {
	e := m.e
	for id, f := range s.facts {
		t := e.TT.list[id]
		switch {
		case t.Op == "istype" && isTctxT(t.Typ) && f.truth < 0,
			isTctxT(t.Typ) && f.eq != nil && f.eq.IsNil(),
			t.Op == "param" && f.eq != nil && f.eq.IsNil():
			return true
		}
	}
	return false
}

// onlyStores checks that the trace's fields change only where expected.
func (m *traceMon) watchStores(allowed string) {
	m.e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if addr.Op == "fieldaddr" && isTctxT(addr.Args[0].Typ) && addr.Args[0].Op != "alloc" && !strings.Contains(" "+allowed+" ", " "+addr.Aux+" ") {
			m.bad(s, m.c.W.At(in), "the call changes the trace's "+addr.Aux)
		}
	}
}

type stepCall struct {
	fn, op, typ string
	fields      map[string]func(m *traceMon, s *State, tc *Term) *Term
	stores      string
	after       func(m *traceMon, s *State, at string, tc *Term, res []*Term)
	params      int // index of the variadic parameters recorded before the step, 0 for none
	passed      int // the step recorded is this parameter
}

func fParam(i int) func(m *traceMon, s *State, tc *Term) *Term {
	return func(m *traceMon, s *State, tc *Term) *Term { return m.ps[i] }
}
func fHash(fn string, i int) func(m *traceMon, s *State, tc *Term) *Term {
	return func(m *traceMon, s *State, tc *Term) *Term { return m.text(fn, m.ps[i]) }
}
func fSince(m *traceMon, s *State, tc *Term) *Term { return m.since(s, tc) }
func fInt(v int64) func(m *traceMon, s *State, tc *Term) *Term {
	return func(m *traceMon, s *State, tc *Term) *Term { return m.e.intT(v) }
}

func sameVal(a, b *Term) bool {
	if a == b || a.StripConv() == b.StripConv() {
		return true
	}
	x, ok1 := a.Int()
	y, ok2 := b.Int()
	return ok1 && ok2 && x == y
}

func (m *traceMon) paramStep(s *State, at string, tc, step *Term, params *Term) {
	e := m.e
	if !isNamedT(step.Typ, ndPkg, "MessageStep") {
		m.bad(s, at, "another step than the parameter's message is added")
		return
	}
	msg := e.fieldAt(s, step, "Message")
	if !msg.Mentions(func(t *Term) bool { return t.Op == "call" && strings.Contains(t.Aux, "Sprint") }) {
		m.bad(s, at, "the parameter's message does not show the parameter: "+msg.String())
	}
	s.Set("padd", s.Get("padd")+"1")
}

func checkStepCall(c *Ctx, sc stepCall) {
	fn := c.Need(stPkg, "", sc.fn)
	if fn == nil {
		return
	}
	m := newTrace(c, fn, "step")
	e := m.e
	m.onStep = func(s *State, at, op string, coll, step *Term) {
		tc := m.tctx(s)
		if tc == nil {
			m.bad(s, at, "a step is recorded without a trace")
			return
		}
		if !isFieldLoad(coll, tc, "Profile") {
			m.bad(s, at, "the step is recorded in another profile: "+coll.String())
		}
		if sc.params > 0 && op == "Add" {
			m.paramStep(s, at, tc, step, nil)
			return
		}
		if op != sc.op {
			m.bad(s, at, "the step is recorded with "+op+" instead of "+sc.op)
		}
		if s.Get("rec") != "" {
			m.bad(s, at, "the step is recorded twice")
		}
		s.Set("rec", fmt.Sprint(step.ID))
		if sc.passed > 0 && step != unboxS(m.ps[sc.passed]) {
			m.bad(s, at, "another step is recorded: "+step.String())
			return
		}
		if sc.typ != "" && !isNamedT(step.Typ, ndPkg, sc.typ) {
			m.bad(s, at, "the step recorded is not a "+sc.typ)
			return
		}
		for _, f := range sortedKeysF(sc.fields) {
			want := sc.fields[f](m, s, tc)
			got := e.fieldPath(s, step, f)
			if !sameVal(got, want) && !(want.Op == "call" && m.hash(got, want, s)) {
				m.bad(s, at, fmt.Sprintf("the step's %s is %s, must be %s", f, got, want))
			}
		}
	}
	m.watchStores(sc.stores)
	if sc.params > 0 {
		e.OnIndex = func(s *State, in ssa.Instruction, x, i *Term) {
			if !e.Dry && x == m.ps[sc.params] {
				s.Set("cur", "1")
			}
		}
		e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
			if !back {
				s.Set("L", "1")
				s.Set("padd", "")
				return
			}
			nilParam := false
			for id, f := range s.facts {
				t := e.TT.list[id]
				if t.Op == "load" && t.Args[0].Op == "indexaddr" && f.eq != nil && f.eq.IsNil() {
					nilParam = true
				}
			}
			if n := len(s.Get("padd")); n > 1 || n == 0 && !nilParam {
				m.bad(s, c.W.FnAt(fn), fmt.Sprintf("a parameter is recorded %d times", n))
			}
			s.Set("padd", "")
			s.Set("cur", "")
		}
	}
	n := 0
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := c.W.At(in)
		tc := m.tctx(s)
		if tc == nil {
			if !m.untracked(s) {
				m.bad(s, at, "the call returns without looking for the trace")
			}
			return
		}
		if s.Get("rec") == "" {
			if !m.untracked(s) {
				m.bad(s, at, "no step is recorded")
			}
			return
		}
		n++
		if sc.params > 0 && s.Get("L") == "" {
			p := m.ps[sc.params]
			if !e.IsNil(s, p) {
				if iv := e.Ival(s, e.TT.mk("len", "", types.Typ[types.Int], nil, p)); iv.hi > 0 {
					m.bad(s, at, "the parameters are not recorded")
				}
			}
		}
		if s.Get("cur") != "" {
			m.bad(s, at, "the remaining parameters are not recorded")
		}
		if sc.after != nil {
			sc.after(m, s, at, tc, res)
		}
	}
	e.Run(fn, m.ps, nil, nil)
	c.Use(e, FnName(fn))
	if n == 0 {
		c.Bad(m.rule, FnName(fn), c.W.FnAt(fn), "the call never records a step")
	}
}

func sortedKeysF(mm map[string]func(m *traceMon, s *State, tc *Term) *Term) []string {
	x := map[string]string{}
	for k := range mm {
		x[k] = ""
	}
	return sortedKeys(x)
}

// returnsStep: the function hands the recorded step to its caller.
func returnsStep(m *traceMon, s *State, at string, tc *Term, res []*Term) {
	if len(res) != 1 || fmt.Sprint(unboxS(res[0]).ID) != s.Get("rec") {
		m.bad(s, at, "the step recorded is not the one returned")
	}
}

func stepCalls() []stepCall {
	type fm = map[string]func(m *traceMon, s *State, tc *Term) *Term
	elapsed := func(i int) func(m *traceMon, s *State, tc *Term) *Term {
		return func(m *traceMon, s *State, tc *Term) *Term {
			e := m.e
			st := m.ps[i]
			return e.TT.Bin(token.SUB, m.since(s, tc), e.fieldPath(s, st, "SingleStep.StartTime"), types.Typ[types.Int32])
		}
	}
	api := fm{"Hash": fHash("SendApicall", 1), "SingleStep.StartTime": fSince, "Address": fParam(2)}
	apiP := fm{"Hash": fHash("SendApicall", 2), "SingleStep.StartTime": fSince, "Address": fParam(3)}
	afterApi := func(addr int) func(m *traceMon, s *State, at string, tc *Term, res []*Term) {
		return func(m *traceMon, s *State, at string, tc *Term, res []*Term) {
			returnsStep(m, s, at, tc, res)
			e := m.e
			st := unboxS(res[0])
			opt := e.fieldAt(s, st, "Opt")
			empty := e.Eval(s, e.TT.Bin(token.EQL, m.ps[addr], e.str(""), types.Typ[types.Bool]))
			if empty == 0 || !sameConst(opt, map[bool]int64{true: 0, false: 1}[empty > 0]) {
				m.bad(s, at, "the option says not whether there is an address: "+opt.String())
			}
			if id := e.fieldAt(s, st, "Txid"); !(id.Op == "call" && strings.HasPrefix(id.Aux, "keygen.Next@")) {
				m.bad(s, at, "the call step has no id of its own: "+id.String())
			}
		}
	}
	return []stepCall{
		{fn: "AddStep", op: "Add", passed: 1},
		{fn: "AddMessageStep", op: "Add", typ: "MessageStep", fields: fm{"Message": fParam(1), "SingleStep.StartTime": fSince}},
		{fn: "AddHashedMessageStep", op: "Add", typ: "HashedMessageStep", fields: fm{"Hash": fHash("SendHashedMessage", 1), "Value": fParam(2), "Time": fParam(3), "SingleStep.StartTime": fSince}},
		{fn: "AddPMessageStep", op: "Add", typ: "PMessageStep", fields: fm{"Level": fParam(1), "Hash": fHash("SendHashedMessage", 2), "Elapsed": fParam(3), "SingleStep.StartTime": fSince}},
		{fn: "MarkAsError", op: "Add", typ: "PMessageStep", stores: "Error", fields: fm{"Level": fInt(3), "Hash": fHash("SendHashedMessage", 1), "SingleStep.StartTime": fSince},
			after: func(m *traceMon, s *State, at string, tc *Term, res []*Term) {
				e := m.e
				old := m.old(tc, "Error")
				now := e.fieldAt(s, tc, "Error")
				switch e.Eval(s, e.eqInt(old, 0)) {
				case 1:
					if now != m.text("SendError", m.ps[1]) {
						m.bad(s, at, "the first error is not the message given: "+now.String())
					}
				case -1:
					if now != old {
						m.bad(s, at, "an error recorded earlier is replaced")
					}
				default:
					m.bad(s, at, "the error is set or kept regardless of an earlier one")
				}
			}},
		{fn: "StartMethod", op: "Push", typ: "MethodStep", stores: "LastMethod", fields: fm{"SingleStep.StartTime": fSince}, after: func(m *traceMon, s *State, at string, tc *Term, res []*Term) {
			returnsStep(m, s, at, tc, res)
			isMethod(m, s, at, res)
		}},
		{fn: "StartMethodWithParam", op: "Push", typ: "MethodStep", stores: "LastMethod", params: 1, fields: fm{"SingleStep.StartTime": fSince}, after: func(m *traceMon, s *State, at string, tc *Term, res []*Term) {
			returnsStep(m, s, at, tc, res)
			isMethod(m, s, at, res)
		}},
		{fn: "StartCustomMethod", op: "Push", typ: "MethodStep", stores: "LastMethod", fields: fm{"Hash": fHash("SendMethod", 1), "SingleStep.StartTime": fSince}, after: returnsStep},
		{fn: "StartCustomMethodWithParam", op: "Push", typ: "MethodStep", stores: "LastMethod", params: 2, fields: fm{"Hash": fHash("SendMethod", 1), "SingleStep.StartTime": fSince}, after: returnsStep},
		{fn: "EndMethod", op: "Pop", passed: 1, fields: fm{"Elapsed": elapsed(1)}},
		{fn: "StartApiCall", op: "Push", typ: "ApiCallStep", fields: api, after: afterApi(2)},
		{fn: "StartApiCallWithPropagation", op: "Push", typ: "ApiCallStep", stores: "Gxid", fields: apiP, after: afterApi(3)},
		{fn: "EndApiCall", op: "Pop", passed: 1, stores: "ApicallCount ApicallTime Error", fields: fm{"Elapsed": elapsed(1)}, after: func(m *traceMon, s *State, at string, tc *Term, res []*Term) {
			e := m.e
			el := e.fieldAt(s, m.ps[1], "Elapsed")
			if n := e.fieldAt(s, tc, "ApicallCount"); !toPoly(n, nil).eq(toPoly(m.old(tc, "ApicallCount"), nil).add(polyConst(1), 1)) {
				m.bad(s, at, "the API-call count does not grow by one: "+n.String())
			}
			if n := e.fieldAt(s, tc, "ApicallTime"); !toPoly(n, nil).eq(toPoly(m.old(tc, "ApicallTime"), nil).add(toPoly(el, nil), 1)) {
				m.bad(s, at, "the API-call time does not grow by the call's elapsed time: "+n.String())
			}
			old, now := m.old(tc, "Error"), e.fieldAt(s, tc, "Error")
			ser := e.fieldAt(s, m.ps[1], "Error")
			failed := -e.Eval(s, e.TT.Bin(token.EQL, m.ps[2], e.TT.mk("nil", "", nil, nil), types.Typ[types.Bool]))
			want := e.TT.mk("call", "SendError", types.Typ[types.Int32], nil, e.TT.mk("call", "err.Error", types.Typ[types.String], nil, m.ps[2]))
			switch {
			case failed == 0:
				m.bad(s, at, "the call's error is not looked at")
			case failed > 0 && ser != want:
				m.bad(s, at, "the call step does not carry the call's error: "+ser.String())
			case failed < 0 && (now != old || ser != m.old(m.ps[1], "Error")):
				m.bad(s, at, "an error is recorded for a call without one")
			case failed > 0:
				switch e.Eval(s, e.eqInt(old, 0)) {
				case 1:
					if now != want {
						m.bad(s, at, "the trace does not get the call's error: "+now.String())
					}
				case -1:
					if now != old {
						m.bad(s, at, "an error recorded earlier is replaced")
					}
				default:
					m.bad(s, at, "the trace's error is set or kept regardless of an earlier one")
				}
			}
		}},
	}
}

func isMethod(m *traceMon, s *State, at string, res []*Term) {
	h := m.e.fieldAt(s, unboxS(res[0]), "Hash")
	if h.Op != "call" || h.Aux != "SendMethod" {
		m.bad(s, at, "the method step's hash is not a method name's: "+h.String())
	}
}

// setters: functions that change one attribute of the trace.
func checkSetter(c *Ctx, name, stores string, want func(m *traceMon, s *State, at string, tc *Term, res []*Term)) {
	fn := c.Need(stPkg, "", name)
	if fn == nil {
		return
	}
	m := newTrace(c, fn, "attribute")
	m.watchStores(stores)
	n := 0
	m.e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := c.W.At(in)
		tc := m.tctx(s)
		if tc == nil {
			if !m.untracked(s) {
				m.bad(s, at, "the call returns without looking for the trace")
			}
			return
		}
		n++
		want(m, s, at, tc, res)
	}
	m.e.Run(fn, m.ps, nil, nil)
	c.Use(m.e, FnName(fn))
	if n == 0 {
		c.Bad(m.rule, FnName(fn), c.W.FnAt(fn), "the call never reaches the trace")
	}
}

func init() {
	register("C11", "All abstract paths of EndService, EndHttpService and the stuck handler: at the point where the xlog is handed to the UDP sender every field of the pack is compared with the value the trace holds (profile counters as left by closing the profile). EndHttpService must have stored the response status before.",
		func(c *Ctx) {
			tab := activeTable(c)
			if tab == "" {
				return
			}
			for _, fn := range endRoots(c) {
				c.Ob("xlog", FnName(fn))
				m := newLife(c, fn, "xlog", tab)
				e := m.e
				n := 0
				m.onClose = func(s *State, at string, tc, w *Term) {
					for _, f := range []string{"ServiceHash"} {
						if v := e.fieldAt(s, tc, f); v.Op != "call" || v.Aux != "SendServiceName" || v.Args[0] != e.fieldAt(s, tc, "ServiceName") {
							m.bad(s, at, "the profile is closed while the service hash is not the hash of the service name: "+v.String())
						}
					}
				}
				m.onXlog = func(s *State, at string, x *Term) {
					n++
					tc := m.tctxOf(s)
					get := func(f string) *Term { return e.fieldAt(s, x, f) }
					tf := func(f string) *Term { return e.fieldAt(s, tc, f) }
					for xf, src := range map[string]string{"XType": "XType", "Txid": "Txid", "Gxid": "Gxid", "Caller": "Caller", "SqlCount": "SqlCount", "SqlTime": "SqlTime", "Userid": "Userid",
						"Error": "Error", "Status": "Status", "UserAgent": "UserAgent", "Referer": "Referer", "ApicallCount": "ApicallCount", "ApicallTime": "ApicallTime",
						"Text1": "Text1", "Text2": "Text2", "Text3": "Text3", "Text4": "Text4", "Text5": "Text5", "Service": "ServiceHash"} {
						c.Ob("xlog-field", FnName(fn)+" "+xf)
						if v := get(xf); !sameVal(v, tf(src)) {
							c.Bad("xlog-field", FnName(fn)+" "+xf, at, fmt.Sprintf("the xlog's %s is %s, not the trace's %s", xf, v, src), s.Trace()...)
						}
					}
					for _, f := range []string{"ProfileCount", "ProfileSize"} {
						c.Ob("xlog-field", FnName(fn)+" "+f)
						if v := get(f).StripConv(); v.Op != "call" || v.Aux != "closed."+f || v.Args[0] != tc {
							c.Bad("xlog-field", FnName(fn)+" "+f, at, fmt.Sprintf("the xlog's %s is %s, not the trace's count after its profile was closed", f, v), s.Trace()...)
						}
					}
					if v := get("Service"); !(v.Op == "call" && v.Aux == "SendServiceName" && v.Args[0] == tf("ServiceName")) {
						m.bad(s, at, "the service is not the hash of the trace's service name: "+v.String())
					}
					for xf, fnm := range map[string]string{"Login": "SendLogin", "Desc": "SendDesc"} {
						v, src := get(xf), tf(xf)
						empty := e.Eval(s, e.TT.Bin(token.EQL, src, e.str(""), types.Typ[types.Bool]))
						if !(v.Op == "call" && v.Aux == fnm && v.Args[0] == src) && !(empty > 0 && sameConst(v, 0)) {
							m.bad(s, at, fmt.Sprintf("the xlog's %s is %s, not the hash of the trace's %s", xf, v, xf))
						}
					}
					if v := get("Ipaddr"); !(v.Op == "call" && v.Aux == "IpToBytes" && v.Args[0] == tf("RemoteIp")) {
						m.bad(s, at, "the xlog's address is not the trace's: "+v.String())
					}
					if v := get("Elapsed"); !(v.Op == "call" && v.Aux == "MillisToNow" && v.Args[0] == tf("StartTime")) {
						m.bad(s, at, "the elapsed time is not the time since the trace started: "+v.String())
					}
					if v := get("ObjHash"); !isConfLoad(v, "ObjHash") {
						m.bad(s, at, "the object hash is not the configured one: "+v.String())
					}
					if fn.Name() == "EndHttpService" {
						res := m.ps[2]
						st := tf("Status").StripConv()
						isRes := st.Op == "load" && st.Args[0].Op == "fieldaddr" && st.Args[0].Aux == "StatusCode" && st.Args[0].Args[0] == res
						switch r := e.Eval(s, e.TT.Bin(token.EQL, res, e.TT.mk("nil", "", nil, nil), types.Typ[types.Bool])); {
						case r < 0 && !isRes:
							m.bad(s, at, "the status is not the response's: "+st.String())
						case r == 0:
							m.bad(s, at, "the response is not looked at")
						}
					}
				}
				e.OnCall = func(s *State, k *Call) (*Term, bool) {
					if isFn(k.Fn, "common/util", "MillisToNow") || isFn(k.Fn, "common/util", "IpToBytes") {
						return e.TT.mk("call", k.Fn.Name(), k.Fn.Signature.Results().At(0).Type(), nil, k.Args...), true
					}
					return m.model(s, k)
				}
				e.Run(fn, m.ps, nil, nil)
				c.Use(e, FnName(fn))
				if n == 0 {
					c.Bad("xlog", FnName(fn), c.W.FnAt(fn), "no path sends an xlog")
				}
			}
			c.Floor("xlog", 3)
			c.Floor("xlog-field", 63)
		})

	register("C12", "Every exported call that records a step or an attribute is explored on all abstract paths: with a trace in the context it must hand exactly the right step (fields compared with the arguments) to that trace's profile by the right operation once, and change no other attribute.",
		func(c *Ctx) {
			for _, sc := range stepCalls() {
				checkStepCall(c, sc)
			}
			checkSetter(c, "MarkAsErrorForcibly", "Error", func(m *traceMon, s *State, at string, tc *Term, res []*Term) {
				if v := m.e.fieldAt(s, tc, "Error"); !m.hash(v, m.text("SendError", m.ps[1]), s) {
					m.bad(s, at, "the error is not the message given: "+v.String())
				}
			})
			checkSetter(c, "SetServiceNameForcibly", "ServiceName ServiceHash", func(m *traceMon, s *State, at string, tc *Term, res []*Term) {
				if v := m.e.fieldAt(s, tc, "ServiceName"); v != m.ps[1] {
					m.bad(s, at, "the service name is not the one given: "+v.String())
				}
				if v := m.e.fieldAt(s, tc, "ServiceHash"); !m.hash(v, m.text("SendServiceName", m.ps[1]), s) {
					m.bad(s, at, "the service hash is not the name's: "+v.String())
				}
			})
			checkSetter(c, "SetAsStream", "IsStream", func(m *traceMon, s *State, at string, tc *Term, res []*Term) {
				if b, ok := m.e.fieldAt(s, tc, "IsStream").Bool(); !ok || !b {
					m.bad(s, at, "the trace is not marked as stream")
				}
				if b, ok := res[0].Bool(); !ok || !b {
					m.bad(s, at, "the caller is told that there is no trace")
				}
			})
			checkSetter(c, "IsStream", "", func(m *traceMon, s *State, at string, tc *Term, res []*Term) {
				if !isFieldLoad(res[0], tc, "IsStream") {
					m.bad(s, at, "the answer is not the trace's mark: "+res[0].String())
				}
			})
			c.Floor("step", 13)
			c.Floor("attribute", 4)
		})
}

func (e *Engine) str(v string) *Term {
	return e.TT.Const(constant.MakeString(v), types.Typ[types.String])
}

// elems are the elements of a slice literal or of variadic arguments.
func (e *Engine) elems(s *State, a *Term) []*Term {
	var r []*Term
	for i := 0; i < arrayLen(a); i++ {
		t := elemType(a.Args[0].Typ).Underlying().(*types.Array).Elem()
		r = append(r, e.Load(s, e.TT.mk("indexaddr", "", types.NewPointer(t), nil, a.Args[0], e.TT.Const(constant.MakeInt64(int64(i)), types.Typ[types.Int])), t))
	}
	return r
}
