package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const confPkg = "conf"
const propsLib = "github.com/magiconair/properties"
const lhmLib = "github.com/emirpasic/gods/maps/linkedhashmap"

// confKey is one configuration key: its field, type, default and the kind shown to the collector.
type confKey struct {
	key, typ, def string
	kind          int64
	clamp         bool // non-positive values fall back to the default
	nodesc        bool
}

// confFields is the documented meaning of the configuration: field -> key.
var confFields = func() map[string]confKey {
	m := map[string]confKey{
		"_trace":                             {"_trace", "bool", "false", 0, false, true},
		"ObjNameSimple":                      {"obj_name", "string", "go1", 1, false, false},
		"ObjType":                            {"obj_type", "string", "golang", 1, false, false},
		"TraceObjSend":                       {"trace_obj_send", "bool", "false", 3, false, false},
		"SendQueueSize":                      {"send_queue_size", "int", "3000", 2, true, false},
		"NetCollectorIP":                     {"net_collector_ip", "string", "127.0.0.1", 1, false, false},
		"NetCollectorUDPPort":                {"net_collector_udp_port", "int", "6100", 2, false, false},
		"NetCollectorTCPPort":                {"net_collector_tcp_port", "int", "6100", 2, false, false},
		"NetCollectorTcpSoTimeoutMs":         {"net_collector_tcp_so_timeout_ms", "int", "60000", 2, false, false},
		"NetCollectorTcpConnectionTimeoutMs": {"net_collector_tcp_connection_timeout_ms", "int", "3000", 2, false, false},
		"UDPMaxBytes":                        {"udp_max_bytes", "int", "60000", 2, true, false},
		"StuckServiceBaseTimeMs":             {"stuck_service_base_time_ms", "int", "300000", 2, false, false},
		"StuckServiceRemoveEnabled":          {"stuck_service_remove_enabled", "bool", "true", 3, false, false},
		"StuckServiceAlertEnabled":           {"stuck_service_alert_enabled", "bool", "true", 3, false, false},
		"TraceActiveserviceYellowTime":       {"trace_activeservice_yellow_time", "int", "3000", 2, false, false},
		"TraceActiveserviceRedTime":          {"trace_activeservice_red_time", "int", "8000", 2, false, false},
		"ProfileStepMaxKeepInMemoryCount":    {"profile_step_max_keep_in_memory_count", "int", "2048", 2, true, false},
		"ProfileStepMaxCount":                {"profile_step_max_count", "int", "1024", 2, true, false},
		"ProfileHttpQuerystringEnabled":      {"profile_http_querystring_enabled", "bool", "false", 3, false, false},
		"ProfileHttpHeaderEnabled":           {"profile_http_header_enabled", "bool", "false", 3, false, false},
		"ProfileHttpHeaderKeys":              {"profile_http_header_keys", "string", "", 4, false, false},
		"TraceHttpClientIpHeaderKey":         {"trace_http_client_ip_header_key", "string", "", 1, false, false},
		"XlogDiscardServicePatterns":         {"xlog_discard_service_patterns", "string", "", 4, false, false},
		"XlogDiscardServiceShowError":        {"xlog_discard_service_show_error", "bool", "true", 3, false, false},
		"XlogSamplingExcludePatterns":        {"xlog_sampling_exclude_patterns", "string", "", 4, false, false},
	}
	for _, p := range [][2]string{{"XlogSampling", "xlog_sampling"}, {"XlogPatternedSampling", "xlog_patterned_sampling"}, {"XlogPatterned2Sampling", "xlog_patterned2_sampling"}, {"XlogPatterned3Sampling", "xlog_patterned3_sampling"}} {
		f, k := p[0], p[1]
		m[f+"Enabled"] = confKey{k + "_enabled", "bool", "false", 3, false, false}
		m[f+"OnlyProfile"] = confKey{k + "_only_profile", "bool", "false", 3, false, false}
		for i, d := range [][2]string{{"100", "2"}, {"500", "7"}, {"1000", "15"}} {
			n := fmt.Sprint(i + 1)
			m[f+"Step"+n+"Ms"] = confKey{k + "_step" + n + "_ms", "int32", d[0], 2, false, false}
			m[f+"Step"+n+"RatePct"] = confKey{k + "_step" + n + "_rate_pct", "int", d[1], 2, false, false}
		}
		m[f+"OverRatePct"] = confKey{k + "_over_rate_pct", "int", "3000", 2, false, false}
		if f != "XlogSampling" {
			m[f+"ServicePatterns"] = confKey{k + "_service_patterns", "string", "", 4, false, false}
		}
	}
	return m
}()

// settings that must have their default as long as nothing was loaded
var initialFields = []string{"NetCollectorIP", "NetCollectorUDPPort", "NetCollectorTCPPort", "NetCollectorTcpSoTimeoutMs", "NetCollectorTcpConnectionTimeoutMs",
	"UDPMaxBytes", "StuckServiceBaseTimeMs", "StuckServiceRemoveEnabled", "StuckServiceAlertEnabled", "TraceActiveserviceYellowTime", "TraceActiveserviceRedTime",
	"SendQueueSize", "ProfileStepMaxKeepInMemoryCount", "ProfileStepMaxCount", "XlogDiscardServiceShowError"}

type confMon struct {
	c    *Ctx
	e    *Engine
	fn   *ssa.Function
	rule string
}

func (m *confMon) bad(s *State, cons, at, msg string) {
	if !m.e.Dry {
		m.c.Bad(m.rule, cons, at, msg, s.Trace()...)
	}
}

func (m *confMon) push(s *State, ev string, args ...*Term) {
	if m.e.Dry {
		return
	}
	for _, a := range args {
		ev += fmt.Sprintf(":%d", a.ID)
	}
	if strings.Contains(";"+s.Get("ev"), ";"+ev+";") {
		return // the same event again, in a loop
	}
	s.Set("ev", s.Get("ev")+ev+";")
}

func (m *confMon) events(s *State) []dumpEv {
	d := dumpMon{e: m.e}
	return d.events(s)
}

func isLockCall(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil || FnPkg(f) != "sync" {
		return false
	}
	switch f.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock":
		return true
	}
	return false
}

func newConfMon(c *Ctx, fn *ssa.Function, rule string) *confMon {
	m := &confMon{c: c, e: NewEngine(c.W), fn: fn, rule: rule}
	m.e.NoHavoc = func(*Call) bool { return true }
	m.e.KeepFact = func(*Term) bool { return true }
	m.e.WidenAt = 1 << 30
	m.e.OnCall = m.call
	return m
}

// listed: a round of the loop over the observers that appends just its observer to a list that started empty.
func (m *confMon) listed(s *State, phis map[*Term]*Term) *Term {
	e := m.e
	for p, v := range phis {
		if v.Op != "append" || v.Args[0] != p {
			continue
		}
		init := e.loopInit[p.ID]
		if init == nil {
			continue
		}
		init = init.Strip()
		empty := init.IsNil() || init.Op == "zero"
		if init.Op == "make" {
			k, ok := init.Args[0].Int()
			empty = ok && k == 0
		}
		els := (&lraMon{e: e}).appended(s, v)
		if len(els) == 1 && phis[els[0]] != nil {
			els[0] = phis[els[0]]
		}
		if empty && len(els) == 1 && els[0].Strip().Op == "res" && els[0].Strip().Aux == "2" && els[0].Strip().Args[0].Op == "next" {
			return p
		}
	}
	return nil
}

func (m *confMon) isSnap(s *State, x *Term) bool {
	x = x.Strip()
	return x.Op == "len" && strconv.Itoa(x.Args[0].Strip().ID) == s.Get("snap") || strconv.Itoa(x.ID) == s.Get("snap")
}

// snapElem: an element of the list of observers.
func (m *confMon) snapElem(s *State, t *Term) bool {
	if s.Get("snap") == "" {
		return false
	}
	t = t.Strip()
	return t.Op == "load" && t.Args[0].Op == "indexaddr" && m.isSnap(s, t.Args[0].Args[0])
}

func (m *confMon) call(s *State, k *Call) (*Term, bool) {
	e := m.e
	var rt types.Type
	if v := k.Instr.Value(); v != nil {
		rt = v.Type()
	}
	f := k.Fn
	if f == nil {
		if k.Method != nil {
			if snap := m.snapElem(s, k.Recv); snap || k.Recv.Mentions(func(t *Term) bool { return t.Op == "next" }) {
				if !e.Dry && k.Method.Name() == "Run" && len(s.Get("ran")) < 3 {
					mark := "+"
					if snap && !k.Recv.Strip().Args[0].Args[1].Mentions(func(x *Term) bool { return x.Op == "phi" }) {
						mark = "x" // not the one of this round
					}
					s.Set("ran", s.Get("ran")+mark)
				}
			} else {
				m.push(s, "invoke."+k.Method.Name(), k.Recv)
			}
			r := e.TT.mk("call", "m."+k.Method.Name(), rt, nil, append([]*Term{k.Recv}, k.Args...)...)
			return r, true
		}
		return nil, false
	}
	pair := func(n string, args ...*Term) *Term {
		sig := f.Signature.Results()
		a := e.TT.mk("call", n+"@"+k.Site, sig.At(0).Type(), nil, args...)
		b := e.TT.mk("call", n+".err@"+k.Site, sig.At(1).Type(), nil, args...)
		e.forget(s, a)
		e.forget(s, b)
		m.push(s, n, append([]*Term{a, b}, args...)...)
		if m.rule == "key" && n != "Hostname" || m.rule == "environment" {
			// the values are judged where the file could be read; the rest is the other rule's
			e.Assume(s, e.eqT(b, e.TT.mk("nil", "", b.Typ, nil)), true, k.Site)
		}
		return e.TT.mk("tuple", "", nil, nil, a, b)
	}
	switch {
	case isLockCall(f):
		return nil, true
	case isExt(f, "os", "Getenv"):
		v := e.TT.mk("call", "env", rt, nil, k.Args...)
		if m.rule == "key" || m.rule == "environment" {
			e.Assume(s, e.eqInt(e.TT.mk("len", "", types.Typ[types.Int], nil, v), 0), false, k.Site)
		}
		return v, true
	case isFn(f, "common/util", "GetScouterPath"):
		return e.TT.mk("call", "home", rt, nil), true
	case isFn(f, "common/util", "MakeDir"):
		return nil, true
	case isFn(f, "common/util", "HashString"):
		return e.TT.mk("call", "HashString", rt, nil, k.Args...), true
	case isExt(f, "path/filepath", "Join"), isExt(f, "path", "Join"):
		return e.TT.mk("call", "joined", rt, nil, e.elems(s, k.Args[0])...), true
	case isExt(f, "os", "Stat"):
		return pair("Stat", k.Args[0]), true
	case isExt(f, "os", "Hostname"):
		return pair("Hostname"), true
	case isExt(f, "io/ioutil", "ReadFile"), isExt(f, "os", "ReadFile"):
		return pair("ReadFile", k.Args[0]), true
	case isExt(f, "io/ioutil", "WriteFile"), isExt(f, "os", "WriteFile"):
		r := e.TT.mk("call", "WriteFile@"+k.Site, rt, nil, k.Args...)
		e.forget(s, r)
		m.push(s, "WriteFile", r, k.Args[0], k.Args[1])
		return r, true
	case isExt(f, propsLib, "LoadFile"):
		return pair("LoadFile", k.Args[0]), true
	case isExt(f, propsLib, "NewProperties"):
		return e.TT.mk("call", "props@"+k.Site, rt, nil), true
	case isExtMethod(f, propsLib, "Properties", "Set"):
		m.push(s, "Set", k.Args...)
		return nil, true
	case isExtMethod(f, propsLib, "Properties", "Merge"):
		m.push(s, "Merge", k.Args...)
		return nil, true
	case isExtMethod(f, propsLib, "Properties", "FilterFunc"):
		r := e.TT.mk("call", "filtered@"+k.Site, rt, nil, k.Args...)
		m.push(s, "Filter", append([]*Term{k.Args[0], e.TT.Const(constant.MakeInt64(0), types.Typ[types.Int]), r}, e.elems(s, k.Args[1])...)...)
		return r, true
	case f.Signature.Recv() != nil && FnPkg(f) == propsLib && strings.HasPrefix(f.Name(), "Get"):
		if !strings.Contains(s.Get("ev"), "Get:") {
			m.push(s, "Get", k.Args[0])
		}
		if m.rule == "environment" {
			s.Set("!prune", "1")
		}
		g := e.TT.mk("call", f.Name(), rt, nil, k.Args...)
		if m.rule != "key" && f.Name() == "GetInt" {
			// fallbacks of single settings are the other rule's
			e.Assume(s, e.TT.Bin(token.LSS, e.TT.Const(constant.MakeInt64(0), rt), g, types.Typ[types.Bool]), true, k.Site)
		}
		return g, true
	case isExtMethod(f, "time", "Time", "After"), isExtMethod(f, "time", "Time", "Before"), isExtMethod(f, "time", "Time", "Equal"):
		return e.TT.mk("call", f.Name(), rt, nil, k.Args...), true
	case isExtMethod(f, lhmLib, "Map", "Put"):
		m.desc(s, k)
		return nil, true
	case isExt(f, "errors", "Is"), isExt(f, "os", "IsNotExist"):
		return e.TT.mk("call", f.Name(), rt, nil, k.Args...), true
	}
	return nil, false
}

// desc judges one entry of the description table.
func (m *confMon) desc(s *State, k *Call) {
	if m.e.Dry || m.rule != "key" {
		return
	}
	e := m.e
	at := m.c.W.At(k.Instr)
	key := unassert(k.Args[1])
	ks, ok := key.Str()
	if !ok {
		m.bad(s, "description", at, "the key described is not a constant: "+key.String())
		return
	}
	v := unassert(k.Args[2])
	fld := func(n string) *Term {
		st, ok := v.Typ.Underlying().(*types.Struct)
		if !ok {
			return e.str("?")
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				if v.Op == "load" || v.Op == "alloc" {
					a := v
					if v.Op == "load" {
						a = v.Args[0]
					}
					return e.Load(s, e.TT.mk("fieldaddr", n, types.NewPointer(st.Field(i).Type()), nil, a), st.Field(i).Type())
				}
				return e.fieldOf(v, n, st.Field(i).Type())
			}
		}
		return e.str("?")
	}
	s.Set("desc:"+ks, s.Get("desc:"+ks)+fmt.Sprintf("%d %d %d %d;", fld("Key").ID, fld("Value").ID, fld("DefaultValue").ID, fld("ValueType").ID))
}

// okPath: the configuration file's path as documented.
func (m *confMon) okPath(s *State, p *Term) bool {
	e := m.e
	isEnv := func(t *Term, n string) bool {
		if t.Op != "call" || t.Aux != "env" {
			return false
		}
		v, _ := t.Args[0].Str()
		return v == n
	}
	find := func(n string) *Term {
		for _, t := range e.TT.list {
			if isEnv(t, n) {
				return t
			}
		}
		return nil
	}
	empty := func(t *Term) int {
		if t == nil {
			return 0
		}
		return e.Eval(s, e.eqInt(e.TT.mk("len", "", types.Typ[types.Int], nil, t), 0))
	}
	a, b := find("SCOUTER_CONFIG"), find("scouter.config")
	switch {
	case isEnv(p, "SCOUTER_CONFIG"):
		return empty(p) < 0
	case isEnv(p, "scouter.config"):
		return empty(p) < 0 && empty(a) > 0
	}
	cs := e.comps(s, p)
	if len(cs) == 3 && cs[0].Op == "call" && cs[0].Aux == "home" {
		x, _ := cs[1].Str()
		y, _ := cs[2].Str()
		return x == "conf" && y == "scouter.conf" && empty(a) > 0 && empty(b) > 0
	}
	return false
}

// missing: 1 the error says the file does not exist, -1 it is known to say something else, 0 unknown.
func (m *confMon) missing(s *State, err *Term) int {
	r := 0
	about := func(t *Term) bool { return t.Mentions(func(x *Term) bool { return x == err }) }
	for id, f := range s.facts {
		t := m.e.TT.list[id]
		switch {
		case t.Op == "call" && (t.Aux == "Is" || t.Aux == "IsNotExist") && len(t.Args) > 0 && unassert(t.Args[0]) == err && f.truth != 0:
			r = int(f.truth)
		case t.Op == "bin" && t.Aux == "==" && f.truth != 0 && about(t):
			o := t.Args[1]
			if !about(t.Args[0]) {
				o = t.Args[0]
			}
			o = unassert(o)
			if v, ok := o.StripConv().Int(); ok && v == 2 {
				r = int(f.truth)
			}
		case t.Op == "istype" && about(t) && f.truth < 0:
			if r == 0 {
				r = -1
			}
		}
	}
	return r
}

// changed: the file was modified since it was loaded: 1 yes, -1 no, 0 not looked at.
func (m *confMon) changed(s *State, info *Term) int {
	isMod := func(t *Term) bool { return t.Op == "call" && t.Aux == "m.ModTime" && t.Args[0] == info }
	isLast := func(t *Term) bool {
		return t.Mentions(func(x *Term) bool { return x.Op == "fieldaddr" && x.Aux == "lastModified" })
	}
	for id, f := range s.facts {
		t := m.e.TT.list[id]
		if t.Op != "call" || f.truth == 0 || len(t.Args) != 2 {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		switch t.Aux {
		case "After":
			if isMod(a) && isLast(b) {
				return int(f.truth)
			}
		case "Before":
			if isLast(a) && isMod(b) {
				return int(f.truth)
			}
		case "Equal":
			if isMod(a) && isLast(b) || isMod(b) && isLast(a) {
				return -int(f.truth)
			}
		}
	}
	return 0
}

func constText(t *Term) (string, bool) {
	t = t.StripConv()
	if v, ok := t.Str(); ok {
		return v, true
	}
	if v, ok := t.Int(); ok {
		return fmt.Sprint(v), true
	}
	if v, ok := t.Bool(); ok {
		return fmt.Sprint(v), true
	}
	return "", false
}

// textOf: x is the text of value v (a bool, int or string)
func textOf(x, v *Term) bool {
	if x == v {
		return true
	}
	if cv, ok := constText(v); ok {
		if cx, ok := x.Str(); ok {
			return cv == cx
		}
	}
	if x.Op == "call" && (x.Aux == "strconv.FormatBool" || x.Aux == "strconv.Itoa" || x.Aux == "strconv.FormatInt") {
		return x.Args[0].StripConv() == v.StripConv()
	}
	return false
}

// refresh explores Configure.Refresh. rule "key": values and descriptions (C21); rule "load": when and from what (C22).
func refresh(c *Ctx, rule string) {
	fn := c.Need(confPkg, "Configure", "Refresh")
	if fn == nil {
		return
	}
	m := newConfMon(c, fn, rule)
	e := m.e
	e.MaxStates = 200000
	confT := deref(fn.Params[0].Type()).Underlying().(*types.Struct)
	p0 := e.Params(fn)[0]
	fieldNow := func(s *State, n string) (*Term, types.Type) {
		for i := 0; i < confT.NumFields(); i++ {
			if confT.Field(i).Name() == n {
				return e.Load(s, e.TT.mk("fieldaddr", n, types.NewPointer(confT.Field(i).Type()), nil, p0), confT.Field(i).Type()), confT.Field(i).Type()
			}
		}
		return nil, nil
	}
	isInit := func(t *Term, n string) bool {
		return t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == n && t.Args[0].Args[0] == p0
	}
	loads := 0
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if e.Dry || addr.Op != "fieldaddr" || addr.Args[0] != p0 {
			return
		}
		if rule == "load" && addr.Aux != "lastModified" && strings.Contains(s.Get("ev"), "notified;") {
			m.bad(s, "notify", c.W.At(in), "a setting ("+addr.Aux+") is changed after the observers were told")
		}
		if rule == "load" && (addr.Aux == "ObjName" || addr.Aux == "ObjHash") && strings.Contains(s.Get("ev"), "invoke.Run:") {
			m.bad(s, "notify", c.W.At(in), addr.Aux+" is changed after the object name observer was told")
		}
		if _, ok := confFields[addr.Aux]; !ok && rule == "key" && addr.Aux != "ObjName" && addr.Aux != "ObjHash" && addr.Aux != "lastModified" {
			m.bad(s, addr.Aux, c.W.At(in), "a setting of no documented key is loaded")
		}
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		if e.Dry {
			return
		}
		kind, x, _ := e.LoopIf(s, in, cond, taken)
		if x == nil {
			return
		}
		isObs := x.Mentions(func(t *Term) bool { return t.Op == "global" && t.Aux == "conf.observers" })
		isSnap := s.Get("snap") != "" && m.isSnap(s, x)
		if isSnap && kind == "iter" {
			s.Set("ran", "0")
		}
		if isObs && !isSnap && kind == "done" && s.Get("snap") != "" {
			return // the observers were only listed
		}
		if (isObs || isSnap) && kind == "done" {
			if n := s.Get("notified"); len(n) < 2 {
				s.Set("notified", n+"+")
				s.Set("ev", s.Get("ev")+"notified;")
			}
		}
		if isObs && kind == "iter" {
			s.Set("ran", "0")
		}
	}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if e.Dry || !back {
			return
		}
		if r := s.Get("ran"); r != "" {
			if l := m.listed(s, phis); r == "0" && l != nil {
				s.Set("snap", strconv.Itoa(l.ID))
				s.Set("ran", "")
				return
			}
			if r != "0+" {
				m.bad(s, "notify", FnName(fn), "an observer is not told exactly once")
			}
			s.Set("ran", "")
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := c.W.At(in)
		evs := m.events(s)
		first := func(kind string) (int, *dumpEv) {
			for i := range evs {
				if evs[i].kind == kind {
					return i, &evs[i]
				}
			}
			return -1, nil
		}
		// were the settings loaded on this path?
		stored := 0
		for f := range confFields {
			if t, ty := fieldNow(s, f); ty != nil && !isInit(t, f) {
				stored++
			}
		}
		last, lastT := fieldNow(s, "lastModified")
		if rule == "key" {
			if stored == 0 {
				return
			}
			loads++
			for _, f := range sortedKeys(confFields) {
				m.key(s, at, f, fieldNow)
			}
			m.objName(s, at, fieldNow)
			return
		}
		_, st := first("Stat")
		li, ld := first("LoadFile")
		nstat, nload := 0, 0
		for _, ev := range evs {
			switch ev.kind {
			case "Stat":
				nstat++
				if !m.okPath(s, ev.args[2]) {
					m.bad(s, "path", at, "the file looked at is not the configuration file: "+ev.args[2].String())
				}
			case "LoadFile":
				nload++
				if !m.okPath(s, ev.args[2]) {
					m.bad(s, "path", at, "the file loaded is not the configuration file: "+ev.args[2].String())
				}
			}
		}
		if nstat != 1 || nload > 1 {
			m.bad(s, "load", at, "the configuration file is not looked at once")
			return
		}
		miss := false
		must := false
		switch {
		case e.IsNil(s, st.args[1]) || !e.NonNil(s, st.args[1]) && m.changed(s, st.args[0]) != 0:
			ch := m.changed(s, st.args[0])
			if ch == 0 && !e.IsNil(s, st.args[0]) {
				m.bad(s, "load", at, "whether the file changed since it was loaded is not looked at")
				return
			}
			must = ch >= 0
		case e.NonNil(s, st.args[1]):
			switch m.missing(s, st.args[1]) {
			case 1:
				must, miss = true, true
				if e.NonNil(s, st.args[0]) {
					return // an error with a file information does not happen
				}
			case -1:
				must = false
			default:
				m.bad(s, "load", at, "a file that cannot be read is not told from one that does not exist")
				return
			}
		default:
			m.bad(s, "load", at, "whether the file can be looked at is not tested")
			return
		}
		_ = miss
		if must && ld == nil {
			m.bad(s, "load", at, "a new, changed or missing configuration file is not loaded")
			return
		}
		if !must && (ld != nil || stored > 0) {
			m.bad(s, "load", at, "the configuration is loaded although the file cannot be read or did not change")
			return
		}
		changedLast := !(last.Op == "load" && last.Args[0].Op == "fieldaddr" && last.Args[0].Aux == "lastModified")
		_ = lastT
		if ld == nil {
			if changedLast {
				m.bad(s, "load", at, "the time of the last load changes without a load")
			}
			return
		}
		if e.NonNil(s, ld.args[1]) && m.missing(s, ld.args[1]) == 0 {
			m.bad(s, "load", at, "a file that cannot be loaded is not told from one that does not exist")
			return
		}
		unread := e.NonNil(s, ld.args[1]) && m.missing(s, ld.args[1]) != 1
		if unread {
			if stored > 0 || changedLast || strings.Contains(s.Get("ev"), "notified;") {
				m.bad(s, "load", at, "a configuration file that cannot be read changes the settings")
			}
			return
		}
		loads++
		c.Ob("load", "loaded")
		if stored < len(confFields) {
			m.bad(s, "load", at, fmt.Sprintf("only %d of %d settings are set by a load", stored, len(confFields)))
		}
		if e.IsNil(s, st.args[1]) && e.NonNil(s, st.args[0]) && (!changedLast || !last.Mentions(func(t *Term) bool { return t.Op == "call" && t.Aux == "m.ModTime" && t.Args[0] == st.args[0] })) {
			m.bad(s, "load", at, "the time of the loaded file is not remembered")
		}
		if changedLast && !last.Mentions(func(t *Term) bool { return t.Op == "call" && t.Aux == "m.ModTime" && t.Args[0] == st.args[0] }) {
			m.bad(s, "load", at, "the time of the last load is not the file's: "+last.String())
		}
		// environment, then file over it, then without empty values
		mi, mg := first("Merge")
		fi, fl := first("Filter")
		gi, gt := first("Get")
		if gt == nil || fl == nil || gt.args[0] != fl.args[2] || fi > gi {
			m.bad(s, "load", at, "the settings are not taken from the entries left after empty values were dropped")
			return
		}
		if e.NonNil(s, ld.args[0]) || e.IsNil(s, ld.args[1]) && !e.IsNil(s, ld.args[0]) {
			if mg == nil || mg.args[0] != fl.args[0] || mg.args[1] != ld.args[0] || mi > fi || mi < li {
				m.bad(s, "load", at, "the file's entries do not replace those of the environment")
			}
		}
		if len(fl.args) != 4 {
			m.bad(s, "filter", at, "the entries are not filtered by one filter")
			return
		}
		cl := fl.args[3]
		for cl.Op == "conv" {
			cl = cl.Args[0]
		}
		if cl.Fn != nil {
			m.filter(cl.Fn)
		} else {
			m.bad(s, "filter", at, "the filter is not known: "+cl.String())
		}
		for i, ev := range evs {
			if ev.kind == "Set" && (ev.args[0] != fl.args[0] || mg != nil && i > mi) {
				m.bad(s, "environment", at, "an environment variable is set over the file's entries")
			}
		}
		if ni, _ := first("notified"); ni < 0 {
			m.bad(s, "notify", at, "the observers are not told of the load")
		} else if n := strings.Count(s.Get("ev"), "notified;"); n != 1 {
			m.bad(s, "notify", at, fmt.Sprintf("the observers are told %d times of one load", n))
		}
		// object name observer
		nm, _ := fieldNow(s, "ObjName")
		var old *Term
		for _, t := range e.TT.list {
			if isInit(t, "ObjName") {
				old = t
			}
		}
		told := false
		for _, ev := range evs {
			if ev.kind == "invoke.Run" && ev.args[0].Mentions(func(t *Term) bool { return t.Op == "global" && t.Aux == "conf.objChangeObserver" }) {
				told = true
			}
		}
		var ob *Term
		for _, t := range e.TT.list {
			if t.Op == "load" && t.Args[0].Op == "global" && t.Args[0].Aux == "conf.objChangeObserver" {
				ob = t
			}
		}
		if old != nil && ob != nil {
			eq := e.Eval(s, e.eqT(old, nm))
			if eq >= 0 && told {
				m.bad(s, "notify", at, "the object name observer is told although the name did not change")
			}
			if eq <= 0 && !told && !e.IsNil(s, ob) {
				m.bad(s, "notify", at, "the object name observer is not told of a new name")
			}
		} else {
			m.bad(s, "notify", at, "the object name observer is never told")
		}
	}
	e.Run(fn, nil, nil, func() { loads = 0 })
	c.Use(e, FnName(fn))
	if loads == 0 {
		c.Bad(rule, "loaded", c.W.FnAt(fn), "no path loads the settings")
	}
}

// key judges one field after a load.
func (m *confMon) key(s *State, at, f string, now func(*State, string) (*Term, types.Type)) {
	e := m.e
	k := confFields[f]
	m.c.Ob("key", f)
	v, ty := now(s, f)
	if v == nil {
		m.bad(s, f, at, "the configuration has no field "+f)
		return
	}
	if ty.String() != k.typ {
		m.bad(s, f, at, f+" has type "+ty.String())
	}
	want := map[string]string{"bool": "GetBool", "int": "GetInt", "int32": "GetInt", "string": "GetString"}[k.typ]
	isGet := func(t *Term) bool {
		if !(t.Op == "call" && t.Aux == want && len(t.Args) == 3) {
			return false
		}
		n, _ := t.Args[1].Str()
		d, ok := constText(t.Args[2])
		return n == k.key && ok && d == k.def
	}
	val := v.StripConv()
	get := val
	switch {
	case isGet(val):
		if k.clamp {
			if iv := e.Ival(s, val); iv == nil || iv.lo < 1 {
				m.bad(s, f, at, f+": a value of "+k.key+" that is not positive is used")
			}
		}
	default:
		d, ok := constText(val)
		okc := false
		if k.clamp && ok && d == k.def {
			for _, t := range e.TT.list {
				if isGet(t) {
					if iv := e.Ival(s, t); iv != nil && iv.hi < 1 {
						okc = true
						get = t
					}
				}
			}
		}
		if !okc {
			m.bad(s, f, at, fmt.Sprintf("%s is not the value of %s with default %q: %s", f, k.key, k.def, v))
			return
		}
	}
	if k.nodesc {
		return
	}
	ds := strings.Split(strings.TrimSuffix(s.Get("desc:"+k.key), ";"), ";")
	if len(ds) != 1 || ds[0] == "" {
		m.bad(s, f, at, k.key+" is not described once")
		return
	}
	p := strings.Fields(ds[0])
	dk, dv, dd, dt := e.TT.list[atoi(p[0])], e.TT.list[atoi(p[1])], e.TT.list[atoi(p[2])], e.TT.list[atoi(p[3])]
	if x, _ := dk.Str(); x != k.key {
		m.bad(s, f, at, k.key+" is described under the key "+dk.String())
	}
	if !textOf(dv, get) && !textOf(dv, val) {
		m.bad(s, f, at, "the description of "+k.key+" shows another value: "+dv.String())
	}
	okd := false
	if x, ok := dd.Str(); ok {
		okd = x == k.def
	} else if dd.Op == "call" && strings.HasPrefix(dd.Aux, "strconv.") {
		x, ok := constText(dd.Args[0])
		okd = ok && x == k.def
	}
	if !okd {
		m.bad(s, f, at, "the description of "+k.key+" shows another default: "+dd.String())
	}
	if x, ok := dt.StripConv().Int(); !ok || x != k.kind {
		m.bad(s, f, at, "the description of "+k.key+" shows another type: "+dt.String())
	}
}

func (m *confMon) objName(s *State, at string, now func(*State, string) (*Term, types.Type)) {
	e := m.e
	m.c.Ob("key", "ObjName")
	nm, _ := now(s, "ObjName")
	simple, _ := now(s, "ObjNameSimple")
	h, _ := now(s, "ObjHash")
	if !(h.Op == "call" && h.Aux == "HashString" && h.Args[0] == nm) {
		m.bad(s, "ObjHash", at, "the object hash is not the hash of the object name: "+h.String())
	}
	var parts []string
	var host *Term
	for _, t := range flatAdd(nm) {
		if v, ok := t.Str(); ok {
			parts = append(parts, v)
		} else if t == simple {
			parts = append(parts, "N")
		} else if t.Op == "call" && strings.HasPrefix(t.Aux, "Hostname@") {
			host = t
			parts = append(parts, "H")
		} else {
			parts = append(parts, "?"+t.String())
		}
	}
	x := strings.Join(parts, "")
	if x != "/H/N" && x != "/unknown/N" {
		m.bad(s, "ObjName", at, "the object name is not /host/name: "+nm.String())
		return
	}
	for _, ev := range m.events(s) {
		if ev.kind == "Hostname" {
			if e.IsNil(s, ev.args[1]) && host == nil {
				m.bad(s, "ObjName", at, "the host's name is not used")
			}
			if !e.IsNil(s, ev.args[1]) && host != nil {
				m.bad(s, "ObjName", at, "a host name that could not be found out is used")
			}
		}
	}
}

// filter checks that exactly the entries with a value stay.
func (m *confMon) filter(f *ssa.Function) {
	c := m.c
	c.Ob("filter", FnName(f))
	e := NewEngine(c.W)
	e.KeepFact = func(*Term) bool { return true }
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		v := e.Params(f)[1]
		empty := e.eqInt(e.TT.mk("len", "", types.Typ[types.Int], nil, v), 0)
		ok := true
		for _, isEmpty := range []bool{true, false} {
			x := s.clone()
			if e.Assume(x, empty, isEmpty, "filter") {
				want := -1
				if !isEmpty {
					want = 1
				}
				ok = ok && e.Eval(x, res[0]) == want
			}
		}
		if ok {
			return
		}
		c.Bad("filter", FnName(f), c.W.At(in), "the filter does not drop exactly the empty values", s.Trace()...)
	}
	e.Run(f, nil, nil, nil)
	c.Use(e, FnName(f))
}

// envLoop: every environment entry name=value is set under its name with everything after the first "=" as value.
func envLoop(c *Ctx) {
	fn := c.Need(confPkg, "Configure", "Refresh")
	if fn == nil {
		return
	}
	m := newConfMon(c, fn, "environment")
	e := m.e
	c.Ob("environment", FnName(fn))
	e.MaxStates = 200000
	sets := 0
	old := e.OnCall
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if k.Fn != nil && isExtMethod(k.Fn, propsLib, "Properties", "Set") && !e.Dry {
			sets++
			at := c.W.At(k.Instr)
			a, b := k.Args[1], k.Args[2]
			if !m.envPart(s, a, 0) || !m.envPart(s, b, 1) {
				m.bad(s, "environment", at, "an environment entry is not set as name and value: "+a.String()+", "+b.String())
			}
		}
		return old(s, k)
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {}
	e.Run(fn, nil, nil, func() { sets = 0 })
	c.Use(e, FnName(fn))
	if sets == 0 {
		c.Bad("environment", FnName(fn), c.W.FnAt(fn), "no path takes over the environment")
	}
}

// envPart: t is part i (0 name, 1 value) of an environment entry.
func (m *confMon) envPart(s *State, t *Term, i int64) bool {
	isEntry := func(x *Term) bool {
		return x.Mentions(func(y *Term) bool { return y.Op == "call" && strings.HasPrefix(y.Aux, "os.Environ@") })
	}
	// SplitN(e, "=", 2)[i]
	if t.Op == "load" && t.Args[0].Op == "indexaddr" {
		x, idx := t.Args[0].Args[0], t.Args[0].Args[1]
		if v, ok := idx.Int(); ok && v == i && x.Op == "call" && x.Aux == "strings.SplitN" && isEntry(x.Args[0]) {
			sep, _ := x.Args[1].Str()
			n, _ := x.Args[2].Int()
			return sep == "=" && n == 2
		}
	}
	// strings.Cut(e, "=")
	if t.Op == "res" && t.Args[0].Op == "call" && t.Args[0].Aux == "strings.Cut" && t.Aux == fmt.Sprint(i) {
		sep, _ := t.Args[0].Args[1].Str()
		return sep == "=" && isEntry(t.Args[0].Args[0])
	}
	// e[:IndexByte(e,'=')] and e[IndexByte(e,'=')+1:]
	if t.Op == "slice" && isEntry(t.Args[0]) {
		isPos := func(x *Term) bool {
			if x.Op != "call" || x.Aux != "strings.Index" && x.Aux != "strings.IndexByte" && x.Aux != "strings.IndexRune" || x.Args[0] != t.Args[0] {
				return false
			}
			if v, ok := x.Args[1].Str(); ok {
				return v == "="
			}
			v, ok := x.Args[1].StripConv().Int()
			return ok && v == '='
		}
		lo, hi := t.Args[1], t.Args[2]
		if i == 0 {
			v, ok := lo.Int()
			return (lo.Op == "none" || ok && v == 0) && isPos(hi)
		}
		if lo.Op == "bin" && lo.Aux == "+" {
			v, ok := lo.Args[1].Int()
			return ok && v == 1 && isPos(lo.Args[0])
		}
	}
	return false
}

// confText checks LoadConfigText and SaveConfigText.
func confText(c *Ctx) {
	if fn := c.Need(confPkg, "", "LoadConfigText"); fn != nil {
		m := newConfMon(c, fn, "text")
		e := m.e
		c.Ob("text", FnName(fn))
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			at := c.W.At(in)
			evs := m.events(s)
			if len(evs) != 1 || evs[0].kind != "ReadFile" {
				m.bad(s, FnName(fn), at, "the configuration file is not read once")
				return
			}
			if !m.okPath(s, evs[0].args[2]) {
				m.bad(s, FnName(fn), at, "the file read is not the configuration file: "+evs[0].args[2].String())
			}
			switch {
			case e.IsNil(s, evs[0].args[1]):
				if res[0].StripConv() != evs[0].args[0] {
					m.bad(s, FnName(fn), at, "the text is not the file's content: "+res[0].String())
				}
			case e.NonNil(s, evs[0].args[1]):
				if v, ok := res[0].Str(); !ok || v != "" {
					m.bad(s, FnName(fn), at, "an unreadable file does not give an empty text")
				}
			default:
				m.bad(s, FnName(fn), at, "whether the file could be read is not looked at")
			}
		}
		e.Run(fn, nil, nil, nil)
		c.Use(e, FnName(fn))
	}
	if fn := c.Need(confPkg, "", "SaveConfigText"); fn != nil {
		m := newConfMon(c, fn, "text")
		e := m.e
		c.Ob("text", FnName(fn))
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			at := c.W.At(in)
			evs := m.events(s)
			if len(evs) != 1 || evs[0].kind != "WriteFile" {
				m.bad(s, FnName(fn), at, "the configuration file is not written once")
				return
			}
			err := evs[0].args[0]
			if !m.okPath(s, evs[0].args[1]) {
				m.bad(s, FnName(fn), at, "the file written is not the configuration file: "+evs[0].args[1].String())
			}
			if t := evs[0].args[2].StripConv(); t.Op != "param" || t.Aux != "p0" {
				m.bad(s, FnName(fn), at, "the text written is not the one given: "+t.String())
			}
			r := res[0]
			if r.Op == "bin" && r.Aux == "==" && (r.Args[0] == err && r.Args[1].IsNil() || r.Args[1] == err && r.Args[0].IsNil()) {
				return
			}
			if v, ok := r.Bool(); ok && (v && e.IsNil(s, err) || !v && e.NonNil(s, err)) {
				return
			}
			m.bad(s, FnName(fn), at, "the result is not whether the text was written")
		}
		e.Run(fn, nil, nil, nil)
		c.Use(e, FnName(fn))
	}
}

// initial: the settings have their defaults before anything is loaded.
func initial(c *Ctx) {
	var found bool
	for _, f := range c.W.Funcs {
		if relPkg(FnPkg(f)) != confPkg {
			continue
		}
		mk := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Heap && isNamedT(a.Type(), confPkg, "Configure") {
					mk = true
				}
			}
		}
		if !mk {
			continue
		}
		found = true
		m := newConfMon(c, f, "initial")
		e := m.e
		old := e.OnCall
		judged := 0
		e.OnCall = func(s *State, k *Call) (*Term, bool) {
			if n, ok := methodOn(k.Fn, confPkg, "Configure"); ok && n == "Refresh" {
				if !e.Dry {
					judged++
					p := k.Args[0]
					st := deref(p.Typ).Underlying().(*types.Struct)
					for _, n := range initialFields {
						c.Ob("initial", n)
						for i := 0; i < st.NumFields(); i++ {
							if st.Field(i).Name() == n {
								v := e.Load(s, e.TT.mk("fieldaddr", n, types.NewPointer(st.Field(i).Type()), nil, p), st.Field(i).Type())
								if x, ok := constText(v); !ok || x != confFields[n].def {
									m.bad(s, n, c.W.At(k.Instr), fmt.Sprintf("%s is %s, not %s, when nothing could be loaded", n, v, confFields[n].def))
								}
							}
						}
					}
				}
				return nil, true
			}
			if k.Fn != nil && FnPkg(k.Fn) != rootPkg+"/"+confPkg {
				return nil, true
			}
			return old(s, k)
		}
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {}
		e.Run(f, nil, nil, func() { judged = 0 })
		c.Use(e, FnName(f))
		if judged == 0 {
			c.Bad("initial", FnName(f), c.W.FnAt(f), "a new configuration is not loaded")
		}
	}
	if !found {
		c.Bad("anchor", "conf.Configure", "-", "no place creates the configuration")
	}
}

func init() {
	register("C21", "Configure.Refresh is explored on all abstract paths with the properties library's getters as uninterpreted functions; on every path that loads, the final value of each field and its entry in the description table is compared with the key table.",
		func(c *Ctx) {
			refresh(c, "key")
			c.Floor("key", len(confFields)+1)
		})
	register("C22", "Configure.Refresh, LoadConfigText, SaveConfigText and the creation of the configuration are explored on all abstract paths: which file is used, when a load happens, from which entries the settings come, what a failure changes, and when the observers are told.",
		func(c *Ctx) {
			refresh(c, "load")
			envLoop(c)
			confText(c)
			initial(c)
			c.Floor("initial", len(initialFields))
			c.Floor("text", 2)
		})
}
