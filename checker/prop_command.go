package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// packMon models map packs and their list columns while a function is explored.
type packMon struct {
	c    *Ctx
	e    *Engine
	fn   *ssa.Function
	rule string
	// row judges one completed row: column -> value
	row func(s *State, at, pack string, vals map[string]*Term)
	// effect is called for repository calls outside the modelled types; handled when it returns ok
	ext func(s *State, k *Call) (*Term, bool)
}

func (m *packMon) bad(s *State, at, msg string) {
	if !m.e.Dry {
		m.c.Bad(m.rule, FnName(m.fn)+s.Get("cmdname"), at, msg, s.Trace()...)
	}
}

func newPackMon(c *Ctx, fn *ssa.Function, rule string) *packMon {
	m := &packMon{c: c, e: NewEngine(c.W), fn: fn, rule: rule}
	e := m.e
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(*Term) bool { return true }
	e.WidenAt = 1 << 30
	e.OnCall = m.model
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if e.Dry {
			return
		}
		m.closeRow(s, hdr, back)
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		if kind, _, _ := e.LoopIf(s, in, cond, taken); kind == "break" && e.loopsIn(in.Parent())[in.Block()] == nil && m.addsInLoop(in.Block()) && !m.skipped(s) {
			m.bad(s, c.W.At(in), "the list is cut short")
		}
	}
	return m
}

func isListAdd(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := ci.Common().StaticCallee()
	n, ok := methodOn(f, ndPkg, "ListValue")
	if ok && strings.HasPrefix(n, "Add") {
		return true
	}
	n, ok = methodOn(f, ndPkg, "MapPack")
	return ok && n == "Put"
}

// addsInLoop: some loop around the block fills a list.
func (m *packMon) addsInLoop(b *ssa.BasicBlock) bool {
	for _, body := range m.e.loopsIn(b.Parent()) {
		if body[b] && m.adds(body) {
			return true
		}
	}
	return false
}

func (m *packMon) adds(body map[*ssa.BasicBlock]bool) bool {
	for x := range body {
		for _, in := range x.Instrs {
			if isListAdd(in) {
				return true
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && m.c.W.InRepo(f) && m.c.W.reaches(f, isListAdd) {
					return true
				}
			}
		}
	}
	return false
}

// skipped: the path knows that the current element is none (nil, or of another type).
func (m *packMon) skipped(s *State) bool {
	for id, f := range s.facts {
		t := m.e.TT.list[id]
		if t.Op == "istype" && f.truth < 0 {
			return true
		}
		if t.Op == "bin" && t.Aux == "==" && f.truth > 0 && (t.Args[0].IsNil() || t.Args[1].IsNil()) {
			return true
		}
		if f.eq != nil && f.eq.IsNil() && !isErrType(t.Typ) {
			return true
		}
	}
	return false
}

func (m *packMon) columns(s *State) map[string][]string {
	r := map[string][]string{}
	for k := range s.Vars {
		if strings.HasPrefix(k, "col:") {
			p := strings.SplitN(k, ":", 3)
			r[p[1]] = append(r[p[1]], p[2])
		}
	}
	for _, l := range r {
		sort.Strings(l)
	}
	return r
}

// closeRow judges the columns at the end of an iteration or when the function returns.
func (m *packMon) closeRow(s *State, hdr string, back bool) {
	at := hdr
	if i := strings.LastIndex(hdr, "/"); i >= 0 {
		at = hdr[i+1:]
	}
	any := false
	for pk, cols := range m.columns(s) {
		vals := map[string]*Term{}
		n := 0
		for _, col := range cols {
			ids := strings.Fields(s.Get("row:" + pk + ":" + col))
			if len(ids) > n {
				n = len(ids)
			}
			if len(ids) == 1 {
				vals[col] = m.e.TT.list[atoi(ids[0])]
			}
		}
		if n == 0 {
			continue
		}
		any = true
		full := true
		for _, col := range cols {
			if l := len(strings.Fields(s.Get("row:" + pk + ":" + col))); l != n {
				full = false
				m.bad(s, at, fmt.Sprintf("column %q gets %d entries where another gets %d: the rows no longer match", col, l, n))
			}
			s.Set("row:"+pk+":"+col, "")
		}
		if n > 1 && back {
			m.bad(s, at, "one element gives more than one row")
		}
		if full && n == 1 {
			if m.row != nil {
				m.row(s, at, pk, vals)
			}
			if back {
				s.Set("rows", "1")
			}
		}
	}
	if s.Get("dput") != "" {
		any = true
		if back {
			s.Set("rows", "1")
		}
		s.Set("dput", "")
	}
	if back && !any {
		i := strings.LastIndex(hdr, ":")
		for h, body := range m.e.loopsIn(s.top().fn) {
			if fmt.Sprint(h.Index) == hdr[i+1:] && m.adds(body) && !m.skipped(s) {
				m.bad(s, at, "an element is left out of the list")
			}
		}
	}
}

func (m *packMon) model(s *State, k *Call) (*Term, bool) {
	e := m.e
	f := k.Fn
	mk := func(name string, typ types.Type, args ...*Term) (*Term, bool) {
		return e.TT.mk("call", name, typ, nil, args...), true
	}
	rt := func() types.Type { return f.Signature.Results().At(0).Type() }
	switch {
	case isFn(f, ndPkg, "NewMapPack"):
		t := e.TT.mk("call", "mappack@"+k.Site, rt(), nil)
		e.forget(s, t)
		e.Assume(s, e.eqT(t, e.TT.mk("nil", "", t.Typ, nil)), false, "")
		return t, true
	case isFn(f, ndPkg, "NewListValue"), isFn(f, ndPkg, "NewListValueWithSize"):
		t := e.TT.mk("call", "list@"+k.Site, rt(), nil)
		e.forget(s, t)
		return t, true
	case f != nil && relPkg(FnPkg(f)) == ndPkg && strings.HasPrefix(f.Name(), "New") && strings.HasSuffix(f.Name(), "Value") && len(k.Args) == 1:
		return k.Args[0], true // a boxed value is its contents
	}
	if n, ok := methodOn(f, ndPkg, "MapPack"); ok {
		pk := fmt.Sprint(unboxS(k.Args[0]).ID)
		switch {
		case n == "NewList":
			t := e.TT.mk("call", "list@"+k.Site, rt(), nil)
			e.forget(s, t)
			m.put(s, pk, k.Args[1], t)
			return t, true
		case n == "Put":
			m.put(s, pk, k.Args[1], unboxS(k.Args[2]))
			return nil, true
		case strings.HasPrefix(n, "Get") && len(k.Args) == 2:
			return mk(n, rt(), unboxS(k.Args[0]), k.Args[1])
		}
		return nil, false
	}
	if n, ok := methodOn(f, ndPkg, "ListValue"); ok && strings.HasPrefix(n, "Add") {
		l := k.Args[0]
		if e.Dry {
			return l, true
		}
		col := s.Get(fmt.Sprintf("lst:%d", l.ID))
		if col == "" {
			if !e.Dry {
				m.bad(s, m.c.W.At(k.Instr), "an entry is added to a list that is no column of the answer")
			}
		} else {
			s.Set("row:"+col, strings.TrimSpace(s.Get("row:"+col)+" "+fmt.Sprint(unboxS(k.Args[1]).ID)))
		}
		return l, true
	}
	if f != nil && m.c.W.InRepo(f) {
		switch {
		case isFn(f, "common/util", "MillisToNow"), isFn(f, "common/util", "IntToXlogString32"), isFn(f, "common/util", "TimeToMillis"):
			return mk(f.Name(), rt(), k.Args...)
		}
	}
	if f == nil && k.Method != nil && k.Method.Type().(*types.Signature).Results().Len() == 1 && k.Method.Type().(*types.Signature).Params().Len() == 0 {
		return mk("m."+k.Method.Name(), k.Method.Type().(*types.Signature).Results().At(0).Type(), k.Recv)
	}
	if m.ext != nil {
		return m.ext(s, k)
	}
	return nil, false
}

func (m *packMon) put(s *State, pk string, key, v *Term) {
	name, ok := key.Str()
	if !ok {
		s.Set("dput", "1")
		if m.row != nil && !m.e.Dry {
			m.row(s, "", pk, map[string]*Term{"": key, "=": v})
		}
		return
	}
	s.Set("put:"+pk+":"+name, fmt.Sprint(v.ID))
	if v.Op == "call" && strings.HasPrefix(v.Aux, "list@") {
		s.Set(fmt.Sprintf("lst:%d", v.ID), pk+":"+name)
		s.Set("col:"+pk+":"+name, "1")
	}
}

func (m *packMon) got(s *State, pack *Term, key string) *Term {
	if id := s.Get(fmt.Sprintf("put:%d:%s", unboxS(pack).ID, key)); id != "" {
		return m.e.TT.list[atoi(id)]
	}
	return nil
}

// ---------------------------------------------------------------- commands

type cmdSpec struct {
	// effects expected in order; arguments: "pack" the request, "out" the stream, "$key" a text of the request, or a number
	effects [][]string
	result  string // "nil", "pack", "effect" (result of the effect), "built"
	puts    map[string]func(m *packMon, s *State, v *Term) bool
	cols    []string
	row     func(m *packMon, s *State, vals map[string]*Term) string
	needPar bool // without a parameter map nothing is done
	dyn     string
}

func isStr(want string) func(*packMon, *State, *Term) bool {
	return func(m *packMon, s *State, v *Term) bool { x, ok := v.Str(); return ok && x == want }
}
func isTrue(m *packMon, s *State, v *Term) bool { b, ok := v.Bool(); return ok && b }

// fieldOfAny: v is field f of some value of the named type; the value is returned.
func fieldOfAny(v *Term, f string) *Term {
	v = v.StripConv()
	switch {
	case v.Op == "field" && v.Aux == f:
		return v.Args[0]
	case v.Op == "load" && v.Args[0].Op == "fieldaddr" && v.Args[0].Aux == f:
		return v.Args[0].Args[0]
	}
	return nil
}

func descRow(cols map[string]string) func(m *packMon, s *State, vals map[string]*Term) string {
	return func(m *packMon, s *State, vals map[string]*Term) string {
		var d *Term
		for col, f := range cols {
			v := vals[col]
			if v == nil {
				return "column " + col + " is missing"
			}
			x := fieldOfAny(v, f)
			if x == nil || !isNamedT(deref(x.Typ), "conf", "ConfigureDesc") {
				return fmt.Sprintf("column %q is not the entry's %s: %s", col, f, v)
			}
			if d != nil && x != d {
				return "the columns of one row belong to different entries"
			}
			d = x
		}
		return ""
	}
}

func activeRow(m *packMon, s *State, vals map[string]*Term) string {
	var tc *Term
	same := func(x *Term) bool {
		if x == nil || !isTctxT(x.Typ) {
			return false
		}
		if tc == nil {
			tc = x
		}
		return tc == x
	}
	fld := func(col, f string) bool { return same(fieldOfAny(vals[col], f)) }
	call := func(col, fn, f string) bool {
		v := vals[col].StripConv()
		return v.Op == "call" && v.Aux == fn && same(fieldOfAny(v.Args[0], f))
	}
	str := func(col, w string) bool { x, ok := vals[col].Str(); return ok && x == w }
	for _, c := range []string{"id", "elapsed", "service", "name", "txid", "ip", "stat", "cpu", "sql", "subcall"} {
		if vals[c] == nil {
			return "column " + c + " is missing"
		}
	}
	switch {
	case !fld("id", "Goid"):
		return "id is not the service's goroutine"
	case !call("elapsed", "MillisToNow", "StartTime"):
		return "elapsed is not the time since the service's start"
	case !fld("service", "ServiceName"):
		return "service is not the service's name"
	case !vals["name"].Mentions(func(t *Term) bool { return same(fieldOfAny(t, "Goid")) }):
		return "name does not name the goroutine"
	case !call("txid", "IntToXlogString32", "Txid"):
		return "txid is not the service's id"
	case !fld("ip", "RemoteIp"):
		return "ip is not the service's client"
	case !str("stat", "n/a") || !str("sql", "n/a") || !str("subcall", "n/a"):
		return "an unknown value is not n/a"
	}
	if v, ok := vals["cpu"].Int(); !ok || v != -1 {
		return "cpu is not unknown (-1)"
	}
	return ""
}

var commands = map[string]cmdSpec{
	"KEEP_ALIVE":                {result: "nil"},
	"OBJECT_RESET_CACHE":        {effects: [][]string{{"netio.ResetTextSent"}}, result: "pack"},
	"TRIGGER_THREAD_DUMP":       {effects: [][]string{{"dump.HeavyAllStackTrace"}}, result: "effect"},
	"OBJECT_DUMP_FILE_LIST":     {effects: [][]string{{"dump.ListDumpFiles"}}, result: "effect"},
	"OBJECT_DUMP_FILE_DETAIL":   {effects: [][]string{{"dump.StreamDumpFileContents", "pack", "out"}}, result: "nil"},
	"TRIGGER_BLOCK_PROFILE":     {effects: [][]string{{"dump.ProfileBlock", "30", "1000000", "1"}}, result: "nil"},
	"TRIGGER_MUTEX_PROFILE":     {effects: [][]string{{"dump.ProfileMutex", "30", "10", "1"}}, result: "nil"},
	"OBJECT_LIST_HEAP_DUMP":     {effects: [][]string{{"dump.ListBinaryDumpFiles"}}, result: "effect"},
	"OBJECT_DOWNLOAD_HEAP_DUMP": {effects: [][]string{{"dump.DownloadBinaryDumpFiles", "out", "$fileName"}}, result: "nil", needPar: true},
	"OBJECT_DELETE_HEAP_DUMP":   {effects: [][]string{{"dump.DeleteBinaryDumpFiles", "$delfileName"}}, result: "effect", needPar: true},
	"OBJECT_CALL_CPU_PROFILE":   {effects: [][]string{{"dump.ProfileBinaryCpu", "30"}}, result: "built", puts: map[string]func(*packMon, *State, *Term) bool{"success": isTrue}},
	"OBJECT_CALL_BLOCK_PROFILE": {effects: [][]string{{"dump.ProfileBlockBinaryDump", "30", "1000000"}}, result: "built", puts: map[string]func(*packMon, *State, *Term) bool{"success": isTrue}},
	"OBJECT_CALL_MUTEX_PROFILE": {effects: [][]string{{"dump.ProfileMutexBinaryDump", "30", "5"}}, result: "built", puts: map[string]func(*packMon, *State, *Term) bool{"success": isTrue}},
	"GET_CONFIGURE_WAS": {effects: [][]string{{"conf.LoadConfigText"}}, result: "built", puts: map[string]func(*packMon, *State, *Term) bool{"agentConfig": func(m *packMon, s *State, v *Term) bool {
		return v.Op == "call" && strings.HasPrefix(v.Aux, "conf.LoadConfigText")
	}}, cols: []string{"configKey"}, row: descRow(map[string]string{"configKey": "Key"})},
	"SET_CONFIGURE_WAS":          {result: "save"},
	"LIST_CONFIGURE_WAS":         {result: "built", cols: []string{"key", "value", "default"}, row: descRow(map[string]string{"key": "Key", "value": "Value", "default": "DefaultValue"})},
	"CONFIGURE_VALUE_TYPE":       {result: "built", dyn: "ValueType"},
	"CONFIGURE_DESC":             {result: "built", dyn: "Desc"},
	"OBJECT_ACTIVE_SERVICE_LIST": {result: "built", cols: []string{"id", "elapsed", "service", "name", "txid", "ip", "stat", "cpu", "sql", "subcall"}, row: activeRow},
	"OBJECT_THREAD_DETAIL":       {result: "detail"},
}

var cmdEffects = map[string]bool{"netio.ResetTextSent": true, "conf.LoadConfigText": true, "conf.SaveConfigText": true}

func checkHandler(c *Ctx, fn *ssa.Function) {
	m := newPackMon(c, fn, "command")
	e := m.e
	e.MaxStates = 200000
	ps := e.Params(fn)
	var cmd, pack, out *Term
	for i, p := range fn.Params {
		switch {
		case isNd(p.Type(), "Pack"):
			pack = ps[i]
		case isNd(p.Type(), "DataOutputX"):
			out = ps[i]
		default:
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				cmd = ps[i]
			}
		}
	}
	names := sortedKeys2(commands)
	is := func(s *State, n string) int {
		return e.Eval(s, e.eqT(cmd, e.TT.Const(constant.MakeString(n), types.Typ[types.String])))
	}
	which := func(s *State) string {
		for _, n := range names {
			if is(s, n) > 0 {
				return n
			}
		}
		return ""
	}
	req := func(t *Term) bool { return t != nil && unassert(t) == pack }
	m.ext = func(s *State, k *Call) (*Term, bool) {
		f := k.Fn
		if f == nil || !c.W.InRepo(f) {
			if f != nil && FnPkg(f) == "strconv" {
				return e.TT.mk("call", "strconv."+f.Name(), f.Signature.Results().At(0).Type(), nil, k.Args...), true
			}
			return nil, false
		}
		pkg := relPkg(FnPkg(f))
		name := pkg[strings.LastIndex(pkg, "/")+1:] + "." + f.Name()
		sig := f.Signature
		switch {
		case pkg == dumpPkg && f.Signature.Recv() == nil, cmdEffects[name]:
		case isExtRefresh(f):
			name = "conf.Refresh"
		case isFn(f, tmPkg, "GetTraceContextByTxid"), isFn(f, tmPkg, "GetAllTctx"), isFn(f, "conf", "GetConfigureDescMap"):
			s.Set("src:"+f.Name(), "1")
			return e.TT.mk("call", f.Name(), sig.Results().At(0).Type(), nil, k.Args...), true
		case pkg == "conf" && f.Name() == "GetInstance":
			return e.TT.mk("call", "conf.GetInstance", sig.Results().At(0).Type(), nil), true
		default:
			return nil, false
		}
		var typ types.Type
		if sig.Results().Len() == 1 {
			typ = sig.Results().At(0).Type()
		}
		r := e.TT.mk("call", name+"@"+k.Site, typ, nil, k.Args...)
		e.forget(s, r)
		if e.Dry {
			return r, true
		}
		s.Set("ev", s.Get("ev")+fmt.Sprintf("%d ", r.ID))
		return r, true
	}
	m.row = func(s *State, at, pk string, vals map[string]*Term) {
		n := which(s)
		sp := commands[n]
		if key, isDyn := vals[""]; isDyn {
			x := fieldOfAny(key, "Key")
			if sp.dyn == "" || x == nil || fieldOfAny(vals["="], sp.dyn) != x {
				m.bad(s, at, fmt.Sprintf("%s: an entry is not given its %s under its key: %s=%s", n, sp.dyn, key, vals["="]))
			}
			if sp.dyn == "ValueType" && !isBasicKind(vals["="].Typ, types.Int32) {
				m.bad(s, at, n+": the value type is not sent as a 32-bit number")
			}
			return
		}
		if sp.row != nil {
			if msg := sp.row(m, s, vals); msg != "" {
				m.bad(s, at, n+": "+msg)
			}
		}
	}
	reached := map[string]int{}
	rowsSeen := map[string]bool{}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := c.W.At(in)
		m.closeRow(s, at, false)
		n := which(s)
		var evs []*Term
		for _, id := range strings.Fields(s.Get("ev")) {
			evs = append(evs, e.TT.list[atoi(id)])
		}
		r := res[0]
		if r.Op == "iface" && !e.NonNil(s, r.Args[0]) {
			if _, isP := r.Args[0].Typ.Underlying().(*types.Pointer); isP {
				m.bad(s, at, n+": the result may be a nil pointer that does not look like nil")
			}
		}
		if n == "" {
			unknown := true
			for _, x := range names {
				if is(s, x) >= 0 {
					unknown = false
				}
			}
			if unknown && (len(evs) > 0 || !e.IsNil(s, r)) {
				m.bad(s, at, "an unknown command is answered or has an effect")
			}
			if !unknown && (len(evs) > 0 || !e.IsNil(s, r)) {
				m.bad(s, at, "a command is answered without being looked at")
			}
			if unknown {
				reached["unknown"]++
			}
			return
		}
		reached[n]++
		if s.Get("rows") == "1" {
			rowsSeen[n] = true
		}
		sp := commands[n]
		hasPar := -1 // request is a parameter map
		for id, f := range s.facts {
			if t := e.TT.list[id]; t.Op == "istype" && t.Args[0] == pack && f.truth > 0 {
				hasPar = 1
			}
		}
		if sp.result == "save" {
			m.save(s, at, n, evs, r, hasPar > 0, pack)
			return
		}
		if sp.result == "detail" {
			m.detail(s, at, n, evs, r, hasPar > 0, pack)
			return
		}
		if sp.needPar && hasPar < 0 {
			if len(evs) > 0 {
				m.bad(s, at, n+": something is done without a parameter")
			}
			return
		}
		if len(evs) != len(sp.effects) {
			var l []string
			for _, x := range evs {
				l = append(l, x.Aux[:strings.Index(x.Aux, "@")])
			}
			m.bad(s, at, fmt.Sprintf("%s is answered with the calls %v", n, l))
			return
		}
		for i, want := range sp.effects {
			got := evs[i]
			if !strings.HasPrefix(got.Aux, want[0]+"@") {
				m.bad(s, at, fmt.Sprintf("%s calls %s instead of %s", n, got.Aux[:strings.Index(got.Aux, "@")], want[0]))
				return
			}
			for j, w := range want[1:] {
				if j >= len(got.Args) {
					break
				}
				a := got.Args[j]
				ok := false
				switch {
				case w == "pack":
					ok = req(a)
				case w == "out":
					ok = a == out
				case w[0] == '$':
					k, isS := (*Term)(nil), false
					if a.Op == "call" && a.Aux == "GetString" {
						k = a.Args[1]
						x, o := k.Str()
						isS = o && x == w[1:] && req(a.Args[0])
					}
					ok = isS
				default:
					v, o := a.Int()
					ok = o && fmt.Sprint(v) == w
				}
				if !ok {
					m.bad(s, at, fmt.Sprintf("%s: argument %d of %s is %s, must be %s", n, j+1, want[0], a, w))
				}
			}
		}
		switch sp.result {
		case "nil":
			if !e.IsNil(s, r) {
				m.bad(s, at, n+" is answered with a pack")
			}
		case "pack":
			if !req(r) && r != pack {
				m.bad(s, at, n+" is not answered with the request's pack")
			}
		case "effect":
			if unboxS(r) != evs[0] {
				m.bad(s, at, n+" is not answered with the handler's result: "+r.String())
			}
		case "built":
			u := unboxS(r)
			if !(u.Op == "call" && strings.HasPrefix(u.Aux, "mappack@")) {
				m.bad(s, at, n+" is not answered with a pack built for it: "+r.String())
				return
			}
			for k, p := range sp.puts {
				if v := m.got(s, u, k); v == nil || !p(m, s, v) {
					m.bad(s, at, fmt.Sprintf("%s: the answer's %q is wrong or missing", n, k))
				}
			}
			for _, col := range sp.cols {
				if s.Get(fmt.Sprintf("col:%d:%s", u.ID, col)) == "" {
					m.bad(s, at, fmt.Sprintf("%s: the answer has no column %q", n, col))
				}
			}
		}
	}
	e.Run(fn, ps, nil, func() { reached = map[string]int{} })
	c.Use(e, FnName(fn))
	for _, n := range names {
		c.Ob("command", n)
		if reached[n] == 0 {
			c.Bad("command", n, c.W.FnAt(fn), "no path answers this command")
		} else if sp := commands[n]; (len(sp.cols) > 0 || sp.dyn != "") && !rowsSeen[n] {
			c.Bad("command", n, c.W.FnAt(fn), "no path adds the entries one by one")
		}
	}
	if reached["unknown"] == 0 {
		c.Bad("command", "unknown", c.W.FnAt(fn), "no path ignores unknown commands")
	}
}

func isExtRefresh(f *ssa.Function) bool {
	n, ok := methodOn(f, "conf", "Configure")
	return ok && n == "Refresh"
}

func isBasicKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func sortedKeys2(m map[string]cmdSpec) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// save judges SET_CONFIGURE_WAS.
func (m *packMon) save(s *State, at, n string, evs []*Term, r *Term, hasPar bool, pack *Term) {
	e := m.e
	u := unboxS(r)
	v := m.got(s, u, "result")
	if v == nil {
		m.bad(s, at, n+": the answer has no result")
		return
	}
	yes := false
	if b, ok := v.Bool(); ok {
		yes = b
	} else if x, ok := v.Str(); ok {
		yes = x == "true"
	} else {
		m.bad(s, at, n+": the result is "+v.String())
		return
	}
	if !hasPar {
		if yes || len(evs) > 0 {
			m.bad(s, at, n+": something is saved or reported saved without a text")
		}
		return
	}
	if len(evs) == 0 || !strings.HasPrefix(evs[0].Aux, "conf.SaveConfigText@") {
		m.bad(s, at, n+": the text is not saved")
		return
	}
	a := evs[0].Args[0]
	k := ""
	if a.Op == "call" && a.Aux == "GetString" && unassert(a.Args[0]) == pack {
		k, _ = a.Args[1].Str()
	}
	if k != "setConfig" {
		m.bad(s, at, n+": the text saved is not the request's setConfig: "+a.String())
	}
	switch e.Eval(s, evs[0]) {
	case 1:
		if !yes || len(evs) != 2 || !strings.HasPrefix(evs[1].Aux, "conf.Refresh@") {
			m.bad(s, at, n+": a saved text is not loaded and reported as saved")
		}
	case -1:
		if yes || len(evs) != 1 {
			m.bad(s, at, n+": a text that could not be saved is reported as saved or loaded")
		}
	default:
		m.bad(s, at, n+": the answer does not depend on whether the text was saved")
	}
}

// detail judges OBJECT_THREAD_DETAIL.
func (m *packMon) detail(s *State, at, n string, evs []*Term, r *Term, hasPar bool, pack *Term) {
	e := m.e
	u := unboxS(r)
	if !(u.Op == "call" && strings.HasPrefix(u.Aux, "mappack@")) {
		m.bad(s, at, n+" is not answered with a pack: "+r.String())
		return
	}
	if v := m.got(s, u, "Stack Trace"); v == nil {
		m.bad(s, at, n+": the answer has no Stack Trace")
	}
	if !hasPar {
		return
	}
	var tc *Term
	for _, t := range e.TT.list {
		if t.Op == "call" && t.Aux == "GetTraceContextByTxid" {
			a := t.Args[0]
			if a.Op == "call" && a.Aux == "GetInt64" && unassert(a.Args[0]) == pack {
				if k, _ := a.Args[1].Str(); k == "txid" {
					tc = t
				}
			}
		}
	}
	if tc == nil || s.Get("src:GetTraceContextByTxid") == "" {
		m.bad(s, at, n+": the service is not looked up by the request's txid")
		return
	}
	st := m.got(s, u, "State")
	if e.IsNil(s, tc) {
		if st == nil || !isStr("end")(m, s, st) {
			m.bad(s, at, n+": a service that is not active is not reported as ended")
		}
		return
	}
	want := map[string]func(v *Term) bool{
		"Service Txid": func(v *Term) bool {
			return v.Op == "call" && v.Aux == "IntToXlogString32" && fieldOfAny(v.Args[0], "Txid") == tc
		},
		"Service Name": func(v *Term) bool { return fieldOfAny(v, "ServiceName") == tc },
		"Service Elapsed": func(v *Term) bool {
			return v.Op == "call" && v.Aux == "MillisToNow" && fieldOfAny(v.Args[0], "StartTime") == tc
		},
		"Thread Name":       func(v *Term) bool { return v.Mentions(func(t *Term) bool { return fieldOfAny(t, "Goid") == tc }) },
		"Last trace method": func(v *Term) bool { return fieldOfAny(v, "LastMethod") == tc },
		"State":             func(v *Term) bool { return !isStr("end")(m, s, v) },
	}
	for k, p := range want {
		if v := m.got(s, u, k); v == nil || !p(v) {
			m.bad(s, at, fmt.Sprintf("%s: %q of an active service is wrong or missing", n, k))
		}
	}
}

// ---------------------------------------------------------------- file lists

// fileList checks a dump listing: one row per file with its own name, size and time.
func fileList(c *Ctx, fn *ssa.Function, cols map[string]string) {
	c.Ob("filelist", FnName(fn))
	m := newPackMon(c, fn, "filelist")
	e := m.e
	rows := 0
	m.row = func(s *State, at, pk string, vals map[string]*Term) {
		rows++
		var info *Term
		for col, what := range cols {
			v := vals[col]
			if v == nil {
				m.bad(s, at, "a row has no "+col)
				continue
			}
			v = v.StripConv()
			if what == "ModTime" {
				if !(v.Op == "call" && v.Aux == "TimeToMillis") {
					m.bad(s, at, "the time is not the file's modification time in milliseconds: "+v.String())
					continue
				}
				v = v.Args[0]
			}
			if !(v.Op == "call" && v.Aux == "m."+what) || info != nil && v.Args[0] != info {
				m.bad(s, at, fmt.Sprintf("%s is not the file's %s: %s", col, what, v))
				continue
			}
			info = v.Args[0]
		}
	}
	m.ext = func(s *State, k *Call) (*Term, bool) {
		if k.Fn == nil || !(isExt(k.Fn, "path/filepath", "Walk") || isExt(k.Fn, "path/filepath", "WalkDir")) || e.Dry {
			return nil, false
		}
		cl := k.Args[1]
		for cl.Op == "conv" {
			cl = cl.Args[0]
		}
		if cl.Op != "closure" || cl.Fn == nil {
			m.bad(s, c.W.At(k.Instr), "the function applied to the files is not known")
			return nil, false
		}
		// explore the callback with the lists it captured
		m2 := newPackMon(c, cl.Fn, "filelist")
		m2.row = m.row
		m2.e.TT = e.TT
		m2.e.RootBind = cl.Args
		m2.e.InitStore = s.store
		m2.e.OnBranch = nil
		vars := map[string]string{}
		for k, v := range s.Vars {
			vars[k] = v
		}
		m2.e.OnReturn = func(s2 *State, in *ssa.Return, res []*Term) {
			at := c.W.At(in)
			m2.closeRow(s2, at, false)
			if len(res) > 0 && !res[0].IsNil() {
				m2.bad(s2, at, "the walk is stopped early")
			}
		}
		m2.e.Run(cl.Fn, nil, vars, nil)
		c.Use(m2.e, FnName(cl.Fn))
		return nil, true
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := c.W.At(in)
		m.closeRow(s, at, false)
		u := unboxS(res[0])
		for col := range cols {
			if s.Get(fmt.Sprintf("col:%d:%s", u.ID, col)) == "" {
				m.bad(s, at, "the answer has no column "+col)
			}
		}
	}
	e.Run(fn, nil, nil, nil)
	c.Use(e, FnName(fn))
	if rows == 0 {
		c.Bad("filelist", FnName(fn), c.W.FnAt(fn), "no path lists a file")
	}
}

func init() {
	register("C14", "The command handler is explored on all abstract paths with map packs and list columns modelled: for every known command the effects, their arguments and the answer are compared with the command table; every list column gets one entry per element.",
		func(c *Ctx) {
			var hs []*ssa.Function
			callees := map[*ssa.Function]bool{}
			for _, f := range c.W.Funcs {
				if commandHandler(f) {
					hs = append(hs, f)
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if ci, ok := in.(ssa.CallInstruction); ok {
								if g := ci.Common().StaticCallee(); g != nil && g != f && commandHandler(g) {
									callees[g] = true
								}
							}
						}
					}
				}
			}
			n := 0
			for _, f := range hs {
				if !callees[f] {
					checkHandler(c, f)
					n++
				}
			}
			if n == 0 {
				c.Bad("anchor", tcpPkg+".handle", "-", "no command handler found")
			}
			if fn := c.Need(dumpPkg, "", "ListDumpFiles"); fn != nil {
				fileList(c, fn, map[string]string{"name": "Name", "size": "Size", "last_modified": "ModTime"})
			}
			if fn := c.Need(dumpPkg, "", "ListBinaryDumpFiles"); fn != nil {
				fileList(c, fn, map[string]string{"name": "Name", "size": "Size"})
			}
			c.Floor("command", len(commands))
			c.Floor("filelist", 2)
		})
}
