package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const gocPkg = "counter/gocounter"

// counterKeys: what each counter the collector knows stands for, and the group it is sent with.
var counterKeys = map[string][2]string{
	"Goroutine": {"go", "GoroutineNum"}, "GoCgoCall": {"go", "CgoCallNum"}, "GoGcCount": {"go", "GcPerSec"},
	"GoGcPause": {"go", "GcPausePerSec"}, "GoHeapUsed": {"go", "HeapAlloc"},
	"GoTPS": {"service", "Tps"}, "GoElapsedTime": {"service", "Elapsed"}, "GoErrorRate": {"service", "ErrorRate"},
	"GoActiveService": {"active", "Avg"}, "ActiveSpeed": {"active", "speed"},
}

type counterMon struct {
	c      *Ctx
	e      *Engine
	fn     *ssa.Function
	quiet  bool
	sent   map[string]bool // group|timetype
	active map[string]bool // variables the active services are averaged in
}

func (m *counterMon) bad(s *State, cons, at, msg string) {
	if !m.e.Dry && !m.quiet {
		m.c.Bad("pack", cons, at, msg, s.Trace()...)
	}
}

func isPackT(t types.Type) bool { return isNamedT(t, ndPkg, "PerfCounterPack") }

// listItems reads a list built by appending.
func (e *Engine) listItems(s *State, t *Term) ([]*Term, bool) {
	switch t.Op {
	case "append":
		if len(t.Args) != 2 {
			return nil, false
		}
		a, ok := e.listItems(s, t.Args[0])
		if !ok {
			return nil, false
		}
		return append(a, e.elems(s, t.Args[1])...), true
	case "make":
		k, ok := t.Args[0].Int()
		return nil, ok && k == 0
	case "nil":
		return nil, true
	case "slice":
		return e.elems(s, t), true
	}
	return nil, false
}

// arrayElem: t reads element i of an array value.
func (e *Engine) arrayElem(s *State, t *Term) (src *Term, i int64, ok bool) {
	t = t.StripConv()
	if t.Op == "load" && t.Args[0].Op == "indexaddr" {
		i, ok = t.Args[0].Args[1].Int()
		b := t.Args[0].Args[0]
		if cl, has := s.store[b.ID]; has {
			return cl.val, i, ok
		}
		return b, i, ok
	}
	if t.Op == "index" && len(t.Args) == 2 {
		i, ok = t.Args[1].Int()
		return t.Args[0], i, ok
	}
	return nil, 0, false
}

func (m *counterMon) isActive(s *State, t *Term, i int64) bool {
	src, k, ok := m.e.arrayElem(s, t)
	return ok && k == i && fmt.Sprint(src.ID) == s.Get("counts")
}

// source checks one value against the counter it is sent as.
func (m *counterMon) source(s *State, at, key string, v *Term, period int64, tt string) {
	want, ok := counterKeys[key]
	cons := FnName(m.fn) + " " + key + " " + tt
	if !ok {
		m.bad(s, cons, at, "no counter of this name is known: "+key)
		return
	}
	if !m.quiet {
		m.c.Ob("pack", cons)
	}
	v = unboxS(v)
	x := v.StripConv()
	switch want[0] {
	case "go":
		if x.Op != "field" || x.Aux != want[1] || !strings.HasPrefix(x.Args[0].Aux, "GetGoCounter@") {
			m.bad(s, cons, at, key+" is not "+want[1]+" of the counters read: "+v.String())
			return
		}
		if s.Get("prev:"+fmt.Sprint(x.Args[0].ID)) == "" {
			s.Set("needprev", s.Get("needprev")+fmt.Sprint(x.Args[0].ID)+" ")
		}
	case "service":
		if x.Op != "load" || x.Args[0].Op != "fieldaddr" || x.Args[0].Aux != want[1] || !strings.HasPrefix(x.Args[0].Args[0].Aux, "ServiceMetering.GetAllCounter@") {
			m.bad(s, cons, at, key+" is not "+want[1]+" of the service counters: "+v.String())
			return
		}
		m.span(s, cons, at, x.Args[0].Args[0], period)
	case "active":
		if want[1] == "speed" {
			if got := s.Get("list:" + fmt.Sprint(v.ID)); got != "0 1 2" {
				m.bad(s, cons, at, key+" is not the list of the three counts of active services, in order: "+v.String())
			}
			return
		}
		if x.Op != "load" || x.Args[0].Op != "fieldaddr" || x.Args[0].Aux != want[1] || !strings.HasPrefix(x.Args[0].Args[0].Aux, "ValueMetering.GetAllCounter@") {
			m.bad(s, cons, at, key+" is not the average of the active services counted: "+v.String())
			return
		}
		call := x.Args[0].Args[0]
		m.span(s, cons, at, call, period)
		id := cacheID(call.Args[0])
		m.active[id] = true
		if tt == "realtime" && s.Get("after:"+fmt.Sprint(call.ID)) == "" {
			m.bad(s, cons, at, "the services active now are not counted before the average is taken")
		}
	}
}

func (m *counterMon) span(s *State, cons, at string, call *Term, period int64) {
	if k, ok := call.Args[1].Int(); !ok || k != period {
		m.bad(s, cons, at, fmt.Sprintf("the period is not %d seconds: %s", period, call.Args[1].String()))
	}
}

func (m *counterMon) send(s *State, at string, p *Term) {
	e := m.e
	cons := FnName(m.fn)
	pk := unboxS(p)
	if !isPackT(pk.Typ) {
		if e.Dry {
			return
		}
		if !e.NonNil(s, p) {
			m.bad(s, cons+" nil", at, "what is sent may be nil, after a panic for example: "+p.String())
		}
		if !m.quiet {
			m.bad(s, cons, at, "what is sent is no counter pack: "+p.String())
		}
		return
	}
	if e.Dry {
		return
	}
	if !isConfLoad(e.fieldAt(s, pk, "ObjName"), "ObjName") {
		m.bad(s, cons, at, "the pack does not carry the current object name: "+e.fieldAt(s, pk, "ObjName").String())
	}
	k, ok := e.fieldAt(s, pk, "Timetype").Int()
	tt, period := "realtime", int64(30)
	if ok && k == 3 {
		tt, period = "five minutes", 300
	} else if !ok || k != 1 {
		m.bad(s, cons, at, "the pack is neither a real-time nor a five-minute one")
		return
	}
	data := fmt.Sprint(e.fieldAt(s, pk, "Data").ID)
	groups := map[string][]string{}
	for _, kk := range sortedKeys(s.Vars) {
		if !strings.HasPrefix(kk, "put:"+data+":") {
			continue
		}
		key := kk[len("put:"+data+":"):]
		m.source(s, at, key, e.TT.list[atoi(s.Vars[kk])], period, tt)
		groups[counterKeys[key][0]] = append(groups[counterKeys[key][0]], key)
		delete(s.Vars, kk)
	}
	for g, l := range groups {
		for key, w := range counterKeys {
			if w[0] != g || tt != "realtime" && key == "ActiveSpeed" {
				continue
			}
			has := false
			for _, x := range l {
				has = has || x == key
			}
			if !has {
				m.bad(s, cons+" "+key+" "+tt, at, key+" is not sent although other counters of its kind are")
			}
		}
		m.sent[g+"|"+tt] = true
		s.Set("g:"+g+"|"+tt, "1")
	}
	if len(groups) == 0 {
		m.bad(s, cons, at, "an empty counter pack is sent")
	}
	s.Set("made:"+data, "")
}

func (m *counterMon) roundEnd(s *State, at string) {
	cons := FnName(m.fn)
	for _, k := range sortedKeys(s.Vars) {
		if strings.HasPrefix(k, "made:") {
			m.bad(s, cons, at, "a counter pack is made but not sent")
		}
		if strings.HasPrefix(k, "put:") {
			m.bad(s, cons, at, "a counter is put into a pack that is not sent, or was sent before")
		}
	}
	for _, id := range strings.Fields(s.Get("needprev")) {
		if s.Get("prev:"+id) == "" {
			m.bad(s, cons, at, "the counters read are not kept for the next reading")
		}
	}
	for g := range m.sent {
		if s.Get("g:"+g) == "" && !m.quiet {
			m.bad(s, cons, at, "the "+strings.Replace(g, "|", " counters, ", 1)+", are not sent in every round")
		}
	}
	for k := range s.Vars {
		delete(s.Vars, k)
	}
}

func (m *counterMon) run(opaque func(f *ssa.Function) bool) {
	e, c := m.e, m.c
	w := c.W
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	e.Opaque = opaque
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		f := k.Fn
		at := w.At(k.Instr)
		var rt types.Type
		if v := k.Instr.Value(); v != nil {
			rt = v.Type()
		}
		if f == nil {
			return nil, false
		}
		if opaque != nil && opaque(f) {
			return nil, false
		}
		if n, ok := methodOn(f, ctrsPkg, "ServiceMetering"); ok {
			r := e.TT.mk("call", "ServiceMetering."+n+"@"+k.Site, rt, nil, k.Args...)
			e.forget(s, r)
			if !e.Dry && (n != "GetAllCounter" || !strings.HasPrefix(k.Args[0].Aux, "servicemeter")) {
				m.bad(s, FnName(m.fn), at, "the service counters are not read from the service meter")
			}
			return r, true
		}
		if n, ok := methodOn(f, ctrsPkg, "ValueMetering"); ok {
			r := e.TT.mk("call", "ValueMetering."+n+"@"+k.Site, rt, nil, k.Args...)
			e.forget(s, r)
			id := cacheID(k.Args[0])
			if n == "GetAllCounter" && !e.Dry {
				s.Set("after:"+fmt.Sprint(r.ID), s.Get("added:"+id))
			}
			if n == "Add" && !e.Dry {
				sum := toPoly(m.intOf(k.Args[1]), nil)
				n := 0
				var bad bool
				for mono, co := range sum {
					var x *Term
					if strings.HasPrefix(mono, "t") && !strings.Contains(mono, "*") {
						x = e.TT.list[atoi(mono[1:])]
					}
					if x == nil || co != 1 {
						bad = true
						continue
					}
					ok := false
					for i := int64(0); i < 3; i++ {
						if m.isActive(s, x, i) {
							ok = true
							n++
						}
					}
					bad = bad || !ok
				}
				if bad || n != 3 {
					m.bad(s, FnName(m.fn), at, "what is averaged is not the number of active services: "+k.Args[1].String())
				}
				if s.Get("added:"+id) != "" {
					m.bad(s, FnName(m.fn), at, "the active services are counted twice in one round")
				}
				s.Set("added:"+id, "1")
				m.active[id] = true
			}
			return r, true
		}
		switch {
		case isFn(f, ctrsPkg, "GetServiceMeter"):
			return e.TT.mk("call", "servicemeter", rt, nil), true
		case isFn(f, confPkg, "GetInstance"):
			return e.TT.mk("call", "conf", rt, nil), true
		case isFn(f, gocPkg, "GetGoCounter"):
			r := e.TT.mk("call", "GetGoCounter@"+k.Site, rt, nil, k.Args...)
			e.forget(s, r)
			if g := globalOf(k.Args[0]); g == "" && !e.Dry {
				m.bad(s, FnName(m.fn), at, "the counters are not compared with the reading before: "+k.Args[0].String())
			} else if !e.Dry {
				s.Set("from:"+fmt.Sprint(r.ID), g)
			}
			return r, true
		case isFn(f, tmPkg, "GetActiveCount"):
			r := e.TT.mk("call", "GetActiveCount@"+k.Site, rt, nil)
			e.forget(s, r)
			if !e.Dry {
				s.Set("counts", fmt.Sprint(r.ID))
			}
			return r, true
		case isFn(f, nioPkg, "SendPackDirect"):
			m.send(s, at, k.Args[0])
			return nil, true
		}
		if n, ok := methodOn(f, usPkg, "UDPSender"); ok {
			if n == "SendPackDirect" || n == "AddPack" {
				m.send(s, at, k.Args[1])
			}
			return nil, true
		}
		if isFn(f, usPkg, "GetInstance") {
			return e.TT.mk("call", "sender", rt, nil), true
		}
		put := func(data, key, v *Term) {
			if e.Dry {
				return
			}
			ks, ok := key.Str()
			if !ok {
				m.bad(s, FnName(m.fn), at, "the name of a counter is not fixed: "+key.String())
				return
			}
			if o := unboxS(v); isNamedT(o.Typ, ndPkg, "ListValue") {
				var l []string
				if items, ok := e.listItems(s, e.fieldAt(s, o, "Value")); ok {
					for _, it := range items {
						n := "?"
						if d := unboxS(it); isNamedT(d.Typ, ndPkg, "DecimalValue") {
							for i := int64(0); i < 3; i++ {
								if m.isActive(s, e.fieldAt(s, d, "Value"), i) {
									n = fmt.Sprint(i)
								}
							}
						}
						l = append(l, n)
					}
				}
				s.Set("list:"+fmt.Sprint(o.ID), strings.Join(l, " "))
			}
			s.Set("put:"+fmt.Sprint(data.ID)+":"+ks, fmt.Sprint(v.ID))
		}
		if n, ok := methodOn(f, ndPkg, "PerfCounterPack"); ok && n == "Put" {
			put(e.fieldAt(s, k.Args[0], "Data"), k.Args[1], k.Args[2])
			return nil, true
		}
		if n, ok := methodOn(f, ndPkg, "MapValue"); ok && n == "Put" {
			put(k.Args[0], k.Args[1], k.Args[2])
			return nil, true
		}
		if strings.HasPrefix(FnPkg(f), "sync") {
			return nil, true
		}
		return nil, false
	}
	e.OnStore = func(s *State, in ssa.Instruction, addr, val *Term) {
		if e.Dry {
			return
		}
		if addr.Op == "global" && isNamedT(val.Typ, gocPkg, "GoCounter") {
			id := fmt.Sprint(val.ID)
			if s.Get("from:"+id) != addr.Aux {
				m.bad(s, FnName(m.fn), w.At(in), "what is kept for the next reading is not this reading: "+val.String())
			}
			s.Set("prev:"+id, "1")
		}
		if addr.Op == "fieldaddr" && addr.Aux == "Data" && isPackT(addr.Args[0].Typ) {
			s.Set("made:"+fmt.Sprint(val.ID), "1")
		}
	}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if back && e.roundLoop(s, hdr) {
			m.roundEnd(s, w.FnAt(m.fn))
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if !e.Dry {
			m.roundEnd(s, w.At(in))
		}
	}
	q := m.quiet
	if !q {
		m.quiet = true
		e.Run(m.fn, nil, nil, nil)
		m.quiet = false
	}
	e.Run(m.fn, nil, nil, nil)
	c.Use(e, FnName(m.fn))
}

// globalOf: the package variable a value was read from.
func globalOf(t *Term) string {
	if t.Op == "load" && t.Args[0].Op == "global" {
		return t.Args[0].Aux
	}
	if i := strings.LastIndex(t.Aux, ":&"); t.Op == "loopcell" && i >= 0 {
		return t.Aux[i+2:]
	}
	return ""
}

// intOf strips the conversion of a whole number to a float.
func (m *counterMon) intOf(t *Term) *Term { return t.StripConv() }

// recovers: f recovers from panics in a deferred call and then returns whatever its results are.
func recovers(w *World, f *ssa.Function) bool {
	if f == nil || !w.InRepo(f) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if g := d.Call.StaticCallee(); g != nil && callsRecover(g) {
					return true
				}
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok && callsRecover(mc.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
	}
	return false
}

func counterPacks(c *Ctx) {
	w := c.W
	makes := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && isFn(ci.Common().StaticCallee(), ndPkg, "NewPerfCounterPack") && !strings.HasPrefix(relPkg(FnPkg(in.Parent())), "common/")
	}
	task := map[string]bool{}
	active := map[string]bool{}
	done := map[*ssa.Function]bool{}
	visited := map[*ssa.Function]bool{}
	for _, g := range goStarts(w) {
		if g.Fn == nil || done[g.Fn] || !w.reaches(g.Fn, makes) {
			continue
		}
		done[g.Fn] = true
		c.Ob("round", FnName(g.Fn))
		m := &counterMon{c: c, e: NewEngine(w), fn: g.Fn, sent: map[string]bool{}, active: map[string]bool{}}
		m.run(nil)
		for f := range m.e.Visited {
			visited[f] = true
		}
		for k := range m.sent {
			c.Ob("group", FnName(g.Fn)+" "+k)
			if strings.HasPrefix(relPkg(FnPkg(g.Fn)), "task/") {
				task[k] = true
			}
		}
		for k := range m.active {
			active[k] = true
		}
		if len(m.sent) == 0 {
			c.Bad("round", FnName(g.Fn), w.FnAt(g.Fn), "no counters are sent")
		}
		// a pack that was not finished because of a panic
		op := func(f *ssa.Function) bool {
			return recovers(w, f) && f.Signature.Results().Len() == 1 && f != g.Fn && w.reaches(f, makes)
		}
		q := &counterMon{c: c, e: NewEngine(w), fn: g.Fn, sent: map[string]bool{}, active: map[string]bool{}}
		any := false
		for f := range m.e.Visited {
			any = any || op(f)
		}
		if any {
			q.e.Opaque = op
			nilRun(c, q, op)
		}
	}
	for _, k := range []string{"go|realtime", "service|realtime", "active|realtime", "service|five minutes", "active|five minutes"} {
		c.Check(task[k], "task", k, "-", "no background task sends the "+k+" counters")
	}
	delete(active, "")
	if len(active) > 1 {
		c.Bad("task", "active", "-", "the active services are averaged in one place and read in another: "+strings.Join(sortedKeys(active), ", "))
	}
	// every counter pack made in the agent was followed
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if makes(in) && relPkg(FnPkg(f)) != ndPkg && !visited[f] {
					c.Bad("elsewhere", FnName(f), w.At(in), "a counter pack is made that no background task sends")
				}
			}
		}
	}
}

// nilRun looks only at whether what is sent can be nil.
func nilRun(c *Ctx, m *counterMon, op func(*ssa.Function) bool) {
	e, w := m.e, c.W
	e.KeepFact = func(*Term) bool { return true }
	e.NoHavoc = func(*Call) bool { return true }
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		send := func(p *Term) (*Term, bool) {
			if !e.Dry {
				c.Ob("nil", FnName(m.fn))
				if !e.NonNil(s, p) {
					c.Bad("nil", FnName(m.fn), w.At(k.Instr), "what is sent is nil when making it panicked: "+p.String(), s.Trace()...)
				}
			}
			return nil, true
		}
		if isFn(k.Fn, nioPkg, "SendPackDirect") {
			return send(k.Args[0])
		}
		if n, ok := methodOn(k.Fn, usPkg, "UDPSender"); ok && (n == "SendPackDirect" || n == "AddPack") {
			return send(k.Args[1])
		}
		if k.Fn != nil && !op(k.Fn) && w.InRepo(k.Fn) && !w.reaches(k.Fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && ci.Common().StaticCallee() != nil && isFn(ci.Common().StaticCallee(), nioPkg, "SendPackDirect")
		}) && k.Fn.Signature.Results().Len() == 0 {
			return nil, true
		}
		return nil, false
	}
	e.Run(m.fn, nil, nil, nil)
	c.Use(e, FnName(m.fn))
}

// ---------------------------------------------------------------- reading the runtime

func goCounter(c *Ctx) {
	fn := c.Need(gocPkg, "", "GetGoCounter")
	if fn == nil {
		return
	}
	w := c.W
	e := NewEngine(w)
	e.KeepFact = func(*Term) bool { return true }
	var mem *Term
	bad := func(s *State, f, at, msg string) {
		if !e.Dry {
			c.Bad("runtime", f, at, msg, s.Trace()...)
		}
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		f := k.Fn
		if f == nil {
			return nil, false
		}
		switch {
		case isExt(f, "runtime", "ReadMemStats"):
			mem = k.Args[0]
			if s.Get("mem") != "" && !e.Dry {
				bad(s, "memory", w.At(k.Instr), "the memory statistics are read twice")
			}
			s.Set("mem", "1")
			return nil, false
		case isExt(f, "runtime", "NumGoroutine"), isExt(f, "runtime", "NumCgoCall"):
			return e.TT.mk("call", "runtime."+f.Name(), k.Instr.Value().Type(), nil), true
		case isExtMethod(f, "time", "Time", "UnixNano"):
			return e.TT.mk("call", "nownano@"+k.Site, k.Instr.Value().Type(), nil), true
		case strings.HasPrefix(FnPkg(f), "sync"):
			return nil, true
		}
		return nil, false
	}
	memField := func(t *Term, name string) bool {
		t = t.StripConv()
		switch {
		case t.Op == "field" && t.Aux == name:
			t = t.Args[0]
		case t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == name:
			t = t.Args[0].Args[0]
		case t.Op == "fresh" && mem != nil && strings.Contains(t.Aux, mem.String()+"."+name):
			return true
		default:
			return false
		}
		return isNamedT(t.Typ, "runtime", "MemStats") || deref(t.Typ).String() == "runtime.MemStats"
	}
	c.Ob("runtime", FnName(fn))
	n := 0
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if e.Dry {
			return
		}
		n++
		at := w.At(in)
		r := res[0]
		get := func(f string) *Term {
			for _, v := range structFields(r.Typ) {
				if v.Name() == f {
					if r.Op == "load" && r.Args[0].Op == "alloc" {
						return e.Load(s, e.TT.mk("fieldaddr", f, types.NewPointer(v.Type()), nil, r.Args[0]), v.Type())
					}
					return e.fieldOf(r, f, v.Type())
				}
			}
			return e.TT.mk("fresh", "nofield", types.Typ[types.Int], nil)
		}
		prev := func(t *Term) string { // field of the reading before
			t = t.StripConv()
			if t.Op == "field" && t.Args[0].Op == "param" {
				return t.Aux
			}
			if t.Op == "load" && t.Args[0].Op == "fieldaddr" {
				if cl, ok := s.store[t.Args[0].Args[0].ID]; ok && cl.val.Op == "param" {
					return t.Args[0].Aux
				}
			}
			return ""
		}
		for _, f := range []string{"GoroutineNum", "CgoCallNum", "HeapAlloc", "Timestamp", "GcPerSec", "GcPausePerSec"} {
			c.Ob("runtime", f)
		}
		if v := get("GoroutineNum").StripConv(); v.Aux != "runtime.NumGoroutine" {
			bad(s, "GoroutineNum", at, "not the number of goroutines: "+v.String())
		}
		if v := get("CgoCallNum").StripConv(); v.Aux != "runtime.NumCgoCall" {
			bad(s, "CgoCallNum", at, "not the number of cgo calls: "+v.String())
		}
		if v := get("HeapAlloc"); !memField(v, "HeapAlloc") {
			bad(s, "HeapAlloc", at, "not the heap in use: "+v.String())
		}
		now := get("Timestamp").StripConv()
		if !strings.HasPrefix(now.Aux, "nownano@") {
			bad(s, "Timestamp", at, "not the time of the reading: "+now.String())
			return
		}
		// is there a reading before?
		first := 0
		for id, f := range s.facts {
			t := e.TT.list[id]
			x := t
			if t.Op == "bin" && len(t.Args) == 2 {
				x = t.Args[0]
			}
			if prev(x) == "Timestamp" && f.iv == nil && t.Op == "bin" && t.Aux == "==" && isZeroT(t.Args[1]) {
				first = int(f.truth)
			}
			if prev(t) == "Timestamp" && f.iv != nil {
				if f.iv.lo > 0 || f.iv.hi < 0 {
					first = -1
				} else if f.iv.hi <= 0 {
					first = 1
				}
				for _, ne := range f.iv.ne {
					if ne == 0 {
						first = -1
					}
				}
			}
		}
		rate := func(f, src string, k float64) {
			v := get(f)
			if first > 0 {
				if !isZeroT(v) {
					bad(s, f, at, "a rate is given although there is no reading before: "+v.String())
				}
				return
			}
			if first == 0 {
				bad(s, f, at, "whether there is a reading before is not looked at")
				return
			}
			var num, den []*Term
			if !quotient(v, true, &num, &den) {
				bad(s, f, at, "not understood: "+v.String())
				return
			}
			sc, num, den := scale(num, den)
			sub := func(l []*Term) (a, b *Term) {
				if len(l) == 1 && l[0].StripConv().Op == "bin" && l[0].StripConv().Aux == "-" {
					x := l[0].StripConv()
					return x.Args[0], x.Args[1]
				}
				return nil, nil
			}
			a, b := sub(num)
			t1, t0 := sub(den)
			if a == nil || t1 == nil || !memField(a, src) || t1.StripConv() != now || prev(t0) != "Timestamp" {
				bad(s, f, at, "not the change of "+src+" over the time since the reading before: "+v.String())
				return
			}
			keep := prev(b)
			if keep == "" || !memField(get(keep), src) {
				bad(s, f, at, "what is taken away is not what the reading before found for "+src+": "+b.String())
			}
			if !constant.Compare(constant.ToFloat(sc), token.EQL, constant.MakeFloat64(k)) {
				bad(s, f, at, "the rate is not per second: "+sc.String())
			}
		}
		rate("GcPerSec", "NumGC", 1e9)
		rate("GcPausePerSec", "PauseTotalNs", 1000)
	}
	e.Run(fn, nil, nil, func() { n = 0 })
	c.Use(e, FnName(fn))
	c.Check(n > 0, "runtime", FnName(fn), w.FnAt(fn), "never returns")
	_ = sort.Strings
}

func init() {
	register("C23", "Every background task that sends counter packs is explored round by round: each value put is traced back to the counter, period and reading it stands for, with the object name, time type and completeness of every pack sent; the reading of the runtime is explored on all paths and its rates compared with differences to the previous reading.", func(c *Ctx) {
		counterPacks(c)
		goCounter(c)
		c.Floor("round", 3)
		c.Floor("pack", 20)
		c.Floor("runtime", 7)
	})
}
