package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- frozen protocol tables (collector protocol; confirmed by reading the encoders at the pinned commit)

const stepHdr = "dec .SingleStep.Parent; dec .SingleStep.Index; dec .SingleStep.StartTime; dec 0; "

var packLayouts = map[string]string{
	"XlogPack": "blob{dec .EndTime; dec .ObjHash; dec .Service; 8 .Txid; 8 .Caller; 8 .Gxid; dec .Elapsed; dec .Error; dec .Cpu; dec .SqlCount; dec .SqlTime; " +
		"blob .Ipaddr; dec .Kbytes; dec .Status; dec .Userid; dec .UserAgent; dec .Referer; dec .Group; dec .ApicallCount; dec .ApicallTime; text .CountryCode; dec .City; " +
		"1 .XType; dec .Login; dec .Desc; dec .WebHash; dec .WebTime; 1 .HasDump; dec .ThreadNameHash; text .Text1; text .Text2; dec .QueuingHostHash; dec .QueuingTime; " +
		"dec .Queuing2ndHostHash; dec .Queuing2ndTime; text .Text3; text .Text4; text .Text5; dec .ProfileCount; bool .B3Mode; dec .ProfileSize; 1 .DiscardType; bool .IgnoreGlobalConsequentSampling}",
	"XlogProfilePack":    "dec .Time; dec .ObjHash; dec .Service; 8 .Txid; blob .Profile",
	"TextPack":           "text .Xtype; 4 .Hash; text .Text",
	"AlertPack":          "8 .Time; 1 .Level; text .ObjType; 4 .ObjHash; text .Title; text .Message; value .Tags",
	"ObjectPack":         "text .ObjType; dec .ObjHash; text .ObjName; text .Address; text .Version; bool .Alive; dec .Wakeup; value .Tags",
	"ObjectPack2":        "text .SiteID; text .ObjType; dec .ObjHash; text .ObjName; text .Address; text .Version; bool .Alive; dec .Wakeup; 1 .Family; value .Tags",
	"PerfCounterPack":    "8 .Time; text .ObjName; 1 .Timetype; value .Data",
	"PerfCounterK8SPack": "8 .Time; text .SiteID; text .Cluster; text .NameSpace; text .NodeName; text .DaemonSetName; text .DeploymentName; text .PodName; text .ContainerName; text .ObjName; 1 .Timetype; 1 .MetricLevel; value .Data",
	"MapPack":            "dec len(.Table); loop .Table {text KEY; value VAL}",
}

var stepLayouts = map[string]string{
	"MethodStep":        stepHdr + "dec .Hash; dec .Elapsed; dec .CpuTime",
	"MessageStep":       stepHdr + "text .Message",
	"HashedMessageStep": stepHdr + "dec .Hash; dec .Time; dec .Value",
	"PMessageStep":      stepHdr + "dec .Hash; dec .Elapsed; dec .Level; text .paramString",
	"ApiCallStep":       stepHdr + "dec .Txid; dec .Hash; dec .Elapsed; dec .CpuTime; dec .Error; 1 .Opt; ?(.Opt==1) text .Address",
	"AsyncServiceStep":  stepHdr + "dec .Txid; dec .Hash; dec .Elapsed; 1 1",
	"DumpStep":          stepHdr + "i32s .Stacks; 8 ._threadId; text ._threadName; text ._threadState; 8 ._lockOwnerId; text ._lockName; text ._lockOwnerName",
}

var valueLayouts = map[string]string{
	"NilValue":      "",
	"BooleanValue":  "bool .Value",
	"DecimalValue":  "dec .Value",
	"Float32Value":  "f4 .Value",
	"DoubleValue":   "f8 .Value",
	"TextValue":     "text .Value",
	"TextHashValue": "4 .Value",
	"BlobValue":     "blob .Value",
	"Ip4Value":      "raw .Value",
	"ListValue":     "dec len(.Value); loop .Value {value VAL}",
	"MapValue":      "dec len(.Table); loop .Table {text KEY; value VAL}",
}

var packTags = map[string]int64{"XlogPack": 21, "XlogProfilePack": 26, "TextPack": 50, "AlertPack": 70, "ObjectPack": 80, "ObjectPack2": 80, "PerfCounterPack": 60, "PerfCounterK8SPack": 65, "MapPack": 10}
var stepTags = map[string]int64{"MethodStep": 1, "MessageStep": 3, "HashedMessageStep": 9, "PMessageStep": 17, "ApiCallStep": 6, "AsyncServiceStep": 14, "DumpStep": 12}
var valueTags = map[string]int64{"NilValue": 0, "BooleanValue": 10, "DecimalValue": 20, "Float32Value": 30, "DoubleValue": 40, "TextValue": 50, "TextHashValue": 51, "BlobValue": 60, "Ip4Value": 61, "ListValue": 70, "MapValue": 80}

type litem struct {
	kind, arg, cond string
	loop            []litem
	nested          []litem
}

func parseLayout(s string) []litem {
	var r []litem
	s = strings.TrimSpace(s)
	for s != "" {
		s = strings.TrimLeft(s, " ;")
		if s == "" {
			break
		}
		var it litem
		if strings.HasPrefix(s, "blob{") {
			j := strings.Index(s, "}")
			it.kind, it.nested = "blob", parseLayout(s[5:j])
			s = s[j+1:]
			r = append(r, it)
			continue
		}
		if strings.HasPrefix(s, "loop ") {
			i, j := strings.Index(s, "{"), strings.Index(s, "}")
			it.kind, it.arg = "loop", strings.TrimSpace(s[5:i])
			it.loop = parseLayout(s[i+1 : j])
			s = s[j+1:]
			r = append(r, it)
			continue
		}
		if strings.HasPrefix(s, "?(") {
			j := strings.Index(s, ")")
			it.cond = s[2:j]
			s = strings.TrimSpace(s[j+1:])
		}
		j := strings.Index(s, ";")
		tok := s
		if j >= 0 {
			tok, s = s[:j], s[j+1:]
		} else {
			s = ""
		}
		p := strings.SplitN(strings.TrimSpace(tok), " ", 2)
		it.kind = p[0]
		if len(p) > 1 {
			it.arg = p[1]
		}
		r = append(r, it)
	}
	return r
}

// layoutMon tracks the position in a layout for one direction.
type layoutMon struct {
	c      *Ctx
	e      *Engine
	rule   string
	name   string
	root   *ssa.Function
	spec   []litem
	read   bool
	sinks  func(t *Term) bool
	failed bool
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

func (m *layoutMon) bad(s *State, at, msg string) {
	m.c.Bad(m.rule, m.name, at, msg, s.Trace()...)
	m.failed = true
}

func specStr(it litem) string {
	switch {
	case it.kind == "loop":
		return "one entry per element of " + it.arg
	case it.nested != nil:
		return "the nested record as a blob"
	}
	return strings.TrimSpace(it.kind + " " + it.arg)
}

// condHolds evaluates an optional item's guard in the current state: 1, -1 or 0 (unknown)
func (m *layoutMon) condHolds(s *State, cond string) int {
	p := strings.SplitN(cond, "==", 2)
	for id, f := range s.facts {
		t := m.e.TT.list[id]
		if shortT(t) == p[0] && f.iv != nil {
			v := int64(atoi(p[1]))
			if f.iv.lo == v && f.iv.hi == v {
				return 1
			}
			if v < f.iv.lo || v > f.iv.hi {
				return -1
			}
			for _, n := range f.iv.ne {
				if n == v {
					return -1
				}
			}
		}
	}
	return 0
}

// event consumes one wire event on the record.
func (m *layoutMon) event(s *State, at, kind string, arg *Term, argS string) {
	if s.Get("dead") != "" || errKnown(m.e, s) {
		return
	}
	pos := atoi(s.Get("pos"))
	for {
		if pos >= len(m.spec) {
			m.bad(s, at, fmt.Sprintf("extra item %s %s after the end of the record", kind, argS))
			s.Set("dead", "1")
			return
		}
		it := m.spec[pos]
		if it.kind == "loop" {
			lp := atoi(s.Get("lpos"))
			if s.Get("in") == "" {
				// not inside an iteration
				if pos+1 < len(m.spec) && s.Get("loopdone") != "" {
					pos++
					continue
				}
				m.bad(s, at, fmt.Sprintf("item %s %s written outside the per-element loop; expected %s", kind, argS, specStr(it)))
				s.Set("dead", "1")
				return
			}
			if lp >= len(it.loop) {
				m.bad(s, at, fmt.Sprintf("extra item %s %s in one loop entry", kind, argS))
				s.Set("dead", "1")
				return
			}
			li := it.loop[lp]
			if li.kind != kind || !m.read && !m.loopArgOK(s, li.arg, arg) {
				m.bad(s, at, fmt.Sprintf("loop entry has %s %s where %s is expected", kind, argS, specStr(li)))
				s.Set("dead", "1")
				return
			}
			s.Set("lpos", fmt.Sprint(lp+1))
			return
		}
		if it.cond != "" {
			match := it.kind == kind && (m.read || argS == it.arg)
			h := m.condHolds(s, it.cond)
			if match {
				if h != 1 {
					m.bad(s, at, fmt.Sprintf("%s is written although %s is not established", specStr(it), it.cond))
				}
			} else {
				pos++
				continue
			}
		}
		if it.kind != kind {
			m.bad(s, at, fmt.Sprintf("item %d of the record is %s %s, the protocol has %s", pos+1, kind, argS, specStr(it)))
			s.Set("dead", "1")
			return
		}
		if !m.read && it.nested == nil && argS != it.arg {
			m.bad(s, at, fmt.Sprintf("item %d of the record carries %s, the protocol has %s", pos+1, argS, specStr(it)))
			s.Set("dead", "1")
			return
		}
		s.Set("pos", fmt.Sprint(pos+1))
		return
	}
}

func (m *layoutMon) loopArgOK(s *State, want string, arg *Term) bool {
	a := arg.Strip()
	switch want {
	case "KEY":
		return a.Op == "res" && a.Aux == "1" && a.Args[0].Op == "next"
	case "VAL":
		if a.Op == "res" && a.Aux == "2" && a.Args[0].Op == "next" {
			return true
		}
		// element of the iterated slice, or lookup of the iterated key
		if a.Op == "load" && a.Args[0].Op == "indexaddr" {
			return a.Args[0].Args[1].Mentions(func(t *Term) bool { return t.Op == "phi" })
		}
		if a.Op == "lookup" {
			k := a.Args[1]
			return k.Op == "res" && k.Aux == "1" && k.Args[0].Op == "next"
		}
	}
	return false
}

func (m *layoutMon) branch(s *State, x *ssa.If, cond *Term, taken bool) {
	if m.e.Dry || s.Get("dead") != "" || errKnown(m.e, s) {
		return
	}
	kind, count, _ := m.e.LoopIf(s, x, cond, taken)
	if kind == "" {
		return
	}
	at := m.c.W.At(x)
	pos := atoi(s.Get("pos"))
	if pos >= len(m.spec) || m.spec[pos].kind != "loop" {
		if hasWire(x.Parent(), m.e.loopsIn(x.Parent()), x.Block()) {
			m.bad(s, at, "loop over wire items where the record has none")
		}
		return
	}
	it := m.spec[pos]
	closeIter := func() {
		if s.Get("in") != "" && atoi(s.Get("lpos")) != len(it.loop) {
			m.bad(s, at, fmt.Sprintf("an iteration ends after %d of %d items of the entry", atoi(s.Get("lpos")), len(it.loop)))
			s.Set("dead", "1")
		}
	}
	checkCount := func() {
		if count == nil {
			m.bad(s, at, "the number of loop entries could not be matched with the announced count")
			return
		}
		cs := shortT(count)
		want := it.arg
		if m.read {
			if x := count.Strip(); !(x.Op == "call" && strings.HasPrefix(x.Aux, "ReadDecimal@")) {
				m.bad(s, at, "the loop does not run for the announced count, but for "+cs)
			}
			return
		}
		if cs != want && cs != "len("+want+")" && cs != "len:"+want && !strings.HasPrefix(cs, "len") {
			m.bad(s, at, fmt.Sprintf("loop runs over %s, the announced count is the size of %s", cs, want))
		}
		if strings.HasPrefix(cs, "len") && !strings.Contains(cs, want) {
			m.bad(s, at, fmt.Sprintf("loop runs %s times, the announced count is the size of %s", cs, want))
		}
	}
	switch kind {
	case "iter":
		closeIter()
		checkCount()
		s.Set("in", "1")
		s.Set("lpos", "0")
	case "done":
		closeIter()
		checkCount()
		s.Set("in", "")
		s.Set("lpos", "")
		s.Set("loopdone", "1")
	case "break":
		s.Set("brk", at)
	}
}

func hasWire(fn *ssa.Function, loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool, b *ssa.BasicBlock) bool {
	for _, bd := range loops {
		if !bd[b] {
			continue
		}
		for x := range bd {
			for _, in := range x.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if _, ok := methodOn(ci.Common().StaticCallee(), ndPkg, "DataOutputX"); ok {
						return true
					}
					if _, ok := methodOn(ci.Common().StaticCallee(), ndPkg, "DataInputX"); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func errKnown(e *Engine, s *State) bool {
	for id, f := range s.facts {
		t := e.TT.list[id]
		if isErrType(t.Typ) {
			for _, n := range f.nes {
				if n.IsNil() {
					return true
				}
			}
			if f.eq != nil && !f.eq.IsNil() && isErrish(f.eq) {
				return true // it is the named error
			}
		}
		if f.truth == 1 && t.Op == "bin" && t.Aux == "==" && isErrType(t.Args[0].Typ) && (isErrish(t.Args[0]) || isErrish(t.Args[1])) {
			return true
		}
	}
	return false
}

func (m *layoutMon) end(s *State, at string) {
	if s.Get("dead") != "" {
		return
	}
	if errKnown(m.e, s) {
		return // the stream already failed: a prefix is all there can be
	}
	if b := s.Get("brk"); b != "" {
		m.bad(s, b, "the per-element loop is left early without a stream error")
		return
	}
	pos := atoi(s.Get("pos"))
	for pos < len(m.spec) {
		it := m.spec[pos]
		if it.kind == "loop" && s.Get("loopdone") != "" {
			pos++
			continue
		}
		if it.cond != "" && m.condHolds(s, it.cond) == -1 {
			pos++
			continue
		}
		break
	}
	if pos < len(m.spec) {
		m.bad(s, at, fmt.Sprintf("the record ends early: %s is missing", specStr(m.spec[pos])))
	}
}

// checkWriter decides one Write method against its layout.
func checkWriter(c *Ctx, typ, layout string) {
	fn := c.Need(ndPkg, typ, "Write")
	rule := "write-layout"
	c.Ob(rule, typ)
	if fn == nil {
		return
	}
	e := NewEngine(c.W)
	m := &layoutMon{c: c, e: e, rule: rule, name: typ, root: fn, spec: parseLayout(layout)}
	var nestedSpec *layoutMon
	for _, it := range m.spec {
		if it.nested != nil {
			nestedSpec = &layoutMon{c: c, e: e, rule: rule, name: typ, root: fn, spec: it.nested}
		}
	}
	var out *Term
	e.Opaque = func(f *ssa.Function) bool { return false }
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(t *Term) bool {
		if isErrType(t.Typ) {
			return true
		}
		for _, it := range m.spec {
			if it.cond != "" && strings.HasPrefix(it.cond, shortT(t)+"==") {
				return true
			}
		}
		return false
	}
	e.OnBranch = m.branch
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if isFn(k.Fn, ndPkg, "NewDataOutputX") {
			if !e.Dry && sharedWriter(k.Args[0]) {
				m.bad(s, c.W.At(k.Instr), "the record is written into a buffer that other records use too: "+k.Args[0].String())
			}
			return nil, true
		}
		n, ok := methodOn(k.Fn, ndPkg, "DataOutputX")
		if !ok {
			return nil, false
		}
		if n == "Bytes" {
			if !e.Dry && nestedSpec != nil && k.Args[0] != out {
				// the nested record is complete when its bytes are taken
				pos := atoi(s.Get("npos"))
				if pos < len(nestedSpec.spec) && s.Get("dead") == "" {
					m.bad(s, c.W.At(k.Instr), fmt.Sprintf("the nested record is emitted before %s was written", specStr(nestedSpec.spec[pos])))
				}
			}
			return e.TT.mk("call", "bytes", types.NewSlice(types.Typ[types.Uint8]), nil, k.Args[0]), true
		}
		kind, isPrim := outPrims[n]
		if !isPrim {
			return nil, n == "Size" || n == "GetWriteSize"
		}
		errT := e.TT.mk("call", "err@"+k.Site, types.Universe.Lookup("error").Type(), nil)
		e.forget(s, errT)
		if !e.Dry {
			at := c.W.At(k.Instr)
			arg := k.Args[1]
			s.Note("%s: %s %s", at, kind, shortT(arg))
			switch {
			case k.Args[0] == out:
				if nestedSpec != nil && kind == "blob" && !(arg.Op == "call" && arg.Aux == "bytes") {
					m.bad(s, at, "the blob is not the nested record's bytes")
				}
				m.event(s, at, kind, arg, shortT(arg))
			case nestedSpec != nil:
				// same monitor on the nested record
				save := s.Get("pos")
				s.Set("pos", s.Get("npos"))
				nestedSpec.event(s, at, kind, arg, shortT(arg))
				s.Set("npos", s.Get("pos"))
				s.Set("pos", save)
			default:
				m.bad(s, at, "written to a stream that is not the record's output")
			}
		}
		if k.Fn.Signature.Results().Len() == 2 {
			return e.TT.mk("tuple", "", nil, nil, k.Args[0], errT), true
		}
		return errT, true
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) { m.end(s, c.W.At(in)) }
	ps := e.Params(fn)
	out = ps[1]
	e.Run(fn, ps, nil, nil)
	c.Use(e, FnName(fn))
}

// constResult evaluates a method that must return one constant on every path.
func constResult(c *Ctx, fn *ssa.Function, rule, name string, want int64) {
	c.Ob(rule, name)
	if fn == nil {
		return
	}
	e := NewEngine(c.W)
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		v, ok := res[0].Int()
		if !ok || v != want {
			c.Bad(rule, name, c.W.At(in), fmt.Sprintf("type tag is %s, the protocol has %d", res[0], want), s.Trace()...)
		}
	}
	e.Run(fn, nil, nil, nil)
	c.Use(e, FnName(fn))
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// checkTagged: WriteValue/WritePack/WriteStep emit the record's own tag, then the record, once.
func checkTagged(c *Ctx, name, iface, tagMethod string) {
	fn := c.Need(ndPkg, "DataOutputX", name)
	rule := "tag-then-body"
	c.Ob(rule, name)
	if fn == nil {
		return
	}
	e := NewEngine(c.W)
	e.NoHavoc = func(*Call) bool { return true }
	ps := e.Params(fn)
	e.KeepFact = func(t *Term) bool { return t == ps[1] || isErrType(t.Typ) }
	obj := func(t *Term) string {
		t = t.Strip()
		if t == ps[1] {
			return "arg"
		}
		if t.Op == "alloc" {
			return "nilvalue"
		}
		return "other"
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		at := c.W.At(k.Instr)
		if n, ok := methodOn(k.Fn, ndPkg, "DataOutputX"); ok {
			kind, prim := outPrims[n]
			if prim && !e.Dry {
				if kind == "1" {
					a := k.Args[1].Strip()
					ok := false
					if a.Op == "call" && strings.HasPrefix(a.Aux, "tag:") && s.Get("st") == "" {
						ok = true
						s.Set("obj", a.Aux[4:])
					}
					if v, isC := a.Int(); isC && v == 0 && s.Get("st") == "" && iface == "Value" {
						ok = true
						s.Set("obj", "nilvalue")
					}
					if !ok {
						c.Bad(rule, name, at, fmt.Sprintf("byte %s is written where only the record's own type tag belongs", k.Args[1]), s.Trace()...)
					}
					s.Set("st", "tagged")
				} else {
					c.Bad(rule, name, at, "unexpected item "+kind+" between tag and record", s.Trace()...)
				}
			}
			if prim {
				errT := e.TT.mk("call", "err@"+k.Site, types.Universe.Lookup("error").Type(), nil)
				if k.Fn.Signature.Results().Len() == 2 {
					return e.TT.mk("tuple", "", nil, nil, k.Args[0], errT), true
				}
				return errT, true
			}
		}
		mname := k.Name
		var recv *Term
		if k.Method != nil {
			recv = k.Recv
		} else if k.Fn != nil && k.Fn.Signature.Recv() != nil && len(k.Args) > 0 {
			mname = k.Fn.Name()
			recv = k.Args[0]
		}
		if recv == nil {
			return nil, false
		}
		if mname == tagMethod {
			return e.TT.mk("call", "tag:"+obj(recv), types.Typ[types.Uint8], nil), true
		}
		if mname == "Write" {
			if !e.Dry {
				if s.Get("st") != "tagged" {
					c.Bad(rule, name, at, "the record is written before its type tag (or twice)", s.Trace()...)
				}
				o := obj(recv)
				if o != s.Get("obj") {
					c.Bad(rule, name, at, "the record written is not the one whose tag was written", s.Trace()...)
				}
				s.Set("st", "done")
			}
			return e.TT.mk("call", "err@"+k.Site, types.Universe.Lookup("error").Type(), nil), true
		}
		return nil, false
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if s.Get("st") == "done" || errKnown(e, s) {
			if s.Get("obj") == "nilvalue" && !e.IsNil(s, ps[1]) && iface == "Value" {
				c.Bad(rule, name, c.W.At(in), "a nil value is encoded in place of a value that is not nil", s.Trace()...)
			}
			return
		}
		if s.Get("st") == "tagged" && s.Get("obj") == "nilvalue" {
			return
		}
		c.Bad(rule, name, c.W.At(in), "a path returns without writing tag and record", s.Trace()...)
	}
	e.Run(fn, ps, nil, nil)
	c.Use(e, FnName(fn))
}

func init() {
	register("C01", "Each Write method of every pack, step and value type is explored abstractly over SSA (helpers inlined, all branches, loops as automaton cycles); the language of wire items it emits, with the field carried by each item, is compared with the frozen protocol layout of that type; type tags and the tag-then-body framing of WriteValue/WritePack/WriteStep, the step list and the parameter string are decided the same way.",
		func(c *Ctx) {
			for _, t := range sortedKeys(packLayouts) {
				checkWriter(c, t, packLayouts[t])
				constResult(c, c.Need(ndPkg, t, "GetPackType"), "type-tag", t, packTags[t])
			}
			for _, t := range sortedKeys(stepLayouts) {
				checkWriter(c, t, stepLayouts[t])
				constResult(c, c.Need(ndPkg, t, "GetStepType"), "type-tag", t, stepTags[t])
			}
			for _, t := range sortedKeys(valueLayouts) {
				checkWriter(c, t, valueLayouts[t])
				constResult(c, c.Need(ndPkg, t, "GetValueType"), "type-tag", t, valueTags[t])
			}
			checkTagged(c, "WriteValue", "Value", "GetValueType")
			checkTagged(c, "WritePack", "Pack", "GetPackType")
			checkTagged(c, "WriteStep", "Step", "GetStepType")
			checkStepsToBytes(c)
			checkParamString(c)
			c.Floor("write-layout", 27)
			c.Floor("type-tag", 27)
		})
}

// checkStepsToBytes: every non-nil step of the list is encoded once, in order.
func checkStepsToBytes(c *Ctx) {
	fn := c.Need(ndPkg, "", "StepsToBytes")
	rule := "step-list"
	c.Ob(rule, "StepsToBytes")
	if fn == nil {
		return
	}
	e := NewEngine(c.W)
	e.NoHavoc = func(*Call) bool { return true }
	bad := func(s *State, at, msg string) { c.Bad(rule, "StepsToBytes", at, msg, s.Trace()...) }
	isElem := func(t *Term) bool {
		return t.Op == "load" && t.Args[0].Op == "indexaddr" && t.Args[0].Args[0].Op == "param"
	}
	e.KeepFact = func(t *Term) bool { return isElem(t) || t.Op == "param" || isErrType(t.Typ) }
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if isFn(k.Fn, ndPkg, "NewDataOutputX") {
			if !e.Dry && sharedWriter(k.Args[0]) {
				bad(s, c.W.At(k.Instr), "the record is written into a buffer that other records use too: "+k.Args[0].String())
			}
			return nil, true
		}
		n, ok := methodOn(k.Fn, ndPkg, "DataOutputX")
		if !ok {
			return nil, false
		}
		if n == "Bytes" {
			return e.TT.mk("call", "bytes", types.NewSlice(types.Typ[types.Uint8]), nil, k.Args[0]), true
		}
		if _, prim := outPrims[n]; !prim {
			return nil, false
		}
		if !e.Dry {
			at := c.W.At(k.Instr)
			if n != "WriteStep" || !isElem(k.Args[1]) {
				bad(s, at, "something other than an element of the step list is written: "+n+" "+k.Args[1].String())
			}
			if s.Get("in") == "" || s.Get("w") != "" {
				bad(s, at, "a step is written more than once per list element")
			}
			s.Set("w", "1")
		}
		errT := e.TT.mk("call", "err@"+k.Site, types.Universe.Lookup("error").Type(), nil)
		e.forget(s, errT)
		return e.TT.mk("tuple", "", nil, nil, k.Args[0], errT), true
	}
	e.OnBranch = func(s *State, x *ssa.If, cond *Term, taken bool) {
		if e.Dry {
			return
		}
		kind, count, _ := e.LoopIf(s, x, cond, taken)
		at := c.W.At(x)
		if kind == "iter" || kind == "done" {
			if s.Get("in") != "" && s.Get("w") == "" {
				// element skipped: must be known nil
				skipped := false
				for id, f := range s.facts {
					if isElem(e.TT.list[id]) && f.eq != nil && f.eq.IsNil() {
						skipped = true
					}
				}
				if !skipped && s.Get("nil") == "" {
					bad(s, at, "a list element that is not nil is skipped")
				}
			}
			if count == nil || !count.Mentions(func(t *Term) bool { return t.Op == "param" }) {
				bad(s, at, "the loop does not cover the whole step list")
			}
			s.Set("w", "")
			s.Set("nil", "")
			if kind == "iter" {
				s.Set("in", "1")
			} else {
				s.Set("in", "")
				s.Set("done", "1")
			}
			return
		}
		if kind == "break" {
			bad(s, at, "the step list loop is left early")
		}
		if cond.Op == "bin" && cond.Aux == "==" && isElem(cond.Args[0]) && cond.Args[1].IsNil() && taken {
			s.Set("nil", "1")
		}
		if cond.Op == "not" && cond.Args[0].Op == "bin" && isElem(cond.Args[0].Args[0]) && !taken {
			s.Set("nil", "1")
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if s.Get("done") == "" {
			for id, f := range s.facts {
				if e.TT.list[id].Op == "param" && f.eq != nil && f.eq.IsNil() {
					return
				}
			}
			if iv := e.Ival(s, e.TT.mk("len", "", types.Typ[types.Int], nil, e.Params(fn)[0])); iv != nil && iv.hi == 0 {
				return
			}
			bad(s, c.W.At(in), "a path returns without encoding the step list")
			return
		}
		if !(res[0].Op == "call" && res[0].Aux == "bytes") {
			bad(s, c.W.At(in), "the encoded bytes are not what is returned")
		}
	}
	e.Run(fn, nil, nil, nil)
	c.Use(e, FnName(fn))
}

// checkParamString: a parameterized message joins its parameters, each terminated by byte 3.
func checkParamString(c *Ctx) {
	fn := c.Need(ndPkg, "PMessageStep", "SetMessage")
	rule := "param-string"
	c.Ob(rule, "PMessageStep.SetMessage")
	if fn == nil {
		return
	}
	e := NewEngine(c.W)
	e.NoHavoc = func(*Call) bool { return true }
	bad := func(s *State, at, msg string) { c.Bad(rule, "PMessageStep.SetMessage", at, msg, s.Trace()...) }
	ps := e.Params(fn)
	isElem := func(t *Term) bool {
		t = t.StripConv()
		return t.Op == "load" && t.Args[0].Op == "indexaddr" && t.Args[0].Args[0] == ps[2]
	}
	unknown := false
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		if k.Fn == nil || k.Fn.Signature.Recv() == nil || FnPkg(k.Fn) != "bytes" && FnPkg(k.Fn) != "strings" {
			if k.Fn != nil && FnPkg(k.Fn) == "strings" {
				unknown = true // e.g. strings.Join form: not decided by this automaton
			}
			return nil, false
		}
		if e.Dry {
			return nil, false
		}
		at := c.W.At(k.Instr)
		ev := ""
		switch k.Fn.Name() {
		case "WriteString", "Write":
			if isElem(k.Args[1]) {
				ev = "elem"
			} else if str, ok := k.Args[1].StripConv().Str(); ok && str == "\x03" {
				ev = "sep"
			} else {
				ev = "other"
			}
		case "WriteByte", "WriteRune":
			if v, ok := k.Args[1].Int(); ok && v == 3 {
				ev = "sep"
			} else {
				ev = "other"
			}
		case "String":
			return e.TT.mk("call", "joined", types.Typ[types.String], nil), true
		default:
			return nil, false
		}
		st := s.Get("st")
		switch {
		case ev == "elem" && st == "iter":
			s.Set("st", "elem")
		case ev == "sep" && st == "elem":
			s.Set("st", "ok")
		default:
			bad(s, at, "parameter string item out of order: "+ev+" after "+st)
		}
		return nil, false
	}
	e.OnBranch = func(s *State, x *ssa.If, cond *Term, taken bool) {
		if e.Dry {
			return
		}
		kind, count, _ := e.LoopIf(s, x, cond, taken)
		at := c.W.At(x)
		switch kind {
		case "iter", "done":
			if st := s.Get("st"); st == "iter" || st == "elem" {
				bad(s, at, "a parameter is written without its terminator")
			}
			if count == nil || !count.Mentions(func(t *Term) bool { return t == ps[2] }) {
				bad(s, at, "the loop does not cover all parameters")
			}
			if kind == "iter" {
				s.Set("st", "iter")
			} else {
				s.Set("st", "done")
			}
		case "break":
			bad(s, at, "the parameter loop is left early")
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if unknown {
			return
		}
		at := c.W.At(in)
		get := func(name string) *Term {
			for _, cl := range s.store {
				if cl.addr.Op == "fieldaddr" && cl.addr.Aux == name && cl.addr.Args[0] == ps[0] {
					return cl.val
				}
			}
			return nil
		}
		if h := get("Hash"); h == nil || h.Strip() != ps[1] {
			bad(s, at, "the message hash is not stored")
		}
		if p := get("paramString"); p == nil || !(p.Op == "call" && p.Aux == "joined") {
			bad(s, at, "the joined parameter string is not stored")
		}
	}
	e.Run(fn, ps, nil, nil)
	c.Use(e, FnName(fn))
}

// sharedWriter: a writer that outlives the call and is reachable from elsewhere.
func sharedWriter(t *Term) bool {
	return t.Mentions(func(x *Term) bool { return x.Op == "global" || x.Op == "load" })
}
