package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- file names

// comps splits a path expression into its components: constants are cut at the separators.
func (e *Engine) comps(s *State, t *Term) []*Term {
	switch {
	case t.Op == "conv":
		return e.comps(s, t.Args[0])
	case t.Op == "call" && (t.Aux == "path/filepath.Join" || t.Aux == "path.Join") && len(t.Args) == 1:
		var r []*Term
		for _, x := range e.elems(s, t.Args[0]) {
			r = append(r, e.comps(s, x)...)
		}
		return r
	case t.Op == "call" && t.Aux == "joined":
		var r []*Term
		for _, x := range t.Args {
			r = append(r, e.comps(s, x)...)
		}
		return r
	case t.Op == "call" && (t.Aux == "path/filepath.Clean" || t.Aux == "path.Clean"):
		return e.comps(s, t.Args[0])
	case t.Op == "bin" && t.Aux == "+":
		// dir + "/" + name
		fl := flatAdd(t)
		var r []*Term
		var cur []*Term
		flush := func() {
			if len(cur) == 1 {
				r = append(r, e.comps(s, cur[0])...)
			} else if len(cur) > 1 {
				x := cur[0]
				for _, y := range cur[1:] {
					x = e.TT.mk("bin", "+", x.Typ, nil, x, y)
				}
				r = append(r, x)
			}
			cur = nil
		}
		for _, x := range fl {
			if v, ok := x.Str(); ok && strings.Contains(v, "/") {
				ps := strings.Split(v, "/")
				for i, p := range ps {
					if p != "" {
						cur = append(cur, e.str(p))
					}
					if i < len(ps)-1 {
						flush()
					}
				}
				continue
			}
			cur = append(cur, x)
		}
		flush()
		return r
	}
	if v, ok := t.Str(); ok {
		var r []*Term
		for _, p := range strings.Split(v, "/") {
			if p != "" {
				r = append(r, e.str(p))
			}
		}
		return r
	}
	return []*Term{t}
}

// flatAdd flattens a string concatenation.
func flatAdd(t *Term) []*Term {
	if t.Op == "bin" && t.Aux == "+" {
		return append(flatAdd(t.Args[0]), flatAdd(t.Args[1])...)
	}
	return []*Term{t}
}

// nameClass is a set of file names: one concrete name, or all names with a feature.
type nameClass struct {
	desc string
	val  string // concrete name when abs is empty
	abs  string // "slash": contains a slash besides other characters; "back": contains a backslash; "nosuffix": does not end in the suffix
	sfx  string
}

// evalName evaluates a condition for every name of the class: 1 true, -1 false, 0 unknown.
type nameEval struct {
	name *Term
	cl   nameClass
}

func (n nameEval) str(t *Term) (string, bool) {
	if v, ok := t.Str(); ok {
		return v, true
	}
	if t.Op == "conv" && isStrOrBytes(t.Typ) {
		return n.str(t.Args[0])
	}
	if n.cl.abs != "" {
		return "", false
	}
	if t == n.name {
		return n.cl.val, true
	}
	if t.Op == "call" && len(t.Args) >= 1 {
		x, ok := n.str(t.Args[0])
		if !ok {
			return "", false
		}
		switch t.Aux {
		case "path/filepath.Base", "path.Base":
			return filepath.Base(x), true
		case "path/filepath.Clean", "path.Clean":
			return filepath.Clean(x), true
		case "path/filepath.Ext", "path.Ext":
			return filepath.Ext(x), true
		case "path/filepath.Dir", "path.Dir":
			return filepath.Dir(x), true
		case "strings.TrimSpace":
			return strings.TrimSpace(x), true
		case "strings.ToLower":
			return strings.ToLower(x), true
		case "path/filepath.FromSlash", "path/filepath.ToSlash":
			return x, true
		}
	}
	return "", false
}

func (n nameEval) isName(t *Term) bool { return t == n.name || t.Op == "conv" && n.isName(t.Args[0]) }

// num is the range of an integer expression.
func (n nameEval) num(t *Term) (lo, hi int64, ok bool) {
	t = t.StripConv()
	if v, o := t.Int(); o {
		return v, v, true
	}
	if t.Op == "len" {
		if x, o := n.str(t.Args[0]); o {
			return int64(len(x)), int64(len(x)), true
		}
		if n.isName(t.Args[0]) {
			switch n.cl.abs {
			case "slash":
				return 2, 1 << 40, true
			case "back":
				return 1, 1 << 40, true
			}
		}
		return 0, 0, false
	}
	if t.Op == "call" && len(t.Args) == 2 && strings.HasPrefix(t.Aux, "strings.") {
		f := strings.TrimPrefix(t.Aux, "strings.")
		sub, subOK := n.str(t.Args[1])
		if v, o := t.Args[1].StripConv().Int(); o {
			sub, subOK = string(rune(v)), true
		}
		if !subOK {
			return 0, 0, false
		}
		if x, o := n.str(t.Args[0]); o {
			r := 0
			switch f {
			case "Index", "IndexByte", "IndexRune":
				r = strings.Index(x, sub)
			case "IndexAny":
				r = strings.IndexAny(x, sub)
			case "LastIndex", "LastIndexByte":
				r = strings.LastIndex(x, sub)
			case "LastIndexAny":
				r = strings.LastIndexAny(x, sub)
			case "Count":
				r = strings.Count(x, sub)
			default:
				return 0, 0, false
			}
			return int64(r), int64(r), true
		}
		if n.isName(t.Args[0]) && (n.cl.abs == "slash" || n.cl.abs == "back") {
			ch := map[string]string{"slash": "/", "back": "\\"}[n.cl.abs]
			switch f {
			case "Index", "IndexByte", "IndexRune", "LastIndex", "LastIndexByte":
				if sub == ch {
					return 0, 1 << 40, true
				}
			case "IndexAny", "LastIndexAny":
				if strings.Contains(sub, ch) {
					return 0, 1 << 40, true
				}
			case "Count":
				if sub == ch {
					return 1, 1 << 40, true
				}
			}
		}
	}
	return 0, 0, false
}

func b3(b bool) int {
	if b {
		return 1
	}
	return -1
}

func (n nameEval) cond(t *Term) int {
	switch t.Op {
	case "not":
		return -n.cond(t.Args[0])
	case "const":
		if b, ok := t.Bool(); ok {
			return b3(b)
		}
	case "bin":
		a, b := t.Args[0], t.Args[1]
		switch t.Aux {
		case "==":
			return n.eq(a, b)
		case "<":
			l1, h1, o1 := n.num(a)
			l2, h2, o2 := n.num(b)
			if o1 && o2 {
				if h1 < l2 {
					return 1
				}
				if l1 >= h2 {
					return -1
				}
			}
		}
	case "call":
		if len(t.Args) == 2 && strings.HasPrefix(t.Aux, "strings.") {
			f := strings.TrimPrefix(t.Aux, "strings.")
			sub, ok := n.str(t.Args[1])
			if v, o := t.Args[1].StripConv().Int(); o {
				sub, ok = string(rune(v)), true
			}
			if !ok {
				return 0
			}
			if x, o := n.str(t.Args[0]); o {
				switch f {
				case "Contains", "ContainsRune":
					return b3(strings.Contains(x, sub))
				case "ContainsAny":
					return b3(strings.ContainsAny(x, sub))
				case "HasPrefix":
					return b3(strings.HasPrefix(x, sub))
				case "HasSuffix":
					return b3(strings.HasSuffix(x, sub))
				case "EqualFold":
					return b3(strings.EqualFold(x, sub))
				}
				return 0
			}
			if !n.isName(t.Args[0]) {
				return 0
			}
			ch := map[string]string{"slash": "/", "back": "\\"}[n.cl.abs]
			switch f {
			case "Contains", "ContainsRune":
				if ch != "" && sub == ch {
					return 1
				}
			case "ContainsAny":
				if ch != "" && strings.Contains(sub, ch) {
					return 1
				}
			case "HasSuffix":
				if n.cl.abs == "nosuffix" && strings.HasSuffix(sub, n.cl.sfx) {
					return -1
				}
			}
		}
		if t.Aux == "path/filepath.IsLocal" && n.cl.abs == "" && len(t.Args) == 1 {
			if x, o := n.str(t.Args[0]); o {
				return b3(filepath.IsLocal(x))
			}
		}
	}
	return 0
}

func (n nameEval) eq(a, b *Term) int {
	l1, h1, o1 := n.num(a)
	l2, h2, o2 := n.num(b)
	if o1 && o2 {
		if l1 == h1 && l2 == h2 && l1 == l2 {
			return 1
		}
		if h1 < l2 || h2 < l1 {
			return -1
		}
		return 0
	}
	x, p := n.str(a)
	y, q := n.str(b)
	if p && q {
		return b3(x == y)
	}
	if n.cl.abs == "" {
		return 0
	}
	if q && n.isName(a) {
		return n.absEq(y)
	}
	if p && n.isName(b) {
		return n.absEq(x)
	}
	for _, ab := range [][2]*Term{{a, b}, {b, a}} {
		f, o := ab[0], ab[1]
		if f.Op == "call" && len(f.Args) == 1 && n.isName(f.Args[0]) {
			switch f.Aux {
			case "path/filepath.Base", "path.Base":
				if n.cl.abs == "slash" && n.isName(o) {
					return -1
				}
			case "path/filepath.Ext", "path.Ext":
				if v, ok := o.Str(); ok && n.cl.abs == "nosuffix" && strings.HasSuffix(v, n.cl.sfx) {
					return -1
				}
			}
		}
	}
	return 0
}

func (n nameEval) absEq(v string) int {
	switch n.cl.abs {
	case "slash":
		if !strings.Contains(v, "/") || v == "/" {
			return -1
		}
	case "back":
		if !strings.Contains(v, "\\") {
			return -1
		}
	case "nosuffix":
		if strings.HasSuffix(v, n.cl.sfx) {
			return -1
		}
	}
	return 0
}

// excluded: what the path has established contradicts every name of the class.
func (e *Engine) excluded(s *State, name *Term, cl nameClass) bool {
	n := nameEval{name, cl}
	for id, f := range s.facts {
		t := e.TT.list[id]
		if f.truth != 0 {
			if v := n.cond(t); v != 0 && v != int(f.truth) {
				return true
			}
		}
		if f.eq != nil && n.eq(t, f.eq) < 0 {
			return true
		}
		for _, x := range f.nes {
			if n.eq(t, x) > 0 {
				return true
			}
		}
		if f.iv != nil {
			if lo, hi, ok := n.num(t); ok && (hi < f.iv.lo || lo > f.iv.hi) {
				return true
			}
			if lo, hi, ok := n.num(t); ok && lo == hi {
				for _, x := range f.iv.ne {
					if x == lo {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- file effects

// fileTouching names the library functions that act on a path and the index of the path.
func fileTouching(f *ssa.Function) (string, bool) {
	if f == nil || f.Signature.Recv() != nil {
		return "", false
	}
	switch FnPkg(f) {
	case "os":
		switch f.Name() {
		case "Open", "OpenFile", "Create", "Remove", "RemoveAll", "Rename", "Truncate", "Chmod", "Chown", "Link", "Symlink", "WriteFile", "ReadFile", "ReadDir", "Mkdir", "MkdirAll", "CreateTemp", "DirFS":
			return f.Name(), true
		}
	case "io/ioutil":
		switch f.Name() {
		case "ReadFile", "WriteFile", "ReadDir", "TempFile":
			return f.Name(), true
		}
	}
	return "", false
}

type dumpMon struct {
	c    *Ctx
	e    *Engine
	fn   *ssa.Function
	rule string
	seen map[string]int
}

func (m *dumpMon) bad(s *State, at, msg string) {
	if !m.e.Dry {
		m.c.Bad(m.rule, FnName(m.fn), at, msg, s.Trace()...)
	}
}

func (m *dumpMon) term(s *State, k string) *Term {
	if v := s.Get(k); v != "" {
		return m.e.TT.list[atoi(v)]
	}
	return nil
}

func (m *dumpMon) push(s *State, ev string, args ...*Term) {
	if m.e.Dry {
		return
	}
	for _, a := range args {
		ev += fmt.Sprintf(":%d", a.ID)
	}
	// an event repeated in a loop is wrong from its second time on; further ones only keep the loop going
	if old := ";" + s.Get("ev"); strings.Count(old, ";"+ev+";") >= 2 || strings.Count(old, ";"+strings.SplitN(ev, ":", 2)[0]+":") >= 4 {
		return
	}
	s.Set("ev", s.Get("ev")+ev+";")
}

type dumpEv struct {
	kind string
	args []*Term
}

func (m *dumpMon) events(s *State) []dumpEv {
	var r []dumpEv
	for _, x := range strings.Split(strings.TrimSuffix(s.Get("ev"), ";"), ";") {
		if x == "" {
			continue
		}
		p := strings.Split(x, ":")
		ev := dumpEv{kind: p[0]}
		for _, a := range p[1:] {
			ev.args = append(ev.args, m.e.TT.list[atoi(a)])
		}
		r = append(r, ev)
	}
	return r
}

func newDumpMon(c *Ctx, fn *ssa.Function, rule string) *dumpMon {
	m := &dumpMon{c: c, e: NewEngine(c.W), fn: fn, rule: rule, seen: map[string]int{}}
	e := m.e
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(*Term) bool { return true }
	e.WidenAt = 1 << 30
	e.GoInline = true
	e.TermIval = func(t *Term) *ival {
		if t.Op == "len" && t.Args[0].Op == "call" && (t.Args[0].Aux == "joined" || t.Args[0].Aux == "home") {
			return &ival{lo: 1, hi: 1 << 40}
		}
		return nil
	}
	e.OnCall = m.call
	return m
}

func (m *dumpMon) call(s *State, k *Call) (*Term, bool) {
	e := m.e
	var rt types.Type
	if v := k.Instr.Value(); v != nil {
		rt = v.Type()
	}
	mk := func(n string, args ...*Term) *Term {
		t := e.TT.mk("call", n+"@"+k.Site, rt, nil, args...)
		e.forget(s, t)
		return t
	}
	two := func(n string, args ...*Term) (*Term, *Term, *Term) {
		sig := k.Fn.Signature.Results()
		a := e.TT.mk("call", n+"@"+k.Site, sig.At(0).Type(), nil, args...)
		b := e.TT.mk("call", n+".err@"+k.Site, sig.At(1).Type(), nil, args...)
		e.forget(s, a)
		e.forget(s, b)
		return e.TT.mk("tuple", "", nil, nil, a, b), a, b
	}
	f := k.Fn
	if f == nil {
		if k.Method != nil {
			return mk("m." + k.Method.Name()), true
		}
		return nil, false
	}
	if isFn(f, "common/util", "GetScouterPath") {
		return e.TT.mk("call", "home", rt, nil), true
	}
	if isFn(f, "common/util", "MakeDir") {
		return nil, true
	}
	if isExt(f, "path/filepath", "Join") || isExt(f, "path", "Join") {
		return e.TT.mk("call", "joined", rt, nil, e.elems(s, k.Args[0])...), true
	}
	if n, ok := fileTouching(f); ok {
		switch n {
		case "Open", "Create":
			tup, file, err := two(n, k.Args[0])
			m.push(s, n, k.Args[0], file, err)
			return tup, true
		case "OpenFile":
			tup, file, err := two(n, k.Args[0])
			fl, _ := k.Args[1].StripConv().Int()
			kind := "Open"
			if fl&0x40 != 0 {
				kind = "Create"
				if fl&0x200 == 0 || fl&3 == 0 {
					m.bad(s, m.c.W.At(k.Instr), "the file is not opened for writing from its beginning")
				}
			}
			m.push(s, kind, k.Args[0], file, err)
			return tup, true
		case "Remove":
			err := mk("Remove", k.Args[0])
			m.push(s, n, k.Args[0], err)
			return err, true
		default:
			m.push(s, n, k.Args[0])
			m.bad(s, m.c.W.At(k.Instr), "unexpected file operation os."+n)
			return nil, true
		}
	}
	if n, ok := methodOn(f, ndPkg, "MapPack"); ok {
		switch {
		case strings.HasPrefix(n, "Get"):
			return e.TT.mk("call", n, rt, nil, k.Args...), true
		case n == "Put":
			if key, ok := k.Args[1].Str(); ok && !e.Dry {
				s.Set("put:"+key, fmt.Sprint(unassert(k.Args[2]).ID))
			}
			return nil, true
		}
	}
	if isFn(f, ndPkg, "NewMapPack") {
		return mk("mappack"), true
	}
	if isFn(f, ndPkg, "NewBooleanValue") {
		return e.TT.mk("call", "NewBooleanValue", rt, nil, k.Args...), true
	}
	if _, ok := methodOn(f, ndPkg, "DataOutputX"); ok {
		return nil, true
	}
	if isExtMethod(f, "os", "File", "Close") {
		m.push(s, "Close", k.Args[0])
		return mk("closed", k.Args[0]), true
	}
	if isExtMethod(f, "os", "File", "Name") {
		return e.TT.mk("call", "fname", rt, nil, k.Args...), true
	}
	if isExtMethod(f, "os", "File", "Read") || isExtMethod(f, "os", "File", "ReadAt") || isExtMethod(f, "bufio", "Reader", "Read") {
		tup, _, _ := two("read", k.Args...)
		return tup, true
	}
	switch {
	case isExt(f, "bufio", "NewWriter"), isExt(f, "bufio", "NewWriterSize"):
		return mk("bufw", k.Args[0]), true
	case isExt(f, "bufio", "NewReader"), isExt(f, "bufio", "NewReaderSize"):
		return mk("bufr", k.Args[0]), true
	case isExtMethod(f, "bufio", "Writer", "Flush"):
		r := mk("flushed", k.Args[0])
		m.push(s, "Flush", k.Args[0], r)
		return r, true
	case isExt(f, "runtime/pprof", "Lookup"):
		r := mk("Lookup", k.Args[0])
		return r, true
	case isExtMethod(f, "runtime/pprof", "Profile", "WriteTo"):
		r := mk("written", k.Args...)
		m.push(s, "Write", k.Args[0], unassert(k.Args[1]), k.Args[2], r)
		return r, true
	case isExt(f, "runtime/pprof", "StartCPUProfile"):
		r := mk("cpustarted", k.Args...)
		m.push(s, "CpuStart", unassert(k.Args[0]), r)
		return r, true
	case isExt(f, "runtime/pprof", "StopCPUProfile"):
		m.push(s, "CpuStop")
		return nil, true
	case isExt(f, "runtime", "SetBlockProfileRate"):
		m.push(s, "BlockRate", k.Args[0])
		return nil, true
	case isExt(f, "runtime", "SetMutexProfileFraction"):
		r := mk("oldfraction", k.Args[0])
		m.push(s, "MutexRate", k.Args[0], r)
		return r, true
	case isExt(f, "time", "Sleep"):
		m.push(s, "Sleep", k.Args[0])
		return nil, true
	}
	if f.Blocks != nil && m.c.W.InRepo(f) {
		return nil, false
	}
	return nil, false
}

// dirOf judges a path: home/dir/name; it gives the name expression.
func (m *dumpMon) dirOf(s *State, p *Term) (dir string, name *Term) {
	cs := m.e.comps(s, p)
	if len(cs) != 3 || !(cs[0].Op == "call" && cs[0].Aux == "home") {
		return "", nil
	}
	d, ok := cs[1].Str()
	if !ok {
		return "", nil
	}
	return d, cs[2]
}

// closedAll: every file opened successfully on the path was closed.
func (m *dumpMon) closedAll(s *State, at string) {
	for _, ev := range m.events(s) {
		if ev.kind != "Open" && ev.kind != "Create" {
			continue
		}
		if m.e.NonNil(s, ev.args[2]) {
			continue // nothing was opened
		}
		n := 0
		for _, c := range m.events(s) {
			if c.kind == "Close" && c.args[0] == ev.args[1] {
				n++
			}
		}
		if n == 0 {
			m.bad(s, at, "an opened file is left open")
		}
	}
}

type nameSpec struct {
	op, dir, sfx string
	witness      []string
	name         func(m *dumpMon, s *State, t *Term) bool
}

func strParam(i int) func(m *dumpMon, s *State, t *Term) bool {
	return func(m *dumpMon, s *State, t *Term) bool { return t.Op == "param" && t.Aux == fmt.Sprintf("p%d", i) }
}

var nameSpecs = map[string]nameSpec{
	"DownloadBinaryDumpFiles": {op: "Open", dir: "binary_dump", sfx: "pprof", witness: []string{"go_cpu_20260102_030405.pprof", "go_block_20260102_030405.pprof", "go_mutex_20260102_030405.pprof"}, name: strParam(1)},
	"DeleteBinaryDumpFiles":   {op: "Remove", dir: "binary_dump", sfx: "pprof", witness: []string{"go_cpu_20260102_030405.pprof", "go_block_20260102_030405.pprof", "go_mutex_20260102_030405.pprof"}, name: strParam(0)},
	"StreamDumpFileContents": {op: "Open", dir: "dump", witness: []string{"go_dump_20260102_030405.log", "go_block_20260102_030405.log", "go_mutex_20260102_030405.log"},
		name: func(m *dumpMon, s *State, t *Term) bool {
			if t.Op != "call" || t.Aux != "GetString" {
				return false
			}
			k, _ := t.Args[1].Str()
			r := unassert(t.Args[0])
			return k == "name" && r.Op == "param" && r.Aux == "p0"
		}},
}

// named checks a command that acts on the file whose name the collector sends.
func named(c *Ctx, fn *ssa.Function, sp nameSpec) {
	m := newDumpMon(c, fn, "contained")
	e := m.e
	c.Ob("contained", FnName(fn))
	bads := []nameClass{{desc: "an empty name", val: ""}, {desc: `"."`, val: "."}, {desc: `".."`, val: ".."}, {desc: `"/"`, val: "/"},
		{desc: "a name with a slash", abs: "slash"}, {desc: "a name with a backslash", abs: "back"}}
	if sp.sfx != "" {
		bads = append(bads, nameClass{desc: "a name not ending in " + sp.sfx, abs: "nosuffix", sfx: sp.sfx})
	}
	hit := 0
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := c.W.At(in)
		var act *dumpEv
		for _, ev := range m.events(s) {
			ev := ev
			if ev.kind == "Close" {
				continue
			}
			if act != nil {
				m.bad(s, at, "more than one file operation: "+ev.kind)
			}
			act = &ev
			if ev.kind != sp.op {
				m.bad(s, at, "the file operation is "+ev.kind+", must be "+sp.op)
				continue
			}
			dir, name := m.dirOf(s, ev.args[0])
			if dir != sp.dir || !sp.name(m, s, name) {
				m.bad(s, at, "the file acted on is not the one of the given name directly inside "+sp.dir+": "+ev.args[0].String())
				continue
			}
			hit++
			for _, cl := range bads {
				c.Ob("refused", FnName(fn)+" "+cl.desc)
				if !e.excluded(s, name, cl) {
					m.bad(s, at, cl.desc+" is not refused")
				}
			}
		}
		m.closedAll(s, at)
		if act == nil {
			// only names that are not proper may be refused
			var name *Term
			for id := range s.facts {
				e.TT.list[id].Find(func(x *Term) bool {
					if sp.name(m, s, x) {
						name = x
					}
					return false
				})
			}
			badParam := false
			for id, f := range s.facts {
				t := e.TT.list[id]
				if t.Op == "istype" && f.truth < 0 {
					badParam = true
				}
				if f.eq != nil && f.eq.IsNil() {
					badParam = true
				}
			}
			if !badParam {
				for _, w := range sp.witness {
					if name == nil || !e.excluded(s, name, nameClass{val: w}) {
						m.bad(s, at, "a proper name such as "+w+" is refused")
					}
				}
			}
		}
		if sp.op == "Remove" {
			yes := 0
			if v := m.term(s, "put:success"); v != nil && v.Op == "call" && v.Aux == "NewBooleanValue" {
				yes = e.Eval(s, v.Args[0])
			}
			done := 0
			if act == nil {
				done = -1
			} else if act.kind == "Remove" {
				if e.IsNil(s, act.args[1]) {
					done = 1
				} else if e.NonNil(s, act.args[1]) {
					done = -1
				} else if v := m.term(s, "put:success"); v != nil && v.Op == "call" && v.Aux == "NewBooleanValue" {
					// the flag may be computed directly from the error
					b := v.Args[0]
					if b.Op == "bin" && b.Aux == "==" && (b.Args[0] == act.args[1] && b.Args[1].IsNil() || b.Args[1] == act.args[1] && b.Args[0].IsNil()) {
						done, yes = 1, 1
					}
				}
			}
			if yes == 0 || yes != done {
				m.bad(s, at, "the answer's success is not whether the file was removed")
			}
		}
	}
	e.Run(fn, nil, nil, func() { hit = 0 })
	c.Use(e, FnName(fn))
	if hit == 0 {
		c.Bad("contained", FnName(fn), c.W.FnAt(fn), "no path acts on the named file")
	}
}

// ---------------------------------------------------------------- profiles

type dumpSpec struct {
	kind     string // runtime profile written; "cpu"
	dir, sfx string
	sec      int // parameter index, -1: no sampling time
	rate     int // parameter index, -1 none
	level    int // parameter index, or -1-v for a constant v
}

var dumpSpecs = map[string]dumpSpec{
	"HeavyAllStackTrace":     {"goroutine", "dump", "", -1, -1, -3},
	"ProfileBinaryCpu":       {"cpu", "binary_dump", "pprof", 0, -1, 0},
	"ProfileBlock":           {"block", "dump", "", 0, 1, 2},
	"ProfileBlockBinaryDump": {"block", "binary_dump", "pprof", 0, 1, -1},
	"ProfileMutex":           {"mutex", "dump", "", 0, 1, 2},
	"ProfileMutexBinaryDump": {"mutex", "binary_dump", "pprof", 0, 1, -1},
}

func isParam(t *Term, i int) bool {
	t = t.StripConv()
	return t.Op == "param" && t.Aux == fmt.Sprintf("p%d", i)
}

func isSeconds(t *Term, i int) bool {
	t = t.StripConv()
	if t.Op != "bin" || t.Aux != "*" {
		return false
	}
	for k := 0; k < 2; k++ {
		if v, ok := t.Args[k].StripConv().Int(); ok && v == 1000000000 && isParam(t.Args[1-k], i) {
			return true
		}
	}
	return false
}

func profileDump(c *Ctx, fn *ssa.Function, sp dumpSpec) {
	m := newDumpMon(c, fn, "profile-dump")
	e := m.e
	c.Ob("profile-dump", FnName(fn))
	wrote := 0
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := c.W.At(in)
		evs := m.events(s)
		idx := func(kind string, from int) int {
			for i := from; i < len(evs); i++ {
				if evs[i].kind == kind {
					return i
				}
			}
			return -1
		}
		count := func(kind string) int {
			n := 0
			for _, ev := range evs {
				if ev.kind == kind {
					n++
				}
			}
			return n
		}
		m.closedAll(s, at)
		cr := idx("Create", 0)
		if cr < 0 || count("Create") != 1 || count("Open") > 0 || count("Remove") > 0 {
			m.bad(s, at, "the command does not create exactly one file")
			return
		}
		dir, name := m.dirOf(s, evs[cr].args[0])
		if dir != sp.dir {
			m.bad(s, at, "the file is not created directly inside "+sp.dir+": "+evs[cr].args[0].String())
		} else {
			last := flatAdd(name)
			v, ok := last[len(last)-1].Str()
			if sp.sfx != "" && !(ok && strings.HasSuffix(v, sp.sfx)) {
				m.bad(s, at, "the file's name does not end in "+sp.sfx+": "+name.String())
			}
			if !name.Mentions(func(t *Term) bool { return t.Op == "call" && strings.Contains(t.Aux, "time.Now") }) {
				m.bad(s, at, "the file's name does not carry the time: "+name.String())
			}
			for _, x := range last {
				if v, ok := x.Str(); ok && strings.ContainsAny(v, "/\\") {
					m.bad(s, at, "the file's name has a separator: "+name.String())
				}
			}
		}
		file := evs[cr].args[1]
		created := e.IsNil(s, evs[cr].args[2])
		failed := e.NonNil(s, evs[cr].args[2])
		if !created && !failed {
			m.bad(s, at, "whether the file could be created is not looked at")
			return
		}
		// sampling
		sl := idx("Sleep", 0)
		rates := []int{}
		rk := map[string]string{"block": "BlockRate", "mutex": "MutexRate"}[sp.kind]
		for i, ev := range evs {
			if ev.kind == "BlockRate" || ev.kind == "MutexRate" {
				if ev.kind != rk {
					m.bad(s, at, "the sampling rate of another profile is changed")
				}
				rates = append(rates, i)
			}
		}
		if rk != "" {
			switch {
			case len(rates) == 0 && failed && sl < 0:
			case len(rates) != 2:
				m.bad(s, at, "the sampling rate is not set and restored once each")
			default:
				if !isParam(evs[rates[0]].args[0], sp.rate) {
					m.bad(s, at, "the sampling rate is not the one asked for: "+evs[rates[0]].args[0].String())
				}
				back := evs[rates[1]].args[0]
				if rk == "BlockRate" {
					if v, ok := back.StripConv().Int(); !ok || v > 0 {
						m.bad(s, at, "block sampling is not switched off again: "+back.String())
					}
				} else if back != evs[rates[0]].args[1] {
					m.bad(s, at, "the former mutex sampling rate is not restored: "+back.String())
				}
				if sl >= 0 && !(rates[0] < sl && sl < rates[1]) {
					m.bad(s, at, "the sampling is not on during the sampling time")
				}
			}
		}
		if sp.sec >= 0 {
			if sl >= 0 && !isSeconds(evs[sl].args[0], sp.sec) {
				m.bad(s, at, "the sampling time is not the seconds asked for: "+evs[sl].args[0].String())
			}
			if count("Sleep") > 1 || sl < 0 && created && sp.kind != "cpu" {
				m.bad(s, at, "the sampling time is not waited for once")
			}
		} else if sl >= 0 {
			m.bad(s, at, "the command sleeps")
		}
		cl := idx("Close", 0)
		if sp.kind == "cpu" {
			st, sp1 := idx("CpuStart", 0), idx("CpuStop", 0)
			if count("Write") > 0 {
				m.bad(s, at, "another profile is written")
			}
			if failed {
				if st >= 0 || sp1 >= 0 {
					m.bad(s, at, "CPU profiling is started or stopped without a file")
				}
				return
			}
			if st < 0 || count("CpuStart") != 1 || evs[st].args[0] != file {
				m.bad(s, at, "CPU profiling into the created file is not started once")
				return
			}
			switch {
			case e.IsNil(s, evs[st].args[1]):
				wrote++
				if count("CpuStop") != 1 || sl < 0 || !(st < sl && sl < sp1 && sp1 < cl) {
					m.bad(s, at, "CPU profiling does not run for the sampling time and stop before the file is closed")
				}
			case e.NonNil(s, evs[st].args[1]):
				if sp1 >= 0 {
					m.bad(s, at, "CPU profiling that was not started here is stopped")
				}
			default:
				m.bad(s, at, "whether CPU profiling could be started is not looked at")
			}
			return
		}
		if count("CpuStart")+count("CpuStop") > 0 {
			m.bad(s, at, "CPU profiling is started or stopped")
		}
		w := idx("Write", 0)
		complete := false
		if failed {
			if w >= 0 {
				m.bad(s, at, "a profile is written without a file")
			}
		} else if w < 0 {
			// only when the runtime has no such profile
			none := false
			for id, f := range s.facts {
				t := e.TT.list[id]
				if t.Op == "call" && strings.HasPrefix(t.Aux, "Lookup@") && f.eq != nil && f.eq.IsNil() {
					none = true
				}
			}
			if !none {
				m.bad(s, at, "the profile is not written")
			}
		} else {
			wrote++
			ev := evs[w]
			pn := ""
			if ev.args[0].Op == "call" && strings.HasPrefix(ev.args[0].Aux, "Lookup@") {
				pn, _ = ev.args[0].Args[0].Str()
			}
			if pn != sp.kind || count("Write") != 1 {
				m.bad(s, at, "the profile written is not once the "+sp.kind+" profile: "+pn)
			}
			lv := ev.args[2]
			if v, ok := lv.StripConv().Int(); sp.level >= 0 && !isParam(lv, sp.level) || sp.level < 0 && (!ok || v != int64(-1-sp.level)) {
				m.bad(s, at, "the profile is written in another level or form: "+lv.String())
			}
			if sl >= 0 && w < sl {
				m.bad(s, at, "the profile is written before the sampling time")
			}
			to := ev.args[1]
			errw := ev.args[3]
			okw := e.NonNil(s, errw)
			switch {
			case to == file:
				complete = !okw
				if cl < w {
					m.bad(s, at, "the file is closed before the profile is written")
				}
			case to.Op == "call" && strings.HasPrefix(to.Aux, "bufw@") && unassert(to.Args[0]) == file:
				fl := idx("Flush", w)
				if fl < 0 && !okw {
					m.bad(s, at, "the buffered profile is not flushed to the file")
				}
				if fl >= 0 {
					if evs[fl].args[0] != to {
						m.bad(s, at, "another writer is flushed")
					}
					if cl < fl {
						m.bad(s, at, "the file is closed before the buffer is flushed")
					}
					complete = !okw && !e.NonNil(s, evs[fl].args[1])
					if sp.kind == "goroutine" && complete && !e.IsNil(s, evs[fl].args[1]) {
						complete = false
						if m.term(s, "put:name") != nil {
							m.bad(s, at, "the file is named although it may not have been written completely")
						}
						return
					}
				}
			default:
				m.bad(s, at, "the profile is not written to the created file: "+to.String())
			}
		}
		if sp.kind == "goroutine" {
			v := m.term(s, "put:name")
			if (v != nil) != complete {
				m.bad(s, at, "the answer does not name the file exactly when the dump was written completely")
			} else if v != nil && v != evs[cr].args[0] && !(v.Op == "call" && v.Aux == "fname" && v.Args[0] == file) {
				m.bad(s, at, "the answer names another file: "+v.String())
			}
		}
	}
	e.Run(fn, nil, nil, func() { wrote = 0 })
	c.Use(e, FnName(fn))
	if wrote == 0 {
		c.Bad("profile-dump", FnName(fn), c.W.FnAt(fn), "no path writes the profile")
	}
}

func init() {
	register("C18", "Each command that acts on a file named by the collector is explored on all abstract paths. At every file operation the path expression is split into components and the facts established about the name are evaluated over classes of improper names (empty, dot names, names with separators, wrong suffix): each class must contradict the path. Every other place in the dump package that touches files is one of the profile writers of C28.",
		func(c *Ctx) {
			known := map[*ssa.Function]bool{}
			for _, n := range sortedKeys(nameSpecs) {
				if fn := c.Need(dumpPkg, "", n); fn != nil {
					named(c, fn, nameSpecs[n])
					known[fn] = true
				}
			}
			for n := range dumpSpecs {
				if fn := c.W.Fn(dumpPkg, "", n); fn != nil {
					known[fn] = true
				}
			}
			// no other entry point of the package touches files
			for _, f := range c.W.Funcs {
				if relPkg(FnPkg(f)) != dumpPkg || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || known[f] {
					continue
				}
				c.Ob("entry-point", FnName(f))
				if c.W.reaches(f, func(in ssa.Instruction) bool {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						return false
					}
					n, ok := fileTouching(ci.Common().StaticCallee())
					return ok && n != "Mkdir" && n != "MkdirAll" && n != "ReadDir"
				}) {
					c.Bad("entry-point", FnName(f), c.W.FnAt(f), "a further function of the dump package opens, creates or removes files")
				}
			}
			c.Floor("contained", 3)
			c.Floor("refused", 20)
		})
	register("C28", "Each dump command is explored on all abstract paths together with the goroutine it starts; the order and arguments of file, profile, rate and time operations on each path are compared with the command's specification, including the paths on which creating, starting or writing fails.",
		func(c *Ctx) {
			for _, n := range sortedKeys(dumpSpecs) {
				if fn := c.Need(dumpPkg, "", n); fn != nil {
					profileDump(c, fn, dumpSpecs[n])
				}
			}
			c.Floor("profile-dump", 6)
		})
}
