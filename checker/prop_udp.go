package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ucPkg = "netio/udpclient"
const cafePkg = "common/constants/netcafeconstant"

// globalBytes is the text a []byte or string package variable holds, provided nothing else writes it.
func globalBytes(w *World, pkg, name string) (string, bool) {
	sp := w.SSA[rootPkg+"/"+pkg]
	if sp == nil {
		return "", false
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return "", false
	}
	n, val := 0, ""
	for _, f := range append(append([]*ssa.Function(nil), w.Funcs...), sp.Func("init")) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				if f != sp.Func("init") {
					return "", false
				}
				v := st.Val
				for {
					if cv, ok := v.(*ssa.Convert); ok {
						v = cv.X
						continue
					}
					break
				}
				k, ok := v.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					return "", false
				}
				val = constant.StringVal(k.Value)
				n++
			}
		}
	}
	return val, n >= 1
}

func unboxS(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// streams models freshly created output streams as item lists kept in the state.
type streams struct {
	e *Engine
	// element write hook: returns true when the raw write is an element
	isElem func(s *State, t *Term) bool
	onElem func(s *State, at string, stream, t *Term)
}

func sk(t *Term) string { return fmt.Sprintf("o:%05d", t.ID) }

// call models stream calls; ok when the call was one.
func (m *streams) call(s *State, k *Call, at string) (*Term, bool) {
	e := m.e
	if isFn(k.Fn, ndPkg, "NewDataOutputX") {
		if len(k.Args) == 1 && unboxS(k.Args[0]).IsNil() {
			t := e.TT.mk("call", "stream@"+k.Site, k.Fn.Signature.Results().At(0).Type(), nil)
			e.forget(s, t)
			if old := s.Get(sk(t)); strings.HasPrefix(old, "E") && !strings.HasPrefix(old, "E|F") {
				s.Set("lost", sk(t))
			}
			s.Set(sk(t), "I|")
			return t, true
		}
		return nil, false
	}
	n, ok := methodOn(k.Fn, ndPkg, "DataOutputX")
	if !ok {
		return nil, false
	}
	recv := k.Args[0]
	st := s.Get(sk(recv))
	switch n {
	case "Bytes":
		t := e.TT.mk("call", "bytes@"+k.Site, k.Fn.Signature.Results().At(0).Type(), nil, recv)
		e.forget(s, t)
		s.Set(fmt.Sprintf("b:%05d", t.ID), st)
		return t, true
	case "GetWriteSize", "Size":
		return m.size(s, k, recv, st), true
	}
	kind, prim := outPrims[n]
	if !prim {
		return nil, false
	}
	sig := k.Fn.Signature.Results()
	r := recv
	if sig.Len() == 2 {
		r = e.TT.mk("tuple", "", sig, nil, recv, e.TT.mk("call", "werr@"+k.Site, errType, nil))
		e.forget(s, r.Args[1])
	}
	arg := k.Args[1]
	if kind == "raw" && m.isElem != nil && m.isElem(s, arg) && (st == "I|" || strings.HasPrefix(st, "E|")) {
		m.onElem(s, at, recv, arg)
		return r, true
	}
	if strings.HasPrefix(st, "E|") {
		st = "X|" // mixed contents
	}
	if strings.HasPrefix(st, "I|") {
		st += fmt.Sprintf("%s:%d;", kind, arg.ID)
	}
	s.Set(sk(recv), st)
	return r, true
}

func (m *streams) size(s *State, k *Call, recv *Term, st string) *Term {
	e := m.e
	rt := k.Fn.Signature.Results().At(0).Type()
	if st == "I|" {
		return e.TT.Const(constant.MakeInt64(0), rt)
	}
	t := e.TT.mk("call", "wsize@"+k.Site, rt, nil, recv)
	e.forget(s, t)
	if strings.HasPrefix(st, "E|") {
		es := parseElems(st)
		es.sizes = addPoly(es.sizes, toPoly(t, nil))
		s.Set(sk(recv), es.String())
	}
	return t
}

// items splits an item list "I|kind:id;kind:id;".
func (m *streams) items(st string) (kinds []string, args []*Term, ok bool) {
	if !strings.HasPrefix(st, "I|") {
		return nil, nil, false
	}
	for _, it := range strings.Split(strings.TrimSuffix(st[2:], ";"), ";") {
		if it == "" {
			continue
		}
		p := strings.SplitN(it, ":", 2)
		kinds = append(kinds, p[0])
		args = append(args, m.e.TT.list[atoi(p[1])])
	}
	return kinds, args, true
}

// elems is the abstract content of a stream that holds list elements only: the expressions known to
// equal their number and their total size.
type elems struct {
	flushed       bool
	counts, sizes []poly
}

func (x elems) String() string {
	r := "E|"
	if x.flushed {
		r += "F"
	}
	enc := func(ps []poly) string {
		var l []string
		for _, p := range ps {
			l = append(l, p.String())
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	return r + "|" + enc(x.counts) + "|" + enc(x.sizes)
}

func parsePoly(s string) poly {
	r := poly{}
	for _, p := range strings.Split(s, "+") {
		if p == "" {
			continue
		}
		i := strings.Index(p, "·")
		var c int64
		fmt.Sscan(p[:i], &c)
		r[p[i+len("·"):]] = c
	}
	return r
}

func parseElems(st string) elems {
	if st == "I|" {
		return elems{counts: []poly{{}}, sizes: []poly{{}}}
	}
	p := strings.Split(st, "|")
	x := elems{flushed: p[1] == "F"}
	dec := func(s string) (r []poly) {
		for _, q := range strings.Split(s, " ") {
			if q == "" {
				q = ""
			}
			r = append(r, parsePoly(q))
		}
		return
	}
	x.counts, x.sizes = dec(p[2]), dec(p[3])
	return x
}

func addPoly(l []poly, p poly) []poly {
	for _, q := range l {
		if q.eq(p) {
			return l
		}
	}
	return append(append([]poly(nil), l...), p)
}

// header rewrites the expressions at a loop header: only those that became a loop variable survive.
func (x elems) header(phis map[*Term]*Term) elems {
	tr := func(l []poly) []poly {
		var r []poly
		for _, p := range l {
			for ph, in := range phis {
				if isIntTerm(in) && isIntTerm(ph) && toPoly(in, nil).eq(p) {
					r = addPoly(r, toPoly(ph, nil))
				}
			}
		}
		if len(r) == 0 {
			return []poly{{"?": 1}}
		}
		return r
	}
	x.counts, x.sizes = tr(x.counts), tr(x.sizes)
	return x
}

// udpFrame decides the framing of the datagrams one UDPClient method sends.
type udpFrame struct {
	c       *Ctx
	fn      *ssa.Function
	e       *Engine
	m       *streams
	ps      []*Term
	part    *partition
	list    bool
	limit   *Term                 // int parameter bounding the packet, or nil for the configured maximum
	senders map[*ssa.Function]int // verified single-buffer senders -> index of the limit argument (-1: none)
	elem    *Term
	learn   bool
	rule    string
	frames  map[string]int
}

func isUDPWrite(f *ssa.Function) bool {
	return f != nil && FnPkg(f) == "net" && (f.Name() == "Write") && f.Signature.Recv() != nil
}

func (u *udpFrame) isMax(t *Term) bool {
	t = t.StripConv()
	if u.limit != nil {
		return t == u.limit
	}
	return t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == "udpMaxBytes"
}

// maxTerm finds the configured maximum among the known facts' terms.
func (u *udpFrame) maxTerms(s *State) []*Term {
	if u.limit != nil {
		return []*Term{u.limit}
	}
	var r []*Term
	for _, t := range u.e.TT.list {
		if u.isMax(t) && t.Op == "load" {
			r = append(r, t)
		}
	}
	return r
}

func (u *udpFrame) bad(s *State, at, msg string) {
	u.c.Bad(u.rule, FnName(u.fn), at, msg, s.Trace()...)
}

func (u *udpFrame) magic(t *Term) string {
	t = t.StripConv()
	if t.Op == "load" && t.Args[0].Op == "global" {
		n := t.Args[0].Aux
		if i := strings.LastIndex(n, "."); i >= 0 {
			if v, ok := globalBytes(u.c.W, n[:i], n[i+1:]); ok {
				return v
			}
		}
	}
	if v, ok := t.Str(); ok {
		return v
	}
	return ""
}

func (u *udpFrame) fits(s *State, t *Term, extra poly) bool {
	ln := u.e.TT.mk("len", "", types.Typ[types.Int], nil, t)
	for _, mx := range u.maxTerms(s) {
		if knownLE0(u.e, s, toPoly(ln, nil).add(extra, 1).add(toPoly(mx, nil), -1)) {
			return true
		}
	}
	return false
}

func (u *udpFrame) consume(s *State, at string) {
	if s.Get("used") != "" {
		u.bad(s, at, "an entry of the list is sent twice in one iteration")
	}
	s.Set("used", "1")
}

// datagram judges one write to the socket.
func (u *udpFrame) datagram(s *State, at string, b *Term) {
	e := u.e
	st, ok := s.Vars[fmt.Sprintf("b:%05d", b.ID)]
	if !ok {
		u.bad(s, at, "sends "+b.String()+", which was not framed")
		return
	}
	kinds, args, ok := u.m.items(st)
	if !ok || len(kinds) == 0 || kinds[0] != "raw" {
		u.bad(s, at, "the datagram does not begin with a frame mark")
		return
	}
	shape := strings.Join(kinds, " ")
	mark := u.magic(args[0])
	u.frames[mark]++
	switch mark {
	case "CAFE":
		if shape != "raw raw" {
			u.bad(s, at, "a single frame is the mark and the record, not "+shape)
			return
		}
		if u.list {
			if u.elem == nil || !u.m.isElem(s, args[1]) {
				u.bad(s, at, "a single frame does not carry an entry of the list")
				return
			}
			u.consume(s, at)
		} else if args[1] != u.ps[1] {
			u.bad(s, at, "a single frame does not carry the whole record")
			return
		} else {
			u.part.chunkAt(s, at, args[1], nil)
		}
		if !u.fits(s, args[1], poly{}) {
			u.bad(s, at, "a record may be sent in one datagram although it is larger than the configured maximum")
		}
	case "CAFN":
		if !u.list {
			u.bad(s, at, "a single record is sent as a list")
			return
		}
		if shape != "raw 2 raw" {
			u.bad(s, at, "a list frame is the mark, the 16-bit count and the records, not "+shape)
			return
		}
		bt := args[2]
		es, ok := s.Vars[fmt.Sprintf("b:%05d", bt.ID)]
		if !ok || !strings.HasPrefix(es, "E|") {
			u.bad(s, at, "the list frame does not carry the collected entries: "+bt.String())
			return
		}
		src := bt.Args[0]
		if s.Get(sk(src)) != es {
			u.bad(s, at, "the entries were changed or sent since they were taken")
			return
		}
		x := parseElems(es)
		if x.flushed {
			u.bad(s, at, "the collected entries are sent twice")
			return
		}
		n := toPoly(args[1], nil)
		good := false
		for _, p := range x.counts {
			if p.eq(n) {
				good = true
			}
		}
		if !good {
			u.bad(s, at, fmt.Sprintf("the announced count is not the number of entries in the datagram (count %s, entries %v)", n, x.counts))
		}
		x.flushed = true
		s.Set(sk(src), x.String())
	case "CAFM":
		if u.list {
			u.bad(s, at, "a fragment is sent outside the fragmenting function")
			return
		}
		if shape != "raw 4 8 2 2 blob" {
			u.bad(s, at, "a fragment is the mark, object hash, packet id, total, number and the bytes, not "+shape)
			return
		}
		if s.Get("pk") == "" {
			s.Set("pk", fmt.Sprint(args[2].ID))
		}
		if s.Get("pk") != fmt.Sprint(args[2].ID) || s.Get("pkbad") != "" || !strings.Contains(args[2].String(), "keygen.Next") {
			u.bad(s, at, "the fragments of one record do not carry one generated packet id")
		}
		s.Set("pkused", "1")
		u.part.chunkAt(s, at, args[5], args[4])
		ln := u.e.TT.mk("len", "", types.Typ[types.Int], nil, u.ps[1])
		okTot, okSz := false, false
		lo, hi, okB := u.part.bounds(args[5])
		for _, mx := range u.maxTerms(s) {
			q := e.TT.mk("bin", "/", ln.Typ, nil, ln, mx)
			rem := e.TT.mk("bin", "%", ln.Typ, nil, ln, mx)
			tot := toPoly(args[3], nil)
			qp, rp := toPoly(q, nil), toPoly(rem, nil)
			switch {
			case tot.eq(qp.add(polyConst(1), 1)) && u.part.knownGT0(s, rp):
				okTot = true
			case tot.eq(qp) && knownLE0(e, s, rp):
				okTot = true
			}
			ceil := e.TT.mk("bin", "/", ln.Typ, nil, e.TT.mk("bin", "-", ln.Typ, nil, e.TT.mk("bin", "+", ln.Typ, nil, ln, mx), e.TT.Const(constInt(1), ln.Typ)), mx)
			if tot.eq(toPoly(ceil, nil)) {
				okTot = true
			}
			if okB {
				sz := hi.add(lo, -1)
				if sz.eq(toPoly(mx, nil)) || sz.eq(rp) || knownLE0(e, s, sz.add(toPoly(mx, nil), -1)) {
					okSz = true
				}
			}
		}
		if !okTot {
			u.bad(s, at, fmt.Sprintf("the announced total is not the number of fragments (%s)", toPoly(args[3], nil)))
		}
		if !okSz {
			u.bad(s, at, "a fragment may be larger than the configured maximum")
		}
	default:
		u.bad(s, at, "the datagram begins with the unknown mark "+args[0].String())
	}
}

func (u *udpFrame) connNil(s *State) bool {
	for _, t := range u.e.TT.list {
		if t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == "Conn" && u.e.IsNil(s, t) {
			return true
		}
	}
	return false
}

func (u *udpFrame) setup() {
	e := u.e
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(t *Term) bool { return true }
	e.WidenAt = 3000
	u.m = &streams{e: e}
	u.ps = e.Params(u.fn)
	u.frames = map[string]int{}
	u.m.isElem = func(s *State, t *Term) bool {
		return u.list && t.Op == "assert" && t.Args[0].Op == "load" && t.Args[0].Args[0].Op == "fieldaddr" && t.Args[0].Args[0].Aux == "Value" &&
			(u.learn || s.Get("cur") == fmt.Sprint(t.Args[0].Args[0].Args[0].ID))
	}
	u.m.onElem = func(s *State, at string, stream, t *Term) {
		u.elem = t
		if e.Dry {
			return
		}
		x := parseElems(s.Get(sk(stream)))
		u.consume(s, at)
		if x.flushed {
			u.bad(s, at, "an entry is added to a datagram that was already sent")
		}
		fit := false
		for _, sz := range x.sizes {
			if u.fits(s, t, sz) {
				fit = true
			}
		}
		if !fit {
			u.bad(s, at, "an entry may be added to a datagram although it then exceeds the configured maximum")
		}
		ln := toPoly(e.TT.mk("len", "", types.Typ[types.Int], nil, t), nil)
		for i := range x.counts {
			x.counts[i] = x.counts[i].add(polyConst(1), 1)
		}
		for i := range x.sizes {
			x.sizes[i] = x.sizes[i].add(ln, 1)
		}
		s.Set(sk(stream), x.String())
	}
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		at := u.c.W.At(k.Instr)
		if t, ok := u.m.call(s, k, at); ok {
			return t, true
		}
		if isUDPWrite(k.Fn) || k.Method != nil && k.Method.Name() == "Write" {
			if !e.Dry {
				u.datagram(s, at, k.Args[len(k.Args)-1])
			}
			return nil, true
		}
		if isFn(k.Fn, "common/util/keygen", "Next") {
			if s.Get("pkused") != "" {
				s.Set("pkbad", "1")
			}
			return nil, true
		}
		if isExtMethod(k.Fn, "container/list", "List", "Front") {
			r := e.TT.mk("call", "front", k.Fn.Signature.Results().At(0).Type(), nil, k.Args...)
			return r, true
		}
		if isExtMethod(k.Fn, "container/list", "Element", "Next") {
			r := e.TT.mk("call", "next", k.Fn.Signature.Results().At(0).Type(), nil, k.Args...)
			return r, true
		}
		if li, ok := u.senders[k.Fn]; ok && k.Fn != nil && k.Fn != u.fn && u.list {
			if e.Dry {
				return nil, true
			}
			if !u.m.isElem(s, k.Args[1]) {
				u.bad(s, at, "something that is not an entry of the list is sent: "+k.Args[1].String())
			} else {
				u.consume(s, at)
			}
			if li >= 0 && !u.isMax(k.Args[li]) {
				u.bad(s, at, "the fragment size is not the configured maximum")
			}
			return nil, true
		}
		return nil, false
	}
}

// runBuffer decides a method that sends one record.
func (u *udpFrame) runBuffer() {
	u.setup()
	e := u.e
	u.part = newPartition(u.c, e, u.rule, FnName(u.fn), u.ps[1])
	u.part.numbered = true
	u.part.hook()
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		u.part.atReturn(s, u.c.W.At(in), func() bool { return u.connNil(s) })
	}
	real := u.c
	u.part.learn = true
	scratch := NewCtx(u.c.W, "-", "")
	u.c, u.part.c = scratch, scratch
	e.Run(u.fn, u.ps, nil, nil)
	u.part.learn = false
	u.c, u.part.c = real, real
	e.Run(u.fn, u.ps, nil, func() { u.frames = map[string]int{} })
	u.c.Use(e, FnName(u.fn))
}

func (u *udpFrame) runList() {
	u.setup()
	e := u.e
	u.list = true
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		at := u.c.W.FnAt(u.fn)
		// the list cursor
		for ph, in := range phis {
			switch {
			case in.Op == "call" && in.Aux == "front" && !back:
				s.Set("cur", fmt.Sprint(ph.ID))
				s.Set("hdr", hdr)
				if in.Args[0] != u.ps[1] {
					u.bad(s, at, "another list is walked")
				}
			case s.Get("cur") == fmt.Sprint(ph.ID) && back && s.Get("hdr") == hdr:
				if in.Op != "call" || in.Aux != "next" || in.Args[0] != ph {
					u.bad(s, at, "the walk does not go on with the next entry of the list")
				}
				if s.Get("used") == "" {
					u.bad(s, at, "an entry of the list is not sent")
				}
			}
		}
		s.Set("used", "")
		// the collecting streams
		moved := map[string]string{}
		for ph, in := range phis {
			if v, ok := s.Vars[sk(in)]; ok {
				moved[sk(ph)] = v
				if in != ph {
					if old, ok := s.Vars[sk(ph)]; ok && back {
						u.dropped(s, at, old)
					}
				}
			}
		}
		for ph, in := range phis {
			if in != ph {
				s.Set(sk(in), "")
			}
			_ = ph
		}
		for k, v := range moved {
			s.Set(k, v)
		}
		for _, k := range sortedKeys(s.Vars) {
			v := s.Vars[k]
			if strings.HasPrefix(k, "o:") && (strings.HasPrefix(v, "E|") || v == "I|") {
				s.Set(k, parseElems(v).header(phis).String())
			}
			if strings.HasPrefix(k, "b:") {
				s.Set(k, "")
			}
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		at := u.c.W.At(in)
		if u.connNil(s) && s.Get("cur") == "" {
			return
		}
		if s.Get("cur") == "" {
			u.bad(s, at, "the list is not walked")
			return
		}
		cur := e.TT.list[atoi(s.Get("cur"))]
		if !e.IsNil(s, cur) {
			u.bad(s, at, "the walk ends before the end of the list")
		}
		for _, k := range sortedKeys(s.Vars) {
			if strings.HasPrefix(k, "o:") && strings.HasPrefix(s.Vars[k], "E|") {
				u.dropped(s, at, s.Vars[k])
			}
		}
	}
	e.Run(u.fn, u.ps, nil, func() { u.frames = map[string]int{} })
	u.c.Use(e, FnName(u.fn))
}

// dropped: a collecting stream goes out of use; its entries must have been sent or there are none.
func (u *udpFrame) dropped(s *State, at, st string) {
	if !strings.HasPrefix(st, "E|") {
		return
	}
	x := parseElems(st)
	if x.flushed {
		return
	}
	for _, p := range append(append([]poly(nil), x.counts...), x.sizes...) {
		if p.zero() || knownLE0(u.e, s, p) {
			return
		}
	}
	u.bad(s, at, "collected entries are not sent")
}

func init() {
	register("C05", "Every UDPClient method is explored abstractly over all paths: output streams are modelled as item lists, each write to the socket must be one of the three frames of the protocol, fragments must partition the record (symbolic interval cover, consecutive numbers, one packet id, right total), and in the list sender every entry reaches exactly one datagram whose 16-bit count equals the entries in it.",
		func(c *Ctx) {
			for n, v := range map[string]string{"CAFE": "CAFE", "CAFE_N": "CAFN", "CAFE_MTU": "CAFM"} {
				c.Ob("mark", n)
				if got, ok := globalBytes(c.W, cafePkg, n); !ok || got != v {
					c.Bad("mark", n, cafePkg, fmt.Sprintf("the frame mark is %q, must be %q", got, v))
				}
			}
			if fn := c.Need(ucPkg, "UDPClient", "SetUDPMaxBytes"); fn != nil {
				c.Ob("size-limit", FnName(fn))
				e := NewEngine(c.W)
				ps := e.Params(fn)
				e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
					if got := e.fieldAt(s, ps[0], "udpMaxBytes"); e.Eval(s, e.eqT(got.Strip(), ps[1])) != 1 {
						c.Bad("size-limit", FnName(fn), c.W.At(in), fmt.Sprintf("the limit in use afterwards is %s, not the one configured", got), s.Trace()...)
					}
				}
				e.Run(fn, ps, nil, nil)
				c.Use(e, FnName(fn))
			}
			wb := c.Need(ucPkg, "UDPClient", "WriteBuffer")
			wl := c.Need(ucPkg, "UDPClient", "WriteBufferList")
			if wb == nil || wl == nil {
				return
			}
			c.Ob("single-record", FnName(wb))
			u := &udpFrame{c: c, fn: wb, e: NewEngine(c.W), rule: "single-record"}
			u.runBuffer()
			for _, k := range []string{"CAFE", "CAFM"} {
				if u.frames[k] == 0 {
					c.Bad("single-record", FnName(wb)+" "+k, c.W.FnAt(wb), "no path sends this frame")
				}
			}
			// every other single-record method that is a complete sender may be used by the list sender
			senders := map[*ssa.Function]int{wb: -1}
			for _, f := range c.W.Funcs {
				if _, ok := methodOn(f, ucPkg, "UDPClient"); !ok || f == wb || f == wl || len(f.Params) < 2 || f.Signature.Recv() == nil || !isBytes(f.Params[1].Type()) {
					continue
				}
				li := -1
				for i := 2; i < len(f.Params); i++ {
					if isIntT(f.Params[i].Type()) {
						li = i
					}
				}
				sc := NewCtx(c.W, "-", "")
				v := &udpFrame{c: sc, fn: f, e: NewEngine(c.W), rule: "r"}
				if li >= 0 {
					v.limit = v.e.Params(f)[li]
				}
				v.runBuffer()
				if len(sc.viols) == 0 {
					senders[f] = li
					c.Ob("fragmenting", FnName(f))
					c.Fn(f)
				}
			}
			c.Ob("record-list", FnName(wl))
			l := &udpFrame{c: c, fn: wl, e: NewEngine(c.W), rule: "record-list", senders: senders}
			l.runList()
			if l.frames["CAFN"] == 0 {
				c.Bad("record-list", FnName(wl)+" CAFN", c.W.FnAt(wl), "no path sends a list frame")
			}
		})
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStrOrBytes(s)
}

func isIntT(t types.Type) bool {
	_, _, ok := typeRange(t)
	return ok
}
