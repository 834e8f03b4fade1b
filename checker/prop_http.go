package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: what is recorded of a request: the client's address, the service's name, headers and query.

type httpMon struct {
	*linkMon
	req *Term
}

func newHTTP(c *Ctx, fn *ssa.Function, rule, tab string) *httpMon {
	m := &httpMon{linkMon: newLink(c, fn, rule, tab)}
	e := m.e
	str := types.Typ[types.String]
	e.PeelInit = true
	e.TermIval = func(t *Term) *ival {
		if t.Op == "call" && t.Aux == "colonat" {
			return &ival{lo: -1, hi: 1 << 40}
		}
		return nil
	}
	sep := func(t *Term, want string) bool { v, ok := t.Str(); return ok && v == want }
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		f := k.Fn
		mk := func(name string, typ types.Type, args ...*Term) (*Term, bool) {
			return e.TT.mk("call", name, typ, nil, args...), true
		}
		switch {
		case f == nil:
		case isExt(f, "strings", "Split"), isExt(f, "strings", "SplitN"):
			if len(k.Args) == 3 {
				if n, ok := k.Args[2].Int(); !ok || n >= 0 && n < 2 {
					break
				}
				if !sep(k.Args[1], ":") {
					break
				}
			}
			return mk("split", types.NewSlice(str), k.Args[0], k.Args[1])
		case isExt(f, "strings", "Cut"):
			if sep(k.Args[1], ":") {
				return e.TT.mk("tuple", "", nil, nil, e.TT.mk("call", "first", str, nil, k.Args[0]), e.TT.mk("call", "rest", str, nil, k.Args[0]), e.TT.mk("call", "cut", types.Typ[types.Bool], nil, k.Args[0])), true
			}
		case isExt(f, "strings", "Index"), isExt(f, "strings", "IndexByte"), isExt(f, "strings", "IndexRune"), isExt(f, "strings", "IndexAny"):
			v, ok := k.Args[1].Int()
			if sep(k.Args[1], ":") || ok && v == ':' {
				return mk("colonat", types.Typ[types.Int], k.Args[0])
			}
		case isExt(f, "strings", "TrimSpace"):
			return mk("trim", str, k.Args[0])
		case isExt(f, "strings", "Trim"):
			if sep(k.Args[1], " ") {
				return mk("trim", str, k.Args[0])
			}
		case isExtMethod(f, "net/http", "Header", "Values"):
			return mk("http.Values", types.NewSlice(str), k.Args...)
		case isExt(f, "net/http", "CanonicalHeaderKey"), isExt(f, "net/textproto", "CanonicalMIMEHeaderKey"):
			return mk("canonical", str, k.Args[0])
		}
		return m.model(s, k)
	}
	return m
}

// firstOf: v is the text of which before its first colon; nil when it is something else.
func (m *httpMon) firstOf(s *State, v *Term) *Term {
	colon := func(x *Term) *Term { return m.e.TT.mk("call", "colonat", types.Typ[types.Int], nil, x) }
	switch {
	case v.Op == "load" && v.Args[0].Op == "indexaddr":
		b := v.Args[0].Args[0]
		i, ok := v.Args[0].Args[1].Int()
		if b.Op == "call" && b.Aux == "split" && ok && i == 0 {
			if sp, _ := b.Args[1].Str(); sp == ":" {
				return b.Args[0]
			}
		}
	case v.Op == "call" && v.Aux == "first":
		return v.Args[0]
	case v.Op == "slice" && len(v.Args) >= 3 && v.Args[2] == colon(v.Args[0]):
		lo, ok := v.Args[1].Int()
		if v.Args[1].Op == "none" || ok && lo == 0 {
			return v.Args[0]
		}
	}
	if iv := m.e.Ival(s, colon(v)); iv != nil && iv.hi < 0 {
		return v
	}
	return nil
}

// emptyText: 1 known to be empty, -1 known not to be, 0 unknown.
func (m *httpMon) emptyText(s *State, t *Term) int {
	e := m.e
	if e.IsNil(s, t) {
		return 1
	}
	return e.Eval(s, e.eqInt(e.TT.mk("len", "", types.Typ[types.Int], nil, t), 0))
}

// pieces: the parts a text is put together from, in their order.
func (m *httpMon) pieces(s *State, t *Term) []*Term {
	switch {
	case t.Op == "bin" && t.Aux == "+":
		return append(m.pieces(s, t.Args[0]), m.pieces(s, t.Args[1])...)
	case t.Op == "call" && (t.Aux == "strings.Join" || t.Aux == "fmt.Sprintf" || t.Aux == "fmt.Sprint"):
		n := 2
		if t.Aux == "fmt.Sprint" {
			n = 1
		}
		if len(t.Args) <= n { // a list that is not made here
			return []*Term{t}
		}
		sp, isS := t.Args[n-1].Str()
		if t.Aux == "fmt.Sprintf" {
			sp, isS = t.Args[0].Str()
		}
		if !isS && t.Aux != "fmt.Sprint" {
			return []*Term{t}
		}
		var r []*Term
		add := func(x string) {
			if x != "" {
				r = append(r, m.e.str(x))
			}
		}
		vs := t.Args[n:]
		if t.Aux != "fmt.Sprintf" {
			for i, v := range vs {
				if i > 0 && t.Aux == "strings.Join" {
					add(sp)
				}
				r = append(r, m.pieces(s, v)...)
			}
			return r
		}
		for i, v := range vs {
			j := strings.Index(sp, "%")
			if j < 0 || j+1 >= len(sp) || sp[j+1] != 's' && sp[j+1] != 'v' {
				return []*Term{t}
			}
			add(sp[:j])
			sp = sp[j+2:]
			r = append(r, m.pieces(s, v)...)
			_ = i
		}
		if strings.Contains(sp, "%") {
			return []*Term{t}
		}
		add(sp)
		return r
	}
	return []*Term{t}
}

// joined: neighbouring constants made one.
func (m *httpMon) joined(ps []*Term) []*Term {
	var r []*Term
	for _, p := range ps {
		if v, ok := p.Str(); ok && len(r) > 0 {
			if w, ok := r[len(r)-1].Str(); ok {
				r[len(r)-1] = m.e.str(w + v)
				continue
			}
		}
		r = append(r, p)
	}
	return r
}

func isReqPath(t, req *Term) bool {
	return t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == "Path" && isFieldLoad(t.Args[0].Args[0], req, "URL")
}

func (m *httpMon) isHeader(t *Term) bool { return isFieldLoad(t.Strip(), m.req, "Header") }

func isConfSplit(t *Term, name string) bool {
	if t.Op != "call" || t.Aux != "split" || !isConfLoad(t.Args[0], name) {
		return false
	}
	sp, _ := t.Args[1].Str()
	return sp == ","
}

const hdrKeys = "ProfileHttpHeaderKeys"

// keyOf: the configured name a header is looked up by, when it is one.
func (m *httpMon) keyOf(t *Term) *Term {
	for t.Op == "call" && (t.Aux == "trim" || t.Aux == "canonical") {
		t = t.Args[0]
	}
	if t.Op == "load" && t.Args[0].Op == "indexaddr" && isConfSplit(t.Args[0].Args[0], hdrKeys) {
		return t
	}
	return nil
}

func (m *httpMon) trimmed(t *Term) bool {
	return t.Mentions(func(x *Term) bool { return x.Op == "call" && x.Aux == "trim" })
}

// values: the values of a header; by: "keyed" for one of the configured names, "all" for one of every header.
func (m *httpMon) values(t *Term) (by string, key *Term, why string) {
	switch {
	case t.Op == "call" && t.Aux == "http.Values" && m.isHeader(t.Args[0]):
		key = t.Args[1]
	case t.Op == "lookup" && m.isHeader(t.Args[0]):
		key = t.Args[1]
		if !key.Mentions(func(x *Term) bool { return x.Op == "call" && x.Aux == "canonical" }) {
			why = "a header is looked up by the name as it is configured, although the request has it under its canonical name"
		}
	case t.Op == "res" && t.Aux == "0" && t.Args[0].Op == "lookup":
		return m.values(t.Args[0])
	case t.Op == "res" && t.Aux == "2" && t.Args[0].Op == "next":
		r := t.Args[0].Args[0]
		if r.Op == "range" {
			r = r.Args[0]
		}
		if m.isHeader(r) {
			return "all", m.e.TT.mk("res", "1", types.Typ[types.String], nil, t.Args[0]), ""
		}
		return "", nil, ""
	default:
		return "", nil, ""
	}
	if key.Op == "res" && key.Aux == "1" && key.Args[0].Op == "next" {
		return "all", key, ""
	}
	k := m.keyOf(key)
	if k == nil {
		return "", nil, ""
	}
	if why == "" && !m.trimmed(key) {
		why = "the blanks around a configured name are taken as part of it"
	}
	return "keyed", key, why
}

func (m *httpMon) sameKey(a, b *Term) bool {
	if a == b {
		return true
	}
	ka, kb := m.keyOf(a), m.keyOf(b)
	return ka != nil && ka == kb
}

func httpRequest(c *Ctx, tab string) {
	fn := c.Need(stPkg, "", "StartHttpService")
	if fn == nil {
		return
	}
	m := newHTTP(c, fn, "request", tab)
	e := m.e
	m.req = m.ps[1]
	on := e.confTruth("ProfileHttpHeaderEnabled")
	query := e.confTruth("ProfileHttpQuerystringEnabled")
	noKeys := e.confEmpty(hdrKeys)
	traces := 0

	m.onStep = func(s *State, at, op string, coll, step *Term) {
		if !isNamedT(step.Typ, ndPkg, "MessageStep") {
			return
		}
		msg := e.fieldAt(s, step, "Message")
		isQuery := m.mentionsDeep(s, msg, func(t *Term) bool {
			return t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == "RawQuery" || t.Op == "call" && strings.Contains(t.Aux, "RequestURI")
		})
		ofHeader := m.mentionsDeep(s, msg, func(t *Term) bool {
			return m.isHeader(t) && t.Op == "load"
		})
		if !isQuery && !ofHeader {
			return
		}
		c.counts["request_steps"]++
		tc := m.newTctx(s)
		if tc == nil || coll != e.fieldAt(s, tc, "Profile") || op != "Add" {
			m.bad(s, at, "a step about the request is not added to the profile of its trace")
			return
		}
		if v := e.fieldPath(s, step, "SingleStep.StartTime"); v != m.since(s, tc) {
			m.bad(s, at, "a step about the request does not start now: "+v.String())
		}
		if isQuery {
			if query(s) <= 0 {
				m.bad(s, at, "the query is recorded although that is not enabled")
			}
			if s.Get("query") != "" {
				m.bad(s, at, "the query is recorded twice")
			}
			s.Set("query", "1")
			return
		}
		if on(s) <= 0 {
			m.bad(s, at, "a header is recorded although that is not enabled")
		}
		ps := m.pieces(s, msg)
		at0, at1 := -1, -1
		var key *Term
		by := ""
		for i, p := range ps {
			if p.Op == "call" && p.Aux == "strings.Join" && len(p.Args) >= 2 {
				b, k, why := m.values(p.Args[0])
				if b == "" {
					continue
				}
				if why != "" {
					m.bad(s, at, why)
				}
				if sp, ok := p.Args[1].Str(); !ok || sp != "," {
					m.bad(s, at, "the values of a header are not joined by a comma")
				}
				by, key, at1 = b, k, i
			}
		}
		if by == "" {
			m.bad(s, at, "a step about a header does not show all its values: "+msg.String())
			s.Set("kept", "1")
			return
		}
		for i, p := range ps {
			if m.sameKey(p, key) {
				at0 = i
				break
			}
		}
		switch empty := noKeys(s); {
		case at0 < 0 || at0 > at1:
			m.bad(s, at, "a step about a header does not show its name and then its values: "+msg.String())
		case by == "keyed" && empty > 0, by == "all" && empty <= 0:
			m.bad(s, at, "headers are not chosen by the configured names")
		}
		if s.Get("kept") != "" {
			m.bad(s, at, "a header is recorded twice")
		}
		s.Set("kept", "1")
	}
	e.OnBranch = func(s *State, in *ssa.If, cond *Term, taken bool) {
		kind, count, iter := e.LoopIf(s, in, cond, taken)
		if count == nil {
			return
		}
		loop := ""
		switch {
		case count.Op == "len" && isConfSplit(count.Args[0], hdrKeys):
			loop = "keyed"
		case m.isHeader(count):
			loop = "all"
		default:
			return
		}
		switch kind {
		case "iter":
			s.Set("in", loop)
			s.Set("kept", "")
			if iter != nil {
				s.Set("iter", fmt.Sprint(iter.ID))
			}
		case "done":
			s.Set("in", "")
			s.Set("kept", "")
			s.Set("done", loop)
		}
	}
	e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
		if !back || s.Get("in") == "" {
			return
		}
		if s.Get("kept") == "" && !e.Dry {
			reason := false
			if s.Get("in") == "keyed" {
				for id, f := range s.facts { // the request does not have the header, or the name is empty
					t := e.TT.list[id]
					if t.Op == "len" {
						t = t.Args[0]
					}
					_ = f
					b, _, _ := m.values(t)
					if b == "keyed" && m.emptyText(s, t) > 0 || m.keyOf(t) != nil && m.emptyText(s, t) > 0 {
						reason = true
					}
					if t.Op == "call" && t.Aux == "http.Get" && m.keyOf(t.Args[1]) != nil && m.emptyText(s, t) > 0 {
						reason = true
					}
				}
			}
			if !reason {
				m.bad(s, c.W.FnAt(fn), "a header that is to be recorded is left out")
			}
		}
		s.Set("in", "")
		s.Set("kept", "")
	}
	m.run(func(s *State, at string, res []*Term) {
		if e.Dry {
			return
		}
		tc := m.newTctx(s)
		if tc == nil {
			return
		}
		traces++
		m.address(s, at, e.fieldAt(s, tc, "RemoteIp"))
		ps := m.joined(m.pieces(s, e.fieldAt(s, tc, "ServiceName")))
		is := func(t *Term, want string) bool { v, ok := t.Str(); return ok && v == want }
		if !(len(ps) == 4 && isReqPath(ps[0], m.req) && is(ps[1], "<") && isFieldLoad(ps[2], m.req, "Method") && is(ps[3], ">")) {
			m.bad(s, at, "the service's name is not the path and the method between < and >: "+e.fieldAt(s, tc, "ServiceName").String())
		}
		switch q := query(s); {
		case q == 0:
			m.bad(s, at, "the query is recorded or not without asking the configuration")
		case q > 0 && s.Get("query") == "":
			m.bad(s, at, "the query is not recorded although that is enabled")
		}
		switch h := on(s); {
		case h == 0:
			m.bad(s, at, "headers are recorded or not without asking the configuration")
		case h > 0 && noKeys(s) == 0:
			m.bad(s, at, "headers are chosen without asking whether names are configured")
		case h > 0 && noKeys(s) > 0 && s.Get("done") != "all":
			m.bad(s, at, "not every header is recorded although no names are configured")
		case h > 0 && noKeys(s) <= 0 && s.Get("done") != "keyed":
			m.bad(s, at, "not every configured header is recorded")
		}
	})
	c.counts["traces_of_requests"] = traces
	c.least("traces_of_requests", 1)
	c.least("request_steps", 3)
}

// address: the client's address of a request.
func (m *httpMon) address(s *State, at string, v *Term) {
	e := m.e
	x := m.firstOf(s, v)
	if x == nil {
		m.bad(s, at, "the client's address is not the text before the first colon: "+v.String())
		return
	}
	isHdr := func(t *Term) bool {
		return t.Op == "call" && t.Aux == "http.Get" && m.isHeader(t.Args[0]) && isConfLoad(t.Args[1], "TraceHttpClientIpHeaderKey")
	}
	has := 0 // the request has the configured header: 1 it does, -1 it does not
	if e.confEmpty("TraceHttpClientIpHeaderKey")(s) > 0 {
		has = -1
	}
	see := func(t *Term) bool {
		if isHdr(t) {
			if v := m.emptyText(s, t); v != 0 {
				has = -v
			}
		}
		return false
	}
	x.Mentions(see)
	for id := range s.facts {
		e.TT.list[id].Mentions(see)
	}
	switch {
	case isHdr(x):
		if has <= 0 {
			m.bad(s, at, "the client's address is taken from a header the request need not have")
		}
	case isFieldLoad(x, m.req, "RemoteAddr"):
		if has >= 0 {
			m.bad(s, at, "the client's address is not taken from the configured header although the request may have it")
		}
	default:
		m.bad(s, at, "the client's address is neither the request's remote address nor the configured header: "+x.String())
	}
}

func init() {
	register("C30", "Every path through the function that starts the trace of a request is followed: the client's address and the service's name as terms over the request, and each step about a header or the query against the configuration known on that path; the loops over the configured names and over all headers must record each one. The remote address given to StartService is followed the same way.", func(c *Ctx) {
		tab := activeTable(c)
		if tab == "" {
			return
		}
		httpRequest(c, tab)
		if fn := c.Need(stPkg, "", "StartService"); fn != nil {
			m := newHTTP(c, fn, "address", tab)
			m.run(func(s *State, at string, res []*Term) {
				tc := m.newTctx(s)
				if m.e.Dry || tc == nil {
					return
				}
				v := m.e.fieldAt(s, tc, "RemoteIp")
				if m.firstOf(s, v) != m.ps[2] {
					m.bad(s, at, "the client's address is not the text before the first colon of what was given: "+v.String())
				}
			})
		}
	})
}
