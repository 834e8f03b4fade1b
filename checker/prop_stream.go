package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkStreams: a new output stream writes to the writer it was given or to a buffer of its own, a new input stream
// reads the bytes or the reader it was given, and Bytes returns everything the buffer holds.
func checkStreams(c *Ctx) {
	run := func(recv, name string, ret func(e *Engine, s *State, ps []*Term, at string, r *Term) string) {
		fn := c.Need(ndPkg, recv, name)
		if fn == nil {
			return
		}
		c.Ob("stream", FnName(fn))
		e := NewEngine(c.W)
		e.NoHavoc = func(*Call) bool { return true }
		e.KeepFact = func(*Term) bool { return true }
		ps := e.Params(fn)
		e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
			if m := ret(e, s, ps, c.W.At(in), res[0]); m != "" {
				c.Bad("stream", FnName(fn), c.W.At(in), m, s.Trace()...)
			}
		}
		e.Run(fn, ps, nil, nil)
		c.Use(e, FnName(fn))
	}
	// is: what is known of x being of the named type (1, -1, 0)
	is := func(e *Engine, s *State, x *Term, typ string) int {
		for _, t := range e.TT.list {
			if t.Op == "istype" && t.Typ != nil && (t.Args[0].Strip() == x || t.Args[0].Strip().String() == x.String()) && types.TypeString(t.Typ, nil) == typ {
				if v := e.Eval(s, t); v != 0 {
					return v
				}
			}
		}
		if e.IsNil(s, x) {
			return -1
		}
		return 0
	}
	bare := func(t *Term) *Term {
		for t.Strip().Op == "assert" || t.Strip().Op == "iface" {
			t = t.Strip().Args[0]
		}
		return t.Strip()
	}
	own := func(t *Term) bool {
		return !t.Mentions(func(x *Term) bool {
			return x.Op == "global" || x.Op == "load" || x.Op == "param" || x.Op == "field" || x.Op == "lookup"
		})
	}
	run("", "NewDataOutputX", func(e *Engine, s *State, ps []*Term, at string, r *Term) string {
		w := bare(e.fieldAt(s, r, "writer"))
		switch {
		case !own(r) || r.Strip().Op != "alloc":
			return "the stream handed out is not a new one: " + r.String()
		case w == ps[0]:
			return ""
		case w.IsNil() || !own(w):
			return "a stream without a writer of its own: " + w.String()
		case is(e, s, ps[0], "io.Writer") == 1:
			return "the writer given is not the one written to"
		}
		return ""
	})
	run("", "NewDataInputX", func(e *Engine, s *State, ps []*Term, at string, r *Term) string {
		w := bare(e.fieldAt(s, r, "reader"))
		switch {
		case !own(r) || r.Strip().Op != "alloc":
			return "the stream handed out is not a new one: " + r.String()
		case w == ps[0]:
			return ""
		case w.Op == "call" && (strings.HasPrefix(w.Aux, "bytes.NewBuffer") || strings.HasPrefix(w.Aux, "bytes.NewReader")) && len(w.Args) > 0 && bare(w.Args[len(w.Args)-1]) == ps[0]:
			return ""
		case is(e, s, ps[0], "[]byte") == 0 || is(e, s, ps[0], "[]byte") == 1 || is(e, s, ps[0], "io.Reader") != -1:
			return "the stream does not read what it was given: " + w.String()
		}
		return ""
	})
	run("DataOutputX", "Bytes", func(e *Engine, s *State, ps []*Term, at string, r *Term) string {
		w := e.fieldAt(s, ps[0], "writer")
		switch {
		case r.Op == "call" && strings.HasPrefix(r.Aux, "(*bytes.Buffer).Bytes") && bare(r.Args[len(r.Args)-1]).String() == w.Strip().String():
			return ""
		case r.IsNil() && (e.IsNil(s, ps[0]) || is(e, s, w.Strip(), "*bytes.Buffer") == -1):
			return ""
		}
		return fmt.Sprintf("%s is returned, not everything that was written", r)
	})
}
