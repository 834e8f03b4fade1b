package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const usPkg = "netio/udpsender"

// queueMon follows records from the queue, a list or a pack to the UDP client.
type queueMon struct {
	c    *Ctx
	e    *Engine
	fn   *ssa.Function
	rule string
	m    *streams
	ps   []*Term
}

func (q *queueMon) bad(s *State, at, msg string) {
	q.c.Bad(q.rule, FnName(q.fn), at, msg, s.Trace()...)
}

func lk(t *Term) string { return fmt.Sprintf("l:%05d", t.ID) }
func rk(t *Term) string { return fmt.Sprintf("r:%05d", t.ID) }

func isChanBytes(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && isBytes(ch.Elem())
}

// sendBuf: b is handed to the UDP client on its own.
func (q *queueMon) sendBuf(s *State, at string, b *Term) {
	if st, ok := s.Vars[rk(b)]; ok {
		if st != "pending" {
			q.bad(s, at, "a record is sent twice")
		}
		s.Set(rk(b), "sent")
		return
	}
	if b.Op == "assert" && b.Args[0].Op == "load" && b.Args[0].Args[0].Op == "fieldaddr" {
		el := b.Args[0].Args[0].Args[0]
		if el.Op == "call" && (el.Aux == "front" || el.Aux == "back") {
			l := el.Args[0]
			if n := s.Get("n" + lk(l)); n != "" {
				if iv := q.e.Ival(s, q.e.TT.list[atoi(n)]); iv.hi <= 1 {
					q.sendList(s, at, l)
					return
				}
			}
			q.bad(s, at, "only the first record of a list is sent")
			s.Set(lk(l), "S")
			return
		}
	}
	q.bad(s, at, "something else than a record of the queue is sent: "+b.String())
}

func (q *queueMon) sendList(s *State, at string, l *Term) {
	switch st := s.Get(lk(l)); st {
	case "U", "N":
		if s.Async() {
			s.Set(lk(l), "A")
		} else {
			s.Set(lk(l), "S")
		}
	case "E":
	case "S", "A":
		q.bad(s, at, "the records of a list are sent twice")
	default:
		q.bad(s, at, "an unknown list is sent: "+l.String())
	}
}

// settle: every record taken in this scope has been sent.
func (q *queueMon) settle(s *State, at string, in func(t *Term) bool) {
	for _, k := range sortedKeys(s.Vars) {
		if len(k) < 3 || k[1] != ':' {
			continue
		}
		t := q.e.TT
		switch k[0] {
		case 'r':
			if s.Vars[k] == "pending" && in(t.list[atoi(k[2:])]) {
				q.bad(s, at, "a record taken from the queue is not sent")
			}
			if in(t.list[atoi(k[2:])]) {
				s.Set(k, "")
			}
		case 'l':
			l := t.list[atoi(k[2:])]
			if !in(l) {
				continue
			}
			switch s.Vars[k] {
			case "N", "U":
				if n := s.Get("n" + k); n != "" {
					if iv := q.e.Ival(s, t.list[atoi(n)]); iv.hi <= 0 {
						continue
					}
				}
				if q.e.IsNil(s, l) {
					continue
				}
				q.bad(s, at, "the records of a list are not sent")
			}
		}
	}
}

func (q *queueMon) setup() {
	e := q.e
	e.GoInline = true
	e.PeelInit = true
	e.NoHavoc = func(*Call) bool { return true }
	e.KeepFact = func(t *Term) bool { return true }
	q.m = &streams{e: e}
	q.ps = e.Params(q.fn)
	isL := func(f *ssa.Function, n string) bool { return isExtMethod(f, "container/list", "List", n) }
	e.OnCall = func(s *State, k *Call) (*Term, bool) {
		at := q.c.W.At(k.Instr)
		if t, ok := q.m.call(s, k, at); ok {
			return t, true
		}
		if n, ok := methodOn(k.Fn, ucPkg, "UDPClient"); ok {
			if !e.Dry {
				switch {
				case len(k.Args) >= 2 && k.Args[1].Typ != nil && isBytes(k.Args[1].Typ):
					q.sendBuf(s, at, k.Args[1])
				case n == "WriteBufferList":
					q.sendList(s, at, k.Args[1])
				}
			}
			return nil, true
		}
		switch {
		case isExt(k.Fn, "container/list", "New"):
			t := e.TT.mk("call", "list@"+k.Site, k.Fn.Signature.Results().At(0).Type(), nil)
			e.forget(s, t)
			s.Set(lk(t), "E")
			s.Set("n"+lk(t), "")
			return t, true
		case isL(k.Fn, "PushBack") || isL(k.Fn, "PushFront"):
			l, b := k.Args[0], unboxS(k.Args[1])
			if !e.Dry {
				switch s.Get(lk(l)) {
				case "E", "N":
					s.Set(lk(l), "N")
				case "S", "A":
					q.bad(s, at, "a record is added to a list whose records were already sent")
				default:
					q.bad(s, at, "a record is added to an unknown list")
				}
				if s.Get(rk(b)) != "pending" {
					q.bad(s, at, "what is added to the list is not a record still to be sent: "+b.String())
				}
				s.Set(rk(b), "sent")
				s.Set("n"+lk(l), "")
			}
			return nil, true
		case isL(k.Fn, "Init"):
			l := k.Args[0]
			if !e.Dry {
				switch s.Get(lk(l)) {
				case "N", "U":
					q.bad(s, at, "a list is emptied before its records are sent")
				case "A":
					q.bad(s, at, "a list is emptied while a goroutine still sends it")
				}
			}
			s.Set(lk(l), "E")
			s.Set("n"+lk(l), "")
			return l, true
		case isL(k.Fn, "Len"):
			l := k.Args[0]
			st := s.Get(lk(l))
			if st == "E" {
				return e.TT.Const(constInt(0), types.Typ[types.Int]), true
			}
			if n := s.Get("n" + lk(l)); n != "" {
				return e.TT.list[atoi(n)], true
			}
			t := e.TT.mk("call", "listlen@"+k.Site, types.Typ[types.Int], nil, l)
			e.forget(s, t)
			lo := int64(0)
			if st == "N" || st == "S" && !strings.HasPrefix(l.Op, "param") {
				lo = 1
			}
			e.recIv(s, t, lo, 1<<62)
			s.Set("n"+lk(l), fmt.Sprint(t.ID))
			return t, true
		case isL(k.Fn, "Front"):
			return e.TT.mk("call", "front", k.Fn.Signature.Results().At(0).Type(), nil, k.Args...), true
		case isL(k.Fn, "Back"):
			return e.TT.mk("call", "back", k.Fn.Signature.Results().At(0).Type(), nil, k.Args...), true
		case isL(k.Fn, "Remove") || isL(k.Fn, "PushBackList") || isL(k.Fn, "PushFrontList"):
			if !e.Dry {
				q.bad(s, at, "list operation "+k.Fn.Name()+" is not understood")
			}
			return nil, true
		}
		return nil, false
	}
	e.OnRecv = func(s *State, in ssa.Instruction, ch *Term) *Term {
		if ch.Typ == nil || !isChanBytes(ch.Typ) {
			return nil
		}
		t := e.freshAt(s, s.top(), in, "recv", ch.Typ.Underlying().(*types.Chan).Elem())
		if _, ok := in.(*ssa.UnOp); ok && in.(*ssa.UnOp).CommaOk {
			return nil
		}
		if s.Get(rk(t)) == "pending" && !e.Dry {
			q.bad(s, q.c.W.At(in), "a record taken from the queue is not sent")
		}
		s.Set(rk(t), "pending")
		s.Set("got", "1")
		return t
	}
}

// queuer decides a function that offers one record to the queue.
func (q *queueMon) queuer(rec func(s *State, v *Term) bool) {
	e := q.e
	e.OnSend = func(s *State, in ssa.Instruction, ch, v *Term) {
		at := q.c.W.At(in)
		if !isChanBytes(ch.Typ) {
			return
		}
		sel, ok := in.(*ssa.Select)
		if !ok || sel.Blocking {
			q.bad(s, at, "queuing a record can block the caller")
		}
		if s.Get("off") != "" {
			q.bad(s, at, "a record is queued twice")
		}
		s.Set("off", "1")
		if !rec(s, v) {
			q.bad(s, at, "what is queued is not the record: "+v.String())
		}
	}
	e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
		if s.Get("off") == "" {
			q.bad(s, q.c.W.At(in), "the record is not offered to the queue")
		}
	}
	e.Run(q.fn, q.ps, nil, nil)
	q.c.Use(e, FnName(q.fn))
}

func newQueueMon(c *Ctx, fn *ssa.Function, rule string) *queueMon {
	q := &queueMon{c: c, e: NewEngine(c.W), fn: fn, rule: rule}
	c.Ob(rule, FnName(fn))
	q.setup()
	return q
}

// packBytes: v is the encoding of exactly the given pack.
func (q *queueMon) packBytes(s *State, v, pack *Term) bool {
	kinds, args, ok := q.m.items(s.Vars[fmt.Sprintf("b:%05d", v.ID)])
	return ok && len(kinds) == 1 && kinds[0] == "pack" && unboxS(args[0]) == unboxS(pack)
}

func init() {
	register("C06", "The UDP sender's functions are explored abstractly with a typestate for every record and list: taken from the queue / collected / sent / handed to a goroutine. Every path through the sending loop, sendList, SendDirect, SendPackDirect, AddPack and AddBuffer must hand each record to the UDP client (or offer it to the queue without blocking) exactly once.",
		func(c *Ctx) {
			if fn := c.Need(usPkg, "UDPSender", "AddPack"); fn != nil {
				q := newQueueMon(c, fn, "queue")
				q.queuer(func(s *State, v *Term) bool { return q.packBytes(s, v, q.ps[1]) })
			}
			if fn := c.Need(usPkg, "UDPSender", "AddBuffer"); fn != nil {
				q := newQueueMon(c, fn, "queue")
				q.queuer(func(s *State, v *Term) bool { return v == q.ps[1] })
			}
			if fn := c.Need(usPkg, "UDPSender", "SendPackDirect"); fn != nil {
				q := newQueueMon(c, fn, "direct")
				e := q.e
				inner := e.OnCall
				e.OnCall = func(s *State, k *Call) (*Term, bool) {
					if n, ok := methodOn(k.Fn, ucPkg, "UDPClient"); ok && n == "WriteBuffer" {
						if !e.Dry {
							at := c.W.At(k.Instr)
							if s.Get("sent") != "" {
								q.bad(s, at, "the pack is sent twice")
							}
							s.Set("sent", "1")
							if !s.Async() {
								q.bad(s, at, "the pack is sent on the caller's goroutine")
							}
							if !q.packBytes(s, k.Args[1], q.ps[1]) {
								q.bad(s, at, "what is sent is not the encoding of the pack")
							}
						}
						return nil, true
					}
					return inner(s, k)
				}
				e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
					if s.Get("sent") == "" {
						q.bad(s, c.W.At(in), "the pack is not sent")
					}
				}
				e.Run(fn, q.ps, nil, nil)
				c.Use(e, FnName(fn))
			}
			if fn := c.Need(usPkg, "UDPSender", "SendDirect"); fn != nil {
				q := newQueueMon(c, fn, "direct")
				q.e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
					q.settle(s, c.W.At(in), func(t *Term) bool { return true })
				}
				q.e.Run(fn, q.ps, map[string]string{lk(q.ps[1]): "U"}, nil)
				c.Use(q.e, FnName(fn))
			}
			// the sending loop: what GetInstance starts and what takes records from the queue
			n := 0
			for _, g := range goStarts(c.W) {
				if g.Fn == nil || relPkg(FnPkg(g.In)) != usPkg || !c.W.reaches(g.Fn, func(in ssa.Instruction) bool {
					u, ok := in.(*ssa.UnOp)
					return ok && u.Op.String() == "<-" && isChanBytes(u.X.Type())
				}) {
					continue
				}
				n++
				fn := g.Fn
				q := newQueueMon(c, fn, "sending-loop")
				e := q.e
				e.OnHeader = func(s *State, hdr string, phis map[*Term]*Term, back bool) {
					q.moveLists(s, phis, back)
					if !back {
						return
					}
					at := c.W.FnAt(s.top().fn)
					q.settle(s, at, func(t *Term) bool { return e.inLoopSite(s, hdr, t) })
					if e.roundLoop(s, hdr) {
						if s.Get("got") == "" && !q.queueEmpty(s) {
							q.bad(s, at, "a round of the sending loop takes nothing although the queue may hold records")
						}
						s.Set("got", "")
					}
				}
				e.OnReturn = func(s *State, in *ssa.Return, res []*Term) {
					q.settle(s, c.W.At(in), func(t *Term) bool { return true })
				}
				e.Run(fn, q.ps, nil, nil)
				c.Use(e, FnName(fn))
			}
			c.Check(n == 1, "sending-loop", "started once", usPkg, fmt.Sprintf("%d goroutines take records from the queue, one was confirmed", n))
			c.Floor("queue", 2)
			c.Floor("direct", 2)
		})
}

// queueEmpty: the queue was found empty (or a batch of no records was asked for) on this path.
func (q *queueMon) queueEmpty(s *State) bool {
	for id := range s.facts {
		t := q.e.TT.list[id]
		if t.Op == "len" && t.Args[0].Typ != nil && isChanBytes(t.Args[0].Typ) {
			if iv := q.e.Ival(s, t); iv.hi <= 0 {
				return true
			}
		}
	}
	return false
}

// moveLists carries list states over to loop variables.
func (q *queueMon) moveLists(s *State, phis map[*Term]*Term, back bool) {
	moved := map[string]string{}
	for ph, in := range phis {
		if st, ok := s.Vars[lk(in)]; ok && in != ph {
			if back && s.Get(lk(ph)) == "N" {
				q.bad(s, q.c.W.FnAt(s.top().fn), "a list is replaced before its records are sent")
			}
			moved[lk(ph)] = st
			s.Set(lk(in), "")
			s.Set("n"+lk(in), "")
			s.Set("n"+lk(ph), "")
		}
	}
	for k, v := range moved {
		s.Set(k, v)
	}
}
