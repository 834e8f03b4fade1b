package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned abstract value: a canonical expression over the analysed
// function's inputs, memory reads and call results. Equal terms are pointer-equal.
type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term
	Typ  types.Type
	Fn   *ssa.Function // func, closure
	C    constant.Value
}

type TermTab struct {
	m    map[string]*Term
	list []*Term
}

func NewTermTab() *TermTab { return &TermTab{m: map[string]*Term{}} }

func (tt *TermTab) mk(op, aux string, typ types.Type, fn *ssa.Function, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	if typ != nil && (op == "const" || op == "conv" || op == "assert" || op == "istype" || op == "iface" || op == "zero") {
		sb.WriteByte('|')
		sb.WriteString(typeStr(typ))
	}
	if fn != nil {
		fmt.Fprintf(&sb, "|%p", fn)
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{ID: len(tt.list), Op: op, Aux: aux, Args: args, Typ: typ, Fn: fn}
	tt.m[k] = t
	tt.list = append(tt.list, t)
	return t
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return relPkg(p.Path()) })
}

func (tt *TermTab) Const(v constant.Value, t types.Type) *Term {
	if v == nil {
		return tt.mk("nil", "", t, nil)
	}
	// type-insensitive for equality of value: integers share a representation per underlying kind
	x := tt.mk("const", v.ExactString(), basicOf(t), nil)
	x.C = v
	return x
}

func basicOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (t *Term) IsConst() bool { return t != nil && (t.Op == "const" || t.Op == "nil") }
func (t *Term) IsNil() bool   { return t != nil && t.Op == "nil" }

func (t *Term) Int() (int64, bool) {
	if t == nil || t.Op != "const" || t.C == nil || t.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.C)
}
func (t *Term) Str() (string, bool) {
	if t == nil || t.Op != "const" || t.C == nil || t.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.C), true
}
func (t *Term) Bool() (bool, bool) {
	if t == nil || t.Op != "const" || t.C == nil || t.C.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.C), true
}

func (t *Term) Mentions(pred func(*Term) bool) bool {
	if pred(t) {
		return true
	}
	for _, a := range t.Args {
		if a.Mentions(pred) {
			return true
		}
	}
	return false
}

// Find returns the first sub-term satisfying pred.
func (t *Term) Find(pred func(*Term) bool) *Term {
	if pred(t) {
		return t
	}
	for _, a := range t.Args {
		if r := a.Find(pred); r != nil {
			return r
		}
	}
	return nil
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.Op {
	case "const":
		return t.Aux
	case "nil":
		return "nil"
	case "param":
		return t.Aux
	case "global":
		return "&" + t.Aux
	case "fieldaddr":
		return "&" + addrStr(t)
	case "indexaddr":
		return "&" + addrStr(t)
	case "load":
		return addrStr(t.Args[0])
	case "loopcell", "fresh", "phi":
		return t.Op + "(" + t.Aux + ")"
	case "field":
		return t.Args[0].String() + "." + t.Aux
	case "func":
		return FnName(t.Fn)
	case "closure":
		return "closure:" + FnName(t.Fn)
	case "conv":
		return typeStr(t.Typ) + "(" + t.Args[0].String() + ")"
	case "iface":
		return t.Args[0].String()
	case "alloc":
		return "new(" + t.Aux + ")"
	case "res":
		return t.Args[0].String() + "#" + t.Aux
	case "call":
		s := t.Aux
		if i := strings.IndexByte(s, '@'); i >= 0 {
			s = s[:i]
		}
		var as []string
		for _, a := range t.Args {
			as = append(as, a.String())
		}
		return s + "(" + strings.Join(as, ",") + ")"
	case "bin":
		return "(" + t.Args[0].String() + t.Aux + t.Args[1].String() + ")"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.String())
	}
	if t.Aux != "" && t.Op != "zero" {
		return t.Op + ":" + t.Aux + "(" + strings.Join(as, ",") + ")"
	}
	return t.Op + "(" + strings.Join(as, ",") + ")"
}

func addrStr(a *Term) string {
	switch a.Op {
	case "fieldaddr":
		b := a.Args[0]
		if b.Op == "fieldaddr" || b.Op == "indexaddr" || b.Op == "global" {
			return addrStr(b) + "." + a.Aux
		}
		return b.String() + "." + a.Aux
	case "indexaddr":
		b := a.Args[0]
		if b.Op == "fieldaddr" || b.Op == "indexaddr" || b.Op == "global" {
			return addrStr(b) + "[" + a.Args[1].String() + "]"
		}
		return b.String() + "[" + a.Args[1].String() + "]"
	case "global":
		return a.Aux
	}
	return "*" + a.String()
}

// Strip removes value-preserving wrappers (interface boxing, widening integer conversions).
func (t *Term) Strip() *Term {
	for {
		switch t.Op {
		case "iface":
			t = t.Args[0]
			continue
		case "conv":
			if widening(t.Args[0].Typ, t.Typ) {
				t = t.Args[0]
				continue
			}
		}
		return t
	}
}

// StripConv removes every conversion.
func (t *Term) StripConv() *Term {
	for t.Op == "iface" || t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

func typeRange(t types.Type) (lo, hi int64, ok bool) {
	if t == nil {
		return 0, 0, false
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return math.MinInt8, math.MaxInt8, true
	case types.Int16:
		return math.MinInt16, math.MaxInt16, true
	case types.Int32, types.UntypedRune:
		return math.MinInt32, math.MaxInt32, true
	case types.Int64, types.Int, types.UntypedInt:
		return math.MinInt64, math.MaxInt64, true
	case types.Uint8:
		return 0, math.MaxUint8, true
	case types.Uint16:
		return 0, math.MaxUint16, true
	case types.Uint32:
		return 0, math.MaxUint32, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 0, math.MaxInt64, true
	}
	return 0, 0, false
}

func widening(from, to types.Type) bool {
	if from == nil || to == nil {
		return false
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	if fb.Info()&types.IsInteger == 0 || tb.Info()&types.IsInteger == 0 {
		return false
	}
	u64 := func(b *types.Basic) bool {
		return b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr
	}
	if u64(fb) {
		return u64(tb)
	}
	fl, fh, _ := typeRange(fb)
	tl, th, _ := typeRange(tb)
	return tl <= fl && fh <= th
}

func (tt *TermTab) Conv(to types.Type, x *Term) *Term {
	tu := to.Underlying()
	if _, ok := tu.(*types.Interface); ok {
		return x
	}
	if x.Op == "const" && x.C != nil {
		if b, ok := tu.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0 && x.C.Kind() == constant.Int:
				if v, ok := constant.Int64Val(x.C); ok {
					lo, hi, _ := typeRange(b)
					if v >= lo && v <= hi {
						return tt.Const(x.C, to)
					}
				}
			case b.Info()&types.IsString != 0 && x.C.Kind() == constant.String:
				return tt.Const(x.C, to)
			case b.Info()&types.IsFloat != 0:
				return tt.Const(constant.ToFloat(x.C), to)
			}
		}
	}
	if x.Typ != nil && types.Identical(x.Typ.Underlying(), tu) {
		return x
	}
	// conv(T, conv(U, y)) where U widens y and T is y's type again
	if x.Op == "conv" && widening(x.Args[0].Typ, x.Typ) {
		return tt.Conv(to, x.Args[0])
	}
	return tt.mk("conv", "", to, nil, x)
}

func (tt *TermTab) Bin(op token.Token, a, b *Term, typ types.Type) *Term {
	if a.Op == "const" && b.Op == "const" && a.C != nil && b.C != nil && a.C.Kind() == b.C.Kind() {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.C.Kind() == constant.Bool {
				if op == token.EQL || op == token.NEQ {
					r := constant.BoolVal(a.C) == constant.BoolVal(b.C)
					if op == token.NEQ {
						r = !r
					}
					return tt.Const(constant.MakeBool(r), types.Typ[types.Bool])
				}
			} else {
				return tt.Const(constant.MakeBool(constant.Compare(a.C, op, b.C)), types.Typ[types.Bool])
			}
		case token.ADD, token.SUB, token.MUL:
			if a.C.Kind() == constant.Int || a.C.Kind() == constant.String && op == token.ADD {
				r := constant.BinaryOp(a.C, op, b.C)
				if r.Kind() == constant.Int {
					if v, ok := constant.Int64Val(r); ok {
						lo, hi, ok2 := typeRange(typ)
						if ok2 && v >= lo && v <= hi {
							return tt.Const(r, typ)
						}
					}
				} else {
					return tt.Const(r, typ)
				}
			}
		case token.QUO:
			if a.C.Kind() == constant.Int && constant.Sign(b.C) != 0 {
				return tt.Const(constant.BinaryOp(a.C, token.QUO_ASSIGN, b.C), typ)
			}
		case token.AND, token.OR, token.XOR:
			if a.C.Kind() == constant.Int {
				return tt.Const(constant.BinaryOp(a.C, op, b.C), typ)
			}
		case token.SHL:
			if s, ok := constant.Uint64Val(b.C); ok && s < 63 && a.C.Kind() == constant.Int {
				r := constant.Shift(a.C, token.SHL, uint(s))
				if v, ok := constant.Int64Val(r); ok {
					lo, hi, ok2 := typeRange(typ)
					if ok2 && v >= lo && v <= hi {
						return tt.Const(r, typ)
					}
				}
			}
		}
	}
	if a.Op == "nil" && b.Op == "nil" {
		switch op {
		case token.EQL:
			return tt.Const(constant.MakeBool(true), types.Typ[types.Bool])
		case token.NEQ:
			return tt.Const(constant.MakeBool(false), types.Typ[types.Bool])
		}
	}
	switch op {
	case token.LSS:
		if a == b {
			return tt.Const(constant.MakeBool(false), types.Typ[types.Bool])
		}
		if b.Op == "bin" && b.Aux == "+" && b.Args[0] == a {
			if v, ok := b.Args[1].Int(); ok {
				return tt.Const(constant.MakeBool(v > 0), types.Typ[types.Bool])
			}
		}
	case token.NEQ:
		return tt.Not(tt.Bin(token.EQL, a, b, typ))
	case token.GTR:
		return tt.Bin(token.LSS, b, a, typ)
	case token.GEQ:
		return tt.Not(tt.Bin(token.LSS, a, b, typ))
	case token.LEQ:
		return tt.Not(tt.Bin(token.LSS, b, a, typ))
	case token.EQL:
		if a == b && !isFloat(a.Typ) { // NaN differs from itself
			return tt.Const(constant.MakeBool(true), types.Typ[types.Bool])
		}
		if a.Op == "const" && a.C != nil && a.C.Kind() == constant.Bool {
			a, b = b, a
		}
		if bv, ok := b.Bool(); ok {
			if bv {
				return a
			}
			return tt.Not(a)
		}
		if a.IsConst() || (!b.IsConst() && a.ID > b.ID) {
			a, b = b, a
		}
		// comparison on a value-preserving conversion is comparison on the value
		if a.Op == "conv" && b.Op == "const" && widening(a.Args[0].Typ, a.Typ) {
			if v, ok := b.Int(); ok {
				lo, hi, ok2 := typeRange(a.Args[0].Typ)
				if ok2 && v >= lo && v <= hi {
					return tt.Bin(token.EQL, a.Args[0], tt.Const(b.C, a.Args[0].Typ), typ)
				}
			}
		}
		// s == "" is len(s) == 0
		if s, ok := b.Str(); ok && s == "" {
			return tt.Bin(token.EQL, tt.mk("len", "", types.Typ[types.Int], nil, a), tt.Const(constant.MakeInt64(0), types.Typ[types.Int]), typ)
		}
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			break // concatenation does not commute
		}
		if a.IsConst() || (!b.IsConst() && a.ID > b.ID) {
			a, b = b, a
		}
		if op == token.ADD {
			if v, ok := b.Int(); ok && v == 0 {
				return a
			}
		}
		if op == token.MUL {
			if v, ok := b.Int(); ok && v == 1 {
				return a
			}
		}
	case token.SUB, token.QUO:
		if v, ok := b.Int(); ok && ((op == token.SUB && v == 0) || (op == token.QUO && v == 1)) {
			return a
		}
	}
	return tt.mk("bin", op.String(), typ, nil, a, b)
}

func (tt *TermTab) Not(x *Term) *Term {
	if b, ok := x.Bool(); ok {
		return tt.Const(constant.MakeBool(!b), types.Typ[types.Bool])
	}
	if x.Op == "not" {
		return x.Args[0]
	}
	return tt.mk("not", "", types.Typ[types.Bool], nil, x)
}

func (tt *TermTab) Res(call *Term, i int, typ types.Type) *Term {
	if call.Op == "tuple" {
		return call.Args[i]
	}
	return tt.mk("res", strconv.Itoa(i), typ, nil, call)
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
