package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// lenOfTerm builds len(base) in the table a term belongs to.
var lenOfTerm func(like, base *Term) *Term

// poly is a polynomial over terms: monomial (sorted term ids) -> coefficient.
type poly map[string]int64

func polyConst(v int64) poly {
	if v == 0 {
		return poly{}
	}
	return poly{"": v}
}

func (p poly) add(q poly, k int64) poly {
	r := poly{}
	for m, c := range p {
		r[m] = c
	}
	for m, c := range q {
		r[m] += c * k
		if r[m] == 0 {
			delete(r, m)
		}
	}
	return r
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for m, c := range p {
		for n, d := range q {
			var l []string
			if m != "" {
				l = append(l, strings.Split(m, "*")...)
			}
			if n != "" {
				l = append(l, strings.Split(n, "*")...)
			}
			sort.Strings(l)
			k := strings.Join(l, "*")
			r[k] += c * d
			if r[k] == 0 {
				delete(r, k)
			}
		}
	}
	return r
}

func (p poly) zero() bool { return len(p) == 0 }

func (p poly) eq(q poly) bool { return p.add(q, -1).zero() }

func (p poly) String() string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []string
	for _, k := range ks {
		r = append(r, fmt.Sprintf("%d·%s", p[k], k))
	}
	return strings.Join(r, "+")
}

// subst maps terms to polynomials while normalising.
type subst map[*Term]poly

// toPoly normalises an integer term; a%b is a-(a/b)*b.
func toPoly(t *Term, sub subst) poly {
	if sub != nil {
		if p, ok := sub[t]; ok {
			return p
		}
	}
	if v, ok := t.Int(); ok {
		return polyConst(v)
	}
	switch t.Op {
	case "conv":
		if isIntTerm(t.Args[0]) {
			return toPoly(t.Args[0], sub)
		}
	case "iface":
		return toPoly(t.Args[0], sub)
	case "len":
		if x := t.Args[0]; x.Op == "slice" && len(x.Args) >= 3 && x.Args[2].Op != "none" {
			hi := toPoly(x.Args[2], sub)
			if x.Args[1].Op != "none" {
				hi = hi.add(toPoly(x.Args[1], sub), -1)
			}
			return hi
		} else if x.Op == "slice" && len(x.Args) >= 3 && x.Args[0].Typ != nil {
			if _, ok := x.Args[0].Typ.Underlying().(*types.Pointer); !ok && lenOfTerm != nil {
				hi := toPoly(lenOfTerm(t, x.Args[0]), sub)
				if x.Args[1].Op != "none" {
					hi = hi.add(toPoly(x.Args[1], sub), -1)
				}
				return hi
			}
		}
	case "bin":
		switch t.Aux {
		case "+":
			return toPoly(t.Args[0], sub).add(toPoly(t.Args[1], sub), 1)
		case "-":
			return toPoly(t.Args[0], sub).add(toPoly(t.Args[1], sub), -1)
		case "*":
			return toPoly(t.Args[0], sub).mul(toPoly(t.Args[1], sub))
		case "/":
			return poly{quoAtom(t.Args[0], t.Args[1], sub): 1}
		case "%":
			a, b := toPoly(t.Args[0], sub), toPoly(t.Args[1], sub)
			q := poly{quoAtom(t.Args[0], t.Args[1], sub): 1}
			return a.add(q.mul(b), -1)
		}
	}
	return poly{fmt.Sprintf("t%d", t.ID): 1}
}

func quoAtom(a, b *Term, sub subst) string {
	return "q(" + strings.ReplaceAll(toPoly(a, sub).String(), "*", ".") + "/" + strings.ReplaceAll(toPoly(b, sub).String(), "*", ".") + ")"
}

func isIntTerm(t *Term) bool {
	_, _, ok := typeRange(t.Typ)
	return ok
}
