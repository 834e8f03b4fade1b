package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Unexported names are no behaviour: a renamed variable, field, function or type of the
// repository is given its known name again before anything is analysed, by an overlay of
// the sources that keeps every line. names.json lists the names known.

//go:embed names.json
var namesJSON []byte

// nameTable: scope -> name -> kind and type, in order of declaration.
type nameTable map[string][][2]string

// unexportedNames lists what a package declares that only its own code can name.
func unexportedNames(p *packages.Package, out nameTable, objs map[string]types.Object) {
	q := func(o *types.Package) string { return o.Name() }
	path := strings.TrimPrefix(p.PkgPath, modPath)
	add := func(scope, kind string, o types.Object, t string) {
		if o.Exported() || o.Name() == "_" || o.Name() == "init" || o.Name() == "main" {
			return
		}
		out[scope] = append(out[scope], [2]string{o.Name(), kind + " " + t})
		objs[scope+"\x00"+o.Name()] = o
	}
	var all []types.Object
	for _, n := range p.Types.Scope().Names() {
		all = append(all, p.Types.Scope().Lookup(n))
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Pos() < all[j].Pos() })
	for _, o := range all {
		switch x := o.(type) {
		case *types.Var:
			add(path, "var", o, types.TypeString(x.Type(), q))
		case *types.Func:
			add(path, "func", o, types.TypeString(x.Type(), q))
		case *types.TypeName:
			if x.IsAlias() {
				continue
			}
			add(path, "type", o, shape(x.Type().Underlying(), q))
			if n, ok := x.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					add(path+"."+o.Name(), "func", n.Method(i), types.TypeString(n.Method(i).Type(), q))
				}
				if st, ok := n.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if f := st.Field(i); !f.Embedded() {
							add(path+"."+o.Name(), "field", f, types.TypeString(f.Type(), q))
						}
					}
				}
			}
		}
	}
}

// shape describes a type without the names of unexported fields.
func shape(t types.Type, q types.Qualifier) string {
	if st, ok := t.(*types.Struct); ok {
		s := "struct"
		for i := 0; i < st.NumFields(); i++ {
			n := "_"
			if st.Field(i).Exported() {
				n = st.Field(i).Name()
			}
			s += " " + n + " " + types.TypeString(st.Field(i).Type(), q)
		}
		return s
	}
	return types.TypeString(t, q)
}

func writeNames(pkgs []*packages.Package) {
	t := nameTable{}
	for _, p := range pkgs {
		unexportedNames(p, t, map[string]types.Object{})
	}
	b, _ := json.MarshalIndent(t, "", " ")
	os.Stdout.Write(append(b, '\n'))
}

// renamed finds the objects that carry a new name, with the name known for them.
func renamed(pkgs []*packages.Package) map[types.Object]string {
	known := nameTable{}
	if err := json.Unmarshal(namesJSON, &known); err != nil {
		panic(err)
	}
	r := map[types.Object]string{}
	now := nameTable{}
	objs := map[string]types.Object{}
	for _, p := range pkgs {
		unexportedNames(p, now, objs)
	}
	typeNames := map[string]string{} // new name -> known name, as in type strings
	match := func(scope, nowScope string) {
		has := func(l [][2]string, n string) bool {
			for _, e := range l {
				if e[0] == n {
					return true
				}
			}
			return false
		}
		missing, extra := map[string][]string{}, map[string][]string{}
		for _, e := range known[scope] {
			if !has(now[nowScope], e[0]) {
				missing[e[1]] = append(missing[e[1]], e[0])
			}
		}
		for _, e := range now[nowScope] {
			if !has(known[scope], e[0]) {
				t := e[1]
				for a, b := range typeNames {
					t = replaceWord(t, a, b)
				}
				extra[t] = append(extra[t], e[0])
			}
		}
		for t, m := range missing {
			if x := extra[t]; len(x) == len(m) {
				for i := range m {
					o := objs[nowScope+"\x00"+x[i]]
					r[o] = m[i]
					if tn, ok := o.(*types.TypeName); ok {
						typeNames[tn.Pkg().Name()+"."+x[i]] = tn.Pkg().Name() + "." + m[i]
					}
				}
			}
		}
	}
	scopes := make([]string, 0, len(known))
	for s := range known {
		scopes = append(scopes, s)
	}
	sort.Strings(scopes)
	for pass := 0; pass < 2; pass++ { // types first: other types mention them
		for _, s := range scopes {
			match(s, s)
		}
	}
	for o, n := range r {
		if tn, ok := o.(*types.TypeName); ok {
			path := strings.TrimPrefix(tn.Pkg().Path(), modPath)
			match(path+"."+n, path+"."+tn.Name())
		}
	}
	return r
}

func replaceWord(s, a, b string) string {
	var out strings.Builder
	for {
		i := strings.Index(s, a)
		if i < 0 {
			out.WriteString(s)
			return out.String()
		}
		j := i + len(a)
		out.WriteString(s[:i])
		if j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
			out.WriteString(a)
		} else {
			out.WriteString(b)
		}
		s = s[j:]
	}
}

// knownNames is the overlay that gives renamed objects their known names, nil when there are none.
func knownNames(pkgs []*packages.Package) map[string][]byte {
	r := renamed(pkgs)
	if len(r) == 0 {
		return nil
	}
	type edit struct {
		off, n int
		s      string
	}
	edits := map[string][]edit{}
	for _, p := range pkgs {
		note := func(id *ast.Ident, o types.Object) {
			if v, ok := o.(*types.Var); ok {
				o = v.Origin()
			}
			if f, ok := o.(*types.Func); ok {
				o = f.Origin()
			}
			if s, ok := r[o]; ok && id.Name == o.Name() {
				pos := p.Fset.PositionFor(id.Pos(), false)
				edits[pos.Filename] = append(edits[pos.Filename], edit{pos.Offset, len(id.Name), s})
			}
		}
		for id, o := range p.TypesInfo.Defs {
			if o != nil {
				note(id, o)
			}
		}
		for id, o := range p.TypesInfo.Uses {
			note(id, o)
		}
	}
	over := map[string][]byte{}
	for f, es := range edits {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil
		}
		sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
		s := string(b)
		last := -1
		for _, e := range es {
			if e.off == last {
				continue
			}
			last = e.off
			if e.off+e.n > len(s) {
				return nil
			}
			s = s[:e.off] + e.s + s[e.off+e.n:]
		}
		over[f] = []byte(s)
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		for o, n := range r {
			fmt.Fprintln(os.Stderr, "renamed:", o.Name(), "->", n)
		}
	}
	return over
}
