package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Viol struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	At        string   `json:"at"`
	Msg       string   `json:"msg"`
	Path      []string `json:"path,omitempty"`
}

func (v Viol) Key() string { return v.Rule + "|" + v.Construct }

// Ctx collects what one property check analysed and found.
type Ctx struct {
	W       *World
	Prop    string
	Tier    string
	viols   map[string]Viol
	order   []string
	obls    map[string]int // rule -> obligations examined
	seen    map[string]bool
	samples map[string][]string
	funcs   map[string]bool
	counts  map[string]int
	assume  []string
	start   time.Time
}

func NewCtx(w *World, prop, tier string) *Ctx {
	return &Ctx{W: w, Prop: prop, Tier: tier, viols: map[string]Viol{}, obls: map[string]int{}, seen: map[string]bool{},
		samples: map[string][]string{}, funcs: map[string]bool{}, counts: map[string]int{}, start: time.Now()}
}

// Ob registers one obligation (rule + construct). It counts once.
func (c *Ctx) Ob(rule, construct string) {
	k := rule + "|" + construct
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.obls[rule]++
	if len(c.samples[rule]) < 6 {
		c.samples[rule] = append(c.samples[rule], construct)
	}
}

func (c *Ctx) Bad(rule, construct, at, msg string, path ...string) {
	c.Ob(rule, construct)
	v := Viol{rule, construct, at, msg, path}
	if _, ok := c.viols[v.Key()]; ok {
		return
	}
	c.viols[v.Key()] = v
	c.order = append(c.order, v.Key())
}

// Check is Ob plus Bad when !ok.
func (c *Ctx) Check(ok bool, rule, construct, at, msg string, path ...string) bool {
	c.Ob(rule, construct)
	if !ok {
		c.Bad(rule, construct, at, msg, path...)
	}
	return ok
}

// Floor fails the check when fewer instances of a rule were found than were confirmed by hand.
func (c *Ctx) Floor(rule string, min int) {
	if c.obls[rule] < min {
		c.Bad("floor", rule, "-", fmt.Sprintf("rule %q matched %d instances, at least %d were confirmed by hand: the check would be vacuous", rule, c.obls[rule], min))
	}
}

func (c *Ctx) Fn(f *ssa.Function) {
	if f != nil {
		c.funcs[FnName(f)] = true
	}
}

func (c *Ctx) Use(e *Engine, root string) {
	for f := range e.Visited {
		c.Fn(f)
	}
	c.counts["abstract_states"] += e.NStates
	c.counts["paths_to_return"] += e.NPaths
	for _, u := range e.Undecided {
		c.Bad("undecided", root, "-", u)
	}
}

// Need resolves an anchor function or reports it missing.
func (c *Ctx) Need(pkg, recv, name string) *ssa.Function {
	f := c.W.Fn(pkg, recv, name)
	n := pkg + "." + name
	if recv != "" {
		n = pkg + ".(*" + recv + ")." + name
	}
	if f == nil || f.Blocks == nil {
		c.Bad("anchor", n, "-", "anchor function not found in the current source")
		return nil
	}
	c.Fn(f)
	return f
}

type knownFinding struct{ prop, key, text string }

func loadKnown(path string) ([]knownFinding, error) {
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var r []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=ID key=<rule|construct> :: text
		l = strings.TrimPrefix(l, "finding: ")
		parts := strings.SplitN(l, " :: ", 2)
		if len(parts) != 2 {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		h := parts[0]
		i := strings.Index(h, " key=")
		if !strings.HasPrefix(h, "property=") || i < 0 {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		r = append(r, knownFinding{h[len("property="):i], h[i+5:], parts[1]})
	}
	return r, sc.Err()
}

func (c *Ctx) Finish(verif, explanation string, seed int) int {
	known, err := loadKnown(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		c.Bad("known-findings", "file", "-", err.Error())
	}
	var fresh []Viol
	for _, k := range c.order {
		v := c.viols[k]
		matched := false
		for _, kf := range known {
			if kf.prop == c.Prop && kf.key == v.Key() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, kf.text)
				matched = true
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	total := 0
	rules := map[string]int{}
	for r, n := range c.obls {
		total += n
		rules[r] = n
	}
	fns := make([]string, 0, len(c.funcs))
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var samples []string
	rk := make([]string, 0, len(c.samples))
	for r := range c.samples {
		rk = append(rk, r)
	}
	sort.Strings(rk)
	for _, r := range rk {
		for _, s := range c.samples[r] {
			samples = append(samples, r+": "+s)
		}
	}
	if len(samples) > 60 {
		samples = samples[:60]
	}
	cov := map[string]any{
		"explanation":         explanation,
		"obligations":         total,
		"discharged":          total - len(c.viols),
		"rules":               rules,
		"functions_analysed":  len(fns),
		"functions":           fns,
		"samples":             samples,
		"repository_packages": len(c.W.Pkgs),
	}
	for k, n := range c.counts {
		cov[k] = n
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(fresh),
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0755)
	rep := filepath.Join(evdir, c.Prop+".violations.json")
	os.Remove(rep)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, c.Prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("property %s: %d obligations over %d functions, %d violations\n", c.Prop, total, len(fns), len(fresh))
	if len(fresh) == 0 {
		return 0
	}
	vb, _ := json.MarshalIndent(fresh, "", " ")
	os.WriteFile(rep, append(vb, '\n'), 0644)
	for _, v := range fresh {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, rep)
		fmt.Printf("  %s [%s] %s: %s\n", v.At, v.Rule, v.Construct, v.Msg)
		p := v.Path
		if len(p) > 14 {
			p = append([]string{"..."}, p[len(p)-14:]...)
		}
		for _, l := range p {
			fmt.Printf("      %s\n", l)
		}
	}
	return 1
}
