package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
)

type propDef struct {
	id, explain string
	run         func(c *Ctx)
}

var props = map[string]propDef{}

func register(id, explain string, run func(c *Ctx)) { props[id] = propDef{id, explain, run} }

func main() {
	prop := flag.String("prop", "", "property id, or all")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verif directory")
	flag.BoolVar(&listNames, "names", false, "print the unexported names of the repository")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	abs, _ := filepath.Abs(*repo)
	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	w, err := loadWorld(abs)
	rc := 0
	for _, id := range ids {
		if r := one(w, err, id, *tier, *verif, seed); r > rc {
			rc = r
		}
	}
	os.Exit(rc)
}

func one(w *World, loadErr error, id, tier, verif string, seed int) (rc int) {
	pd, ok := props[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	if loadErr != nil {
		w = &World{Repo: "/repo"}
		c := NewCtx(w, id, tier)
		c.Bad("load", "repository", "-", loadErr.Error())
		return c.Finish(verif, pd.explain, seed)
	}
	c := NewCtx(w, id, tier)
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Bad("checker-panic", id, "-", fmt.Sprintf("%v", r))
				fmt.Fprintln(os.Stderr, r, string(debug.Stack()))
			}
		}()
		pd.run(c)
	}()
	return c.Finish(verif, pd.explain, seed)
}
