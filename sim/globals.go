package sim

import "sort"

// Package level variables of instrumented modules are registered here by
// generated code, so that each simulated process has its own.
type globalVar struct {
	get  func() any
	set  func(any)
	init func()
}

type pkgGlobals struct {
	module string
	order  int
	vars   []globalVar
	reinit func()
	fresh  []any
}

var globalPkgs = map[string]*pkgGlobals{}
var globalOrder []string

// Var builds a registration entry for one variable.
func Var[T any](p *T) globalVar {
	return globalVar{
		get: func() any { return *p },
		set: func(v any) {
			if v == nil {
				var z T
				*p = z
				return
			}
			*p = v.(T)
		},
	}
}

// RegisterGlobals is called from the generated init of every instrumented
// package. reinit evaluates the initialisers again (in order).
func RegisterGlobals(module, pkg string, reinit func(), vars ...globalVar) {
	globalPkgs[pkg] = &pkgGlobals{module: module, vars: vars, reinit: reinit, order: len(globalOrder)}
	globalOrder = append(globalOrder, pkg)
}

func resetGlobals() {
	lastModule = map[string]*Node{}
	reinitAll("")
}

var lastModule = map[string]*Node{}

var reiniting bool

// reinitAll gives the packages of one module (or all) their initial values, in
// the order in which the Go runtime initialised the packages.
func reinitAll(module string) {
	reiniting = true
	defer func() { reiniting = false }()
	for _, p := range globalOrder {
		g := globalPkgs[p]
		if module == "" || g.module == module || g.module == "common" {
			g.reinit()
		}
	}
}

func pkgsOf(module string) []string {
	var r []string
	for _, p := range globalOrder {
		if g := globalPkgs[p]; g.module == module || g.module == "common" {
			r = append(r, p)
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return globalPkgs[r[i]].order < globalPkgs[r[j]].order })
	return r
}

// One set of package variables is loaded at a time. loadedNode owns it.
var loadedNode *Node

func (s *Sim) switchTo(t *Task) {
	n := t.Node
	if n == nil || n == loadedNode && n.Sim == s {
		return
	}
	if loadedNode != nil && loadedNode.Sim == s && !loadedNode.Dead {
		old := loadedNode
		for _, p := range pkgsOf(old.Module) {
			g := globalPkgs[p]
			vals := old.globals[p]
			if vals == nil {
				vals = make([]any, len(g.vars))
				old.globals[p] = vals
			}
			for i := range g.vars {
				vals[i] = g.vars[i].get()
			}
		}
	}
	loadedNode = n
	if len(n.globals) == 0 {
		n.globals[""] = []any{}
		reinitAll(n.Module)
		return
	}
	for _, p := range pkgsOf(n.Module) {
		g := globalPkgs[p]
		vals := n.globals[p]
		if vals == nil {
			continue
		}
		for i := range g.vars {
			g.vars[i].set(vals[i])
		}
	}
}

// Zero resets *p.
func Zero[T any](p *T) {
	var z T
	*p = z
}
