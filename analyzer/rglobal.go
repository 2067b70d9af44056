package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Package variables that a function which can run after initialisation
// assigns, or whose contents it changes: their values are unknown in every
// analysis. (References that are handed on are C24's to follow.)

type globalUse struct {
	what    map[*ssa.Global]string // the variable itself is assigned
	content map[*ssa.Global]string // what it refers to is changed
}

func (r *Repo) globalUses() *globalUse {
	r.usesOnce.Do(func() {
		u := &globalUse{what: map[*ssa.Global]string{}, content: map[*ssa.Global]string{}}
		fns := r.moduleFuncs()
		only := initOnly(fns)
		for _, fn := range fns {
			if only[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						t := &useTrace{u: u, g: g, fn: fn, seen: map[ssa.Value]bool{}}
						t.addr(g, i)
					}
				}
			}
		}
		r.uses = u
	})
	return r.uses
}

type useTrace struct {
	u    *globalUse
	g    *ssa.Global
	fn   *ssa.Function
	seen map[ssa.Value]bool
}

func (t *useTrace) assigned() { t.u.what[t.g] = "assigned in " + t.fn.String() }
func (t *useTrace) contents() { t.u.content[t.g] = "changed in " + t.fn.String() }
func (t *useTrace) uses(v ssa.Value, f func(ssa.Value, ssa.Instruction)) {
	if t.seen[v] || v.Referrers() == nil {
		return
	}
	t.seen[v] = true
	for _, i := range *v.Referrers() {
		f(v, i)
	}
}

// addr: i uses the address v of (a part of) the variable.
func (t *useTrace) addr(v ssa.Value, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.UnOp:
		t.uses(x, t.ref)
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.ChangeType, *ssa.Phi:
		t.uses(x.(ssa.Value), t.addr)
	case *ssa.DebugRef, *ssa.BinOp, *ssa.Range:
	case ssa.CallInstruction:
		t.call(v, x, t.addr, t.assigned)
	default:
		t.assigned()
	}
}

// ref: i uses the reference v that the variable holds.
func (t *useTrace) ref(v ssa.Value, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.MapUpdate:
		if x.Map == v {
			t.contents()
		}
	case *ssa.Store:
		if x.Addr == v {
			t.contents()
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.ChangeType, *ssa.Phi:
		t.uses(x.(ssa.Value), t.ref)
	case ssa.CallInstruction:
		t.call(v, x, t.ref, t.contents)
	}
}

func (t *useTrace) call(v ssa.Value, x ssa.CallInstruction, follow func(ssa.Value, ssa.Instruction), bad func()) {
	c := x.Common()
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic") {
			return
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear":
			bad()
		case "copy", "append":
			if c.Args[0] == v {
				bad()
			}
		}
		return
	}
	fn := c.StaticCallee()
	for k, a := range c.Args {
		if a != v {
			continue
		}
		switch {
		case fn != nil && fn.Blocks != nil && k < len(fn.Params):
			t.uses(fn.Params[k], follow)
		case fn != nil && fn.Object() != nil:
			if f, ok := fn.Object().(*types.Func); !ok || !readsOnly(f, k) {
				bad()
			}
		}
	}
}

// dirty takes the values of the variables that are changed later away.
func (in *Interp) dirty(r *Repo) {
	u := r.globalUses()
	for g, w := range u.what {
		in.gdirty[g] = w
	}
	var drop func(v Val)
	obj := func(o *Obj) {
		if o == nil || in.gdirtyObj[o] {
			return
		}
		in.gdirtyObj[o] = true
		var vs []Val
		for c, v := range in.gheap {
			if c.o == o {
				vs = append(vs, v)
				delete(in.gheap, c)
			}
		}
		for _, v := range vs {
			drop(v)
		}
	}
	drop = func(v Val) {
		switch x := v.(type) {
		case VPtr:
			obj(x.Obj)
		case VSlice:
			obj(x.Obj)
		case VMap:
			obj(x.Obj)
		case VIface:
			if x.Dyn != nil && x.Dyn != sentinelType {
				drop(x.V)
			}
		case VStruct:
			for _, f := range x.F {
				drop(f)
			}
		case *MapVal:
			for _, f := range x.V {
				drop(f)
			}
		}
	}
	for g := range u.content {
		for c, v := range in.gheap {
			if c.o.Glob == g {
				drop(v)
			}
		}
	}
}
