package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initialise evaluates the package initialisers of the repository abstractly
// and keeps the resulting contents of the globals.
func (in *Interp) initialise(r *Repo) {
	in.reset()
	in.initMode = true
	var order []*ssa.Package
	seen := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] {
			return
		}
		seen[p.Path()] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		if sp := r.SSA[p.Path()]; sp != nil && in.inRepo(sp) {
			order = append(order, sp)
		}
	}
	for _, p := range r.Pkgs {
		if p.Types != nil {
			visit(p.Types)
		}
	}
	st := in.NewState()
	for _, p := range order {
		f := p.Func("init")
		if f == nil {
			continue
		}
		in.Opaque = func(fn *ssa.Function, ps *PS, args []Val) (string, bool) {
			return "", false
		}
		if g, ok := p.Members["init$guard"].(*ssa.Global); ok {
			st.heap[cell{in.globalObj(g), ""}] = VBool{CFalse()}
		}
		for _, b := range f.Blocks {
			_ = b
		}
		outs := in.Call(f, nil, nil, st, nil, nil)
		var ok []Outcome
		for _, o := range outs {
			if !o.Panic {
				ok = append(ok, o)
			}
		}
		if len(ok) != 1 {
			in.undecided(nil, f.Pos(), fmt.Sprintf("package initialiser of %s has %d outcomes", p.Pkg.Path(), len(outs)))
			if len(ok) == 0 {
				continue
			}
		}
		st = ok[0].St
	}
	// errors are known by the global that holds them
	rename := map[string]Val{}
	for c, v := range st.heap {
		if c.o.Kind == OGlobal && c.path == "" {
			if i, ok := v.(VIface); ok && i.Dyn == sentinelType {
				k := valKey(i)
				n := errVal(c.o.Name)
				if old, ok := rename[k]; !ok || valKey(old) > valKey(n) {
					rename[k] = n
				}
			}
		}
	}
	var sub func(v Val) Val
	sub = func(v Val) Val {
		switch x := v.(type) {
		case VIface:
			if x.Dyn == sentinelType {
				if n, ok := rename[valKey(x)]; ok {
					y := n.(VIface)
					y.Typ = x.Typ
					return y
				}
			}
		case VStruct:
			n := VStruct{x.T, append([]Val(nil), x.F...)}
			for i := range n.F {
				n.F[i] = sub(n.F[i])
			}
			return n
		case *MapVal:
			n := *x
			n.V = append([]Val(nil), x.V...)
			for i := range n.V {
				n.V[i] = sub(n.V[i])
			}
			return &n
		}
		return v
	}
	for c, v := range st.heap {
		in.gheap[c] = sub(v)
		if c.o.Kind == OAlloc {
			c.o.Kind = OGlobal
			if !strings.HasPrefix(c.o.Name, "init:") {
				c.o.Name = "init:" + c.o.Name
			}
		}
	}
	for k, v := range in.Undecided {
		in.InitUndecided = append(in.InitUndecided, k+" at "+v)
	}
	sort.Strings(in.InitUndecided)
	in.dirty(r)
	in.InitEvents = st.Events()
	in.initMode = false
	in.reset()
}
