package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *Repo) fn(pkg, recv, name string) *ssa.Function {
	p := r.SSA[pkg]
	if p == nil {
		return nil
	}
	if recv == "" {
		return p.Func(name)
	}
	t := p.Type(strings.TrimPrefix(recv, "*"))
	if t == nil {
		return nil
	}
	ty := t.Type()
	if strings.HasPrefix(recv, "*") {
		return r.Prog.LookupMethod(newPtr(ty), p.Pkg, name)
	}
	return r.Prog.LookupMethod(ty, p.Pkg, name)
}

func debugCall(r *Repo, in *Interp, a []string) {
	if len(a) < 3 {
		return
	}
	pkg := r.Mod
	if a[0] != "." {
		pkg += "/" + a[0]
	}
	f := r.fn(pkg, a[1], a[2])
	if f == nil {
		fmt.Println("no such function")
		return
	}
	st := in.NewState()
	var args []Val
	for _, p := range f.Params {
		args = append(args, in.symVal(st, p.Name(), p.Type()))
	}
	outs := in.Call(f, args, nil, st, nil, nil)
	fmt.Println(len(outs), "outcomes, steps", in.steps)
	for i, o := range outs {
		if i > 12 {
			break
		}
		fmt.Println("---", i, "panic", o.Panic)
		if o.St.panicV != nil {
			fmt.Println("   ", o.St.panicV.Msg, in.pos(o.St.panicV.Pos))
		}
		o.St.dump()
		for _, v := range o.Rets {
			fmt.Println("    ret", valString(o.St.resolve(v)))
			if s, ok := v.(VSlice); ok && s.Obj != nil && isByte(s.Elem) {
				fmt.Println("      ", o.St.sliceBytes(s))
			}
		}
		for c, v := range o.St.heap {
			if c.o.Kind == OSym {
				fmt.Println("    mem", c.o.Name+c.path, "=", valString(v))
			}
		}
		for _, e := range o.St.Events() {
			if e.Kind != "load" {
				fmt.Println("    ev", e.Kind, e.Name, in.pos(e.Pos), e.Path)
			}
		}
	}
	for k, v := range in.Undecided {
		fmt.Println("undecided", k, v)
	}
}

func (st *State) dump() {
	for a, v := range st.lo {
		fmt.Println("    ", a.Key, ">=", v)
	}
	for a, v := range st.hi {
		fmt.Println("    ", a.Key, "<=", v)
	}
	for _, f := range st.facts {
		fmt.Println("    ", f, ">= 0")
	}
	for _, f := range st.nes {
		fmt.Println("    ", f, "!= 0")
	}
	for _, f := range st.ranges {
		fmt.Println("    ", f.Seq.Key, f.Lo, f.Hi, f.Eq, f.V)
	}
	for k, f := range st.ifs {
		fmt.Println("    ", k, "known", valString(f.known), sortedKeys(f.ne), sortedKeys(f.notDyn))
	}
}
