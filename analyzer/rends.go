package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C37: every operation ends ----------------------------------------------

// endRules are the rules of C37: the operations are those of C24, whose other
// rules are not of interest here.
var endRules = map[string]bool{
	"analysable":                      true,
	"the method exists":               true,
	"the function exists":             true,
	"a loop has a bound":              true,
	"the operation waits for nothing": true,
	"no function calls itself":        true,
}

// endProps say what operations achieve, so that they have to end.
var endProps = map[string]bool{"C07": true, "C08": true, "C09": true, "C14": true, "C34": true, "C37": true}

// endless reports the loops of the last run.
func (c *Ctx) endless(short, pos string, outs []Outcome, ok bool) {
	in := c.In
	defer func() {
		in.Endless, in.Bounded = map[string]string{}, map[string]string{}
	}()
	if !endProps[c.Prop] {
		return
	}
	for _, l := range sortedKeys(in.Bounded) {
		_, bad := in.Endless[l]
		if bad || c.Prop == "C37" {
			c.ob(!bad, "a loop has a bound", c.short(l), in.Bounded[l], "nothing limits how often the loop goes round (called by %s)", short)
		}
	}
	if c.Prop != "C37" || !ok {
		return
	}
	for _, o := range outs {
		why := ""
		for _, e := range o.St.Events() {
			switch {
			case e.Kind == "send" || e.Kind == "recv" || e.Kind == "select" && e.Block:
				why = fmt.Sprintf("%s on a channel at %s", e.Kind, in.pos(e.Pos))
			case e.Kind == "lock" && len(o.St.locks) > 0:
				why = fmt.Sprintf("a lock stays held (%s)", strings.Join(o.St.locks, ", "))
			}
		}
		c.ob(why == "", "the operation waits for nothing", short, pos, "%s [%s]", why, c.short(o.St.pathString()))
	}
}

func propC37(c *Ctx) {
	c.callCycles()
	c.operations()
	c.plainOps()
}

// plainOps: the functions and methods that take plain values.
func (c *Ctx) plainOps() {
	in := c.In
	call := func(fn *ssa.Function, args []Val, st *State) {
		c.run(fn, args, st)
	}
	if t := c.coreType("X25CRC"); t != nil {
		ms := c.R.Prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			fn := c.R.Prog.MethodValue(ms.At(i))
			if fn == nil || fn.Synthetic != "" {
				continue
			}
			in.reset()
			st := in.NewState()
			args := []Val{VPtr{Obj: in.symObj("*crc", t)}}
			call(fn, c.anyArgs(st, fn, args), st)
		}
	}
	if p := c.R.SSA[c.R.Mod+"/util"]; p != nil {
		for _, n := range []string{"TruncateV2", "CStrLen"} {
			fn := p.Func(n)
			if c.ob(fn != nil, "the function exists", "util."+n, "", "no function %s", n) {
				in.reset()
				st := in.NewState()
				call(fn, c.anyArgs(st, fn, nil), st)
			}
		}
	}
	// dialect lists of any length
	if t := c.coreType("Dialects"); t != nil {
		for _, n := range []string{"Validate", "GetMessage", "GetFrame"} {
			fn := c.R.valMethod(t, n)
			if !c.ob(fn != nil, "the method exists", "Dialects."+n, in.pos(t.Obj().Pos()), "no method %s", n) {
				continue
			}
			in.reset()
			st := in.NewState()
			args := []Val{in.symVal(st, "d", t)}
			if n == "GetFrame" {
				args = c.anyArgs(st, fn, args)
			} else {
				args = append(args, c.frame(st, 2, nil, nil, Lin{}).V)
			}
			call(fn, args, st)
		}
	}
	ms := c.messages(nil)
	c.parallel(len(ms), func(c *Ctx, i int) {
		in := c.In
		set := c.R.Prog.MethodSets.MethodSet(types.NewPointer(ms[i].T))
		for k := 0; k < set.Len(); k++ {
			fn := c.R.Prog.MethodValue(set.At(k))
			if fn == nil || fn.Synthetic != "" || fn.Name() == "Read" || fn.Name() == "Write" {
				continue
			}
			in.reset()
			st := in.NewState()
			c.run(fn, c.anyArgs(st, fn, []Val{c.receiver(ms[i], "m")}), st)
		}
	})
}

// anyArgs completes the arguments of fn by unknown values.
func (c *Ctx) anyArgs(st *State, fn *ssa.Function, args []Val) []Val {
	for i := len(args); i < len(fn.Params); i++ {
		p := fn.Params[i]
		args = append(args, c.In.symVal(st, "arg:"+p.Name(), p.Type()))
	}
	return args
}

// callCycles: no function of the module reaches itself, neither by direct
// calls nor by what package fmt calls for a value that it prints.
func (c *Ctx) callCycles() {
	fns := c.R.moduleFuncs()
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	next := map[*ssa.Function][]*ssa.Function{}
	via := map[[2]*ssa.Function]string{}
	for _, f := range fns {
		add := func(g *ssa.Function, how string) {
			if g == nil || !in[g] {
				return
			}
			k := [2]*ssa.Function{f, g}
			if _, have := via[k]; !have {
				via[k] = how
				next[f] = append(next[f], g)
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok {
						add(g, "runs")
					}
				}
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				if g := call.Common().StaticCallee(); g != nil {
					add(g, "calls")
					if g.Pkg != nil && g.Pkg.Pkg.Path() == "fmt" {
						for _, t := range printedTypes(call.Common()) {
							for _, m := range c.fmtMethods(t, nil) {
								add(m, "prints a value with")
							}
						}
					}
				}
			}
		}
	}
	// depth-first: a cycle through each function
	for _, f := range fns {
		path := cycle(f, next)
		d := ""
		for i, g := range path {
			if i > 0 {
				d += " " + via[[2]*ssa.Function{path[i-1], g}] + " "
			}
			d += c.short(g.String())
		}
		if strings.Contains(f.Synthetic, "package initializer") {
			continue
		}
		c.ob(path == nil, "no function calls itself", c.short(f.String()), c.pos(f), "%s", d)
	}
}

func cycle(f *ssa.Function, next map[*ssa.Function][]*ssa.Function) []*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	queue := []*ssa.Function{f}
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		for _, y := range next[x] {
			if y == f {
				path := []*ssa.Function{f}
				for z := x; z != f; z = from[z] {
					path = append(path, z)
				}
				path = append(path, f)
				for i, j := 0, len(path)-1; i < j; i, j = i+1, j-1 {
					path[i], path[j] = path[j], path[i]
				}
				return path
			}
			if _, seen := from[y]; !seen {
				from[y] = x
				queue = append(queue, y)
			}
		}
	}
	return nil
}

// printedTypes are the types of the values a call hands to package fmt, those
// left out that a constant format prints with a verb that calls no method.
func printedTypes(call *ssa.CallCommon) []types.Type {
	var out []types.Type
	sig := call.Signature()
	if !sig.Variadic() {
		return nil
	}
	n := len(call.Args)
	verbs := ""
	if n >= 2 {
		if k, ok := call.Args[n-2].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			verbs = formatVerbs(constant.StringVal(k.Value))
		}
	}
	s, ok := call.Args[n-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	arr, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range *arr.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if k, ok := ia.Index.(*ssa.Const); ok && verbs != "" {
			if j := int(k.Int64()); j < len(verbs) && !strings.ContainsRune("vsqxX", rune(verbs[j])) {
				continue
			}
		}
		for _, r := range *ia.Referrers() {
			if st, ok := r.(*ssa.Store); ok {
				if mi, ok := st.Val.(*ssa.MakeInterface); ok {
					out = append(out, mi.X.Type())
				}
			}
		}
	}
	return out
}

// formatVerbs lists the verbs in order; nothing if arguments are numbered or
// widths taken from arguments.
func formatVerbs(f string) string {
	out := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
		}
		if i >= len(f) || f[i] == '[' || f[i] == '*' {
			return ""
		}
		if f[i] != '%' {
			out += string(f[i])
		}
	}
	return out
}

// fmtMethods are the methods that package fmt calls to print a value of type t.
func (c *Ctx) fmtMethods(t types.Type, seen []types.Type) []*ssa.Function {
	for _, s := range seen {
		if types.Identical(s, t) {
			return nil
		}
	}
	seen = append(seen, t)
	var out []*ssa.Function
	if !types.IsInterface(t) {
		ms := c.R.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			f, ok := ms.At(i).Obj().(*types.Func)
			if !ok {
				continue
			}
			switch f.Name() {
			case "String", "Error", "Format", "GoString":
				if g := c.R.Prog.FuncValue(f); g != nil {
					out = append(out, g)
				}
			}
		}
	}
	if len(out) > 0 {
		return out
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				out = append(out, c.fmtMethods(u.Field(i).Type(), seen)...)
			}
		}
	case *types.Slice:
		out = c.fmtMethods(u.Elem(), seen)
	case *types.Array:
		out = c.fmtMethods(u.Elem(), seen)
	case *types.Map:
		out = append(c.fmtMethods(u.Key(), seen), c.fmtMethods(u.Elem(), seen)...)
	case *types.Pointer:
		if len(seen) == 1 {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				out = c.fmtMethods(u.Elem(), seen)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
