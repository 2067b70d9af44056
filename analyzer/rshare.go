package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Shared state (C24).
//
// 1. The whole module: no function that can run after initialisation writes
// memory that is reached from a package variable (flow-insensitive taint).
// 2. Every decoding, encoding, lookup, validation and building operation is
// interpreted: which memory that existed before does it write, and what does
// its result refer to.

// ---- package variables ---------------------------------------------------------

type taint struct {
	c       *Ctx
	fns     []*ssa.Function
	initFn  map[*ssa.Function]bool // runs only during initialisation
	val     map[ssa.Value]bool
	alloc   map[ssa.Value]bool // memory that holds references to tainted memory
	field   map[string]bool
	res     map[*ssa.Function]bool
	taken   map[string][]*ssa.Function // address-taken functions by signature
	changed bool
}

// hasRef: values of the type refer to memory that can be written through them.
func hasRef(t types.Type) bool {
	seen := map[types.Type]bool{}
	var f func(t types.Type) bool
	f = func(t types.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
			return true
		case *types.Array:
			return f(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if f(u.Field(i).Type()) {
					return true
				}
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				if f(u.At(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	return f(t)
}

func isInit(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

func (r *Repo) moduleFuncs() []*ssa.Function {
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(r.Prog) {
		p := fn.Package()
		if p == nil && fn.Parent() != nil {
			p = fn.Parent().Package()
		}
		if p == nil || fn.Blocks == nil || fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "package initializer") {
			continue
		}
		if p.Pkg.Path() == r.Mod || strings.HasPrefix(p.Pkg.Path(), r.Mod+"/") {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool {
		if fns[i].String() != fns[j].String() {
			return fns[i].String() < fns[j].String()
		}
		return fns[i].Pos() < fns[j].Pos()
	})
	return fns
}

// initOnly finds the functions that can run only during initialisation.
func initOnly(fns []*ssa.Function) map[*ssa.Function]bool {
	users := map[*ssa.Function]map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, _ := i.(ssa.CallInstruction)
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if call != nil && call.Common().StaticCallee() == g && op == &call.Common().Value {
						if users[g] == nil {
							users[g] = map[*ssa.Function]bool{}
						}
						users[g][fn] = true
						continue
					}
					if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == g {
						// a function literal that is only called where it is made
						only := true
						for _, u := range *mc.Referrers() {
							if ci, ok := u.(ssa.CallInstruction); !ok || ci.Common().Value != mc {
								only = false
							}
						}
						if only {
							if users[g] == nil {
								users[g] = map[*ssa.Function]bool{}
							}
							users[g][fn] = true
							continue
						}
					}
					taken[g] = true
				}
			}
		}
	}
	in := map[*ssa.Function]bool{}
	for _, fn := range fns {
		in[fn] = isInit(fn) || !taken[fn] && len(users[fn]) > 0 && fn.Signature.Recv() == nil && (fn.Parent() != nil || !token.IsExported(fn.Name()))
	}
	for again := true; again; {
		again = false
		for _, fn := range fns {
			if !in[fn] || isInit(fn) {
				continue
			}
			for u := range users[fn] {
				if !in[u] {
					in[fn] = false
					again = true
					break
				}
			}
		}
	}
	return in
}

func (t *taint) set(v ssa.Value) {
	if v != nil && !t.val[v] && hasRef(v.Type()) {
		t.val[v] = true
		t.changed = true
	}
}

// is: v refers to memory reached from a package variable.
func (t *taint) is(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return t.own(g)
	}
	return t.val[v]
}

// own: a package variable of a library package of the module.
func (t *taint) own(g *ssa.Global) bool {
	p := g.Pkg.Pkg
	return p.Name() != "main" && (p.Path() == t.c.R.Mod || strings.HasPrefix(p.Path(), t.c.R.Mod+"/"))
}

func (t *taint) setField(k string) {
	if !t.field[k] {
		t.field[k] = true
		t.changed = true
	}
}

// base follows an address to where it comes from; fields are the struct
// fields on the way.
func base(v ssa.Value) (b ssa.Value, fields []string) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			fields = append(fields, fmt.Sprintf("%s.%d", deref(x.X.Type()), x.Field))
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v, fields
		}
	}
}

// holder notes that tainted references are stored at address a.
func (t *taint) holder(a ssa.Value) {
	b, fs := base(a)
	for _, f := range fs {
		t.setField(f)
	}
	if len(fs) == 0 && !t.alloc[b] {
		t.alloc[b] = true
		t.changed = true
	}
}

func (t *taint) holds(a ssa.Value) bool {
	b, fs := base(a)
	for _, f := range fs {
		if t.field[f] {
			return true
		}
	}
	return t.alloc[b]
}

var readOnlyPkgs = map[string]bool{"errors": true, "strings": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "strconv": true, "sort": false}

// readsOnly: the library function does not write through its arguments.
func readsOnly(fn *types.Func, arg int) bool {
	sig := fn.Type().(*types.Signature)
	p := ""
	if fn.Pkg() != nil {
		p = fn.Pkg().Path()
	}
	n := fn.Name()
	switch p {
	case "bytes":
		if sig.Recv() != nil {
			return arg > 0 || n == "Bytes" || n == "Len" || n == "Cap" || n == "String"
		}
		return n != "NewBuffer"
	case "fmt":
		if strings.HasPrefix(n, "F") {
			return arg > 0
		}
		return !strings.Contains(n, "can")
	case "encoding/binary":
		if n == "Write" {
			return arg > 0
		}
		return !strings.HasPrefix(n, "Put") && n != "Read" && n != "Decode"
	case "sync":
		return n == "Lock" || n == "Unlock" || n == "RLock" || n == "RUnlock"
	case "sync/atomic":
		return strings.HasPrefix(n, "Load")
	case "io":
		return n == "WriteString" && arg > 0
	case "sort":
		return strings.HasPrefix(n, "Search")
	}
	return readOnlyPkgs[p]
}

func (c *Ctx) globalRules() {
	t := &taint{c: c, val: map[ssa.Value]bool{}, alloc: map[ssa.Value]bool{}, field: map[string]bool{}, res: map[*ssa.Function]bool{}, taken: map[string][]*ssa.Function{}}
	t.fns = c.R.moduleFuncs()
	t.initFn = initOnly(t.fns)
	for _, fn := range t.fns {
		t.taken[sigKey(fn.Signature)] = append(t.taken[sigKey(fn.Signature)], fn)
	}
	for t.changed = true; t.changed; {
		t.changed = false
		for _, fn := range t.fns {
			t.flow(fn)
		}
	}
	// the verdicts
	nf := 0
	for _, fn := range t.fns {
		if t.initFn[fn] {
			continue
		}
		nf++
		bad := 0
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if what := t.writes(i); what != "" {
					bad++
					c.ob(false, "package variables do not change after initialisation", c.short(fn.String()), c.In.pos(i.Pos()), "%s", what)
				}
			}
		}
		if bad == 0 {
			c.ob(true, "package variables do not change after initialisation", c.short(fn.String()), c.pos(fn), "")
		}
	}
	c.note("functions scanned for writes to package variables", nf)
	c.note("values that refer to package variables", len(t.val))
}

func sigKey(s *types.Signature) string {
	var b strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(s.Params().At(i).Type().String() + ",")
	}
	b.WriteString(")")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(s.Results().At(i).Type().String() + ",")
	}
	return b.String()
}

// callees: the functions of the module a call can reach; ext: a library
// function.
func (t *taint) callees(cc *ssa.CallCommon) (own []*ssa.Function, ext *types.Func) {
	if cc.IsInvoke() {
		for _, f := range t.taken[sigKey(cc.Signature())] {
			if f.Signature.Recv() != nil && f.Name() == cc.Method.Name() {
				own = append(own, f)
			}
		}
		return own, cc.Method
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Blocks != nil && f.Package() != nil && t.c.In.inRepo(f.Package()) || f.Parent() != nil {
			return []*ssa.Function{f}, nil
		}
		o, _ := f.Object().(*types.Func)
		return nil, o
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, nil
	}
	for _, f := range t.taken[sigKey(cc.Signature())] {
		if f.Signature.Recv() == nil {
			own = append(own, f)
		}
	}
	return own, nil
}

func (t *taint) flow(fn *ssa.Function) {
	init := t.initFn[fn]
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok {
				f := mc.Fn.(*ssa.Function)
				for k, v := range mc.Bindings {
					// what a function made during initialisation refers to is
					// shared by its calls
					if t.is(v) || init && !t.initFn[f] {
						t.set(f.FreeVars[k])
					}
				}
				continue
			}
			if init {
				continue
			}
			switch x := i.(type) {
			case *ssa.FieldAddr:
				if t.is(x.X) {
					t.set(x)
				}
			case *ssa.IndexAddr:
				if t.is(x.X) {
					t.set(x)
				}
			case *ssa.Slice:
				if t.is(x.X) {
					t.set(x)
				}
			case *ssa.ChangeType:
				if t.is(x.X) {
					t.set(x)
				}
			case *ssa.Convert:
				if t.is(x.X) {
					t.set(x)
				}
			case *ssa.ChangeInterface:
				if t.is(x.X) {
					t.set(x)
				}
			case *ssa.MakeInterface:
				if t.is(x.X) {
					t.set(x)
				}
			case *ssa.TypeAssert:
				if t.is(x.X) {
					t.set(x)
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					if t.is(e) {
						t.set(x)
					}
				}
			case *ssa.Extract:
				if t.is(x.Tuple) {
					t.set(x)
				}
			case *ssa.Field:
				if t.is(x.X) {
					t.set(x)
				}
			case *ssa.Index:
				if t.is(x.X) {
					t.set(x)
				}
			case *ssa.Lookup:
				if t.is(x.X) || t.holds(x.X) {
					t.set(x)
				}
			case *ssa.Range:
				if t.is(x.X) {
					t.val[x] = true
				}
			case *ssa.Next:
				if t.val[x.Iter] {
					t.set(x)
				}
			case *ssa.UnOp:
				if (x.Op == token.MUL || x.Op == token.ARROW) && (t.is(x.X) || t.holds(x.X)) {
					t.set(x)
				}
			case *ssa.Store:
				if t.is(x.Val) && !t.is(x.Addr) {
					t.holder(x.Addr)
				}
			case *ssa.MapUpdate:
				if t.is(x.Value) || t.is(x.Key) {
					t.holder(x.Map)
				}
			case *ssa.Send:
				if t.is(x.X) {
					t.holder(x.Chan)
				}
			case *ssa.Return:
				for _, r := range x.Results {
					if t.is(r) && !t.res[fn] {
						t.res[fn] = true
						t.changed = true
					}
				}
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				cc := ci.Common()
				own, _ := t.callees(cc)
				for _, f := range own {
					if t.initFn[f] {
						continue
					}
					ps := f.Params
					if cc.IsInvoke() {
						if t.is(cc.Value) {
							t.set(ps[0])
						}
						ps = ps[1:]
					}
					for k, a := range cc.Args {
						if k < len(ps) && t.is(a) {
							t.set(ps[k])
						}
					}
					if v := ci.Value(); v != nil && t.res[f] {
						t.set(v)
					}
				}
				if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(cc.Args) > 0 && t.is(cc.Args[0]) {
					if v := ci.Value(); v != nil {
						t.set(v)
					}
				}
			}
		}
	}
}

func (t *taint) writes(i ssa.Instruction) string {
	switch x := i.(type) {
	case *ssa.Store:
		if t.is(x.Addr) {
			return "memory of a package variable is written"
		}
	case *ssa.MapUpdate:
		if t.is(x.Map) {
			return "a table of a package variable is changed"
		}
	case *ssa.Send:
		if t.is(x.Chan) {
			return "a channel of a package variable is sent to"
		}
	}
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	cc := ci.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy", "clear", "delete", "append", "close":
			if len(cc.Args) > 0 && t.is(cc.Args[0]) {
				return "memory of a package variable is written by " + bi.Name()
			}
		}
		return ""
	}
	own, ext := t.callees(cc)
	if ext == nil || cc.IsInvoke() && len(own) > 0 {
		return ""
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for k, a := range args {
		if t.is(a) && !readsOnly(ext, k) {
			return "memory of a package variable is handed to " + ext.FullName()
		}
	}
	return ""
}

// ---- operations -------------------------------------------------------------------

// shareRules: what an operation writes and what its results refer to. may are
// the objects it may write; fi the frame that must stay.
func (c *Ctx) effects(where, pos string, outs []Outcome, may *Obj, keep *Obj, mem Val, results bool) {
	for _, o := range outs {
		s := o.St
		bad := ""
		at := pos
		for _, e := range s.Events() {
			switch e.Kind {
			case "store", "mapupdate", "mapdelete":
				if e.Obj != nil && e.Obj.Seen() && e.Obj != may {
					bad, at = fmt.Sprintf("%s%s is written", e.Obj.Name, e.Path), c.In.pos(e.Pos)
				}
			case "go", "send", "close":
				bad, at = "a "+e.Kind+" is shared state", c.In.pos(e.Pos)
			}
		}
		c.ob(bad == "", "only the operation's own memory is written", where, at, "%s [%s]", bad, c.short(s.pathString()))
		if keep != nil {
			v, ok := s.heap[cell{keep, ""}]
			c.ob(!ok || valKey(v) == valKey(mem), "the frame's bytes stay", where, pos, "they become %s", valString(v))
			if may != nil {
				ref := ""
				for k, v := range s.heap {
					if k.o == may && mentions(v, keep) {
						ref = k.path
					}
				}
				c.ob(ref == "", "a decoded message does not refer to the frame", where, pos, "%s refers to the frame's memory", ref)
			}
		}
		if results {
			for k, v := range o.Rets {
				bad := sharedRef(s, v, map[*Obj]bool{})
				c.ob(bad == "", "results are memory of their own", where+fmt.Sprintf(" result %d", k), pos, "the result refers to %s [%s]", bad, c.short(s.pathString()))
			}
		}
	}
}

// sharedRef: memory the value refers to that existed before.
func sharedRef(s *State, v Val, seen map[*Obj]bool) string {
	obj := func(o *Obj) string {
		if o == nil || seen[o] {
			return ""
		}
		seen[o] = true
		if o.Kind != OAlloc || o.Shared {
			return o.Name
		}
		for k, x := range s.heap {
			if k.o == o {
				if r := sharedRef(s, x, seen); r != "" {
					return r
				}
			}
		}
		return ""
	}
	switch x := s.resolve(v).(type) {
	case VPtr:
		return obj(x.Obj)
	case VSlice:
		return obj(x.Obj)
	case VMap:
		return obj(x.Obj)
	case VIface:
		if x.Typ != nil && types.Identical(x.Typ, errIface) {
			return ""
		}
		if x.Dyn != nil {
			return sharedRef(s, x.V, seen)
		}
	case VStruct:
		for _, f := range x.F {
			if r := sharedRef(s, f, seen); r != "" {
				return r
			}
		}
	case VTuple:
		for _, f := range x.E {
			if r := sharedRef(s, f, seen); r != "" {
				return r
			}
		}
	case VFunc:
		for _, f := range x.Bind {
			if r := sharedRef(s, f, seen); r != "" {
				return r
			}
		}
	case *MapVal:
		for i := range x.K {
			if r := sharedRef(s, x.V[i], seen); r != "" {
				return r
			}
		}
	}
	return ""
}

func (c *Ctx) shareMessage(m *MsgT) {
	in := c.In
	// decoding
	if read := c.R.method(m.T, "Read"); c.ob(read != nil, "method", m.key()+".Read", in.pos(m.T.Obj().Pos()), "no method Read") {
		for ver := 1; ver <= 2; ver++ {
			in.reset()
			st := in.NewState()
			fi := c.frame(st, ver, nil, nil, Lin{})
			mem := st.heap[cell{fi.Slice.Obj, ""}]
			p := c.receiver(m, "m")
			if outs, ok := c.run(read, []Val{p, fi.V}, st); ok {
				c.effects(fmt.Sprintf("%s.Read v%d", m.key(), ver), c.pos(read), outs, p.Obj, fi.Slice.Obj, mem, false)
			}
		}
	}
	// encoding
	for ver := 0; ver <= 2; ver++ {
		if outs, _, w, ok := c.encodeOutcomes(m, ver, nil); ok {
			c.effects(fmt.Sprintf("%s.Write v%d", m.key(), ver), c.pos(w), outs, nil, nil, nil, true)
		}
	}
	for _, n := range []string{"String", "GetVersion", "GetDialect", "GetMessageName", "GetID", "HasExtensionFieldValues"} {
		f := c.R.method(m.T, n)
		if f == nil || f.Signature.Params().Len() > 0 {
			continue
		}
		in.reset()
		st := in.NewState()
		if outs, ok := c.run(f, []Val{c.receiver(m, "m")}, st); ok {
			c.effects(m.key()+"."+n, c.pos(f), outs, nil, nil, nil, false)
		}
	}
	if !m.S.Registered {
		return
	}
	for ver := 1; ver <= 2; ver++ {
		var fi FrameIn
		var mem Val
		outs, f, ok := c.dialectCall(m.S.Pkg, "GetMessage", func(st *State) []Val {
			fi = c.frame(st, ver, nil, nil, Lin{})
			st.pin(c.frameID(fi).AddK(-m.S.ID))
			mem = st.heap[cell{fi.Slice.Obj, ""}]
			return []Val{fi.V}
		})
		if ok {
			c.effects(fmt.Sprintf("%s GetMessage v%d", m.key(), ver), c.pos(f), outs, nil, fi.Slice.Obj, mem, true)
		}
	}
	outs, f, ok := c.dialectCall(m.S.Pkg, "GetMeta", func(st *State) []Val { return []Val{VInt{K(m.S.ID)}} })
	if ok {
		c.effects(m.key()+" GetMeta", c.pos(f), outs, nil, nil, nil, true)
	}
}

// shareDialect: lookups of ids the dialect does not know.
func (c *Ctx) shareDialect(pkg string) {
	for ver := 1; ver <= 2; ver++ {
		var fi FrameIn
		var mem Val
		outs, f, ok := c.dialectCall(pkg, "GetMessage", func(st *State) []Val {
			fi = c.frame(st, ver, nil, nil, Lin{})
			id := c.frameID(fi)
			for _, s := range specByPkg(pkg) {
				if s.Registered {
					st.addNe(id.AddK(-s.ID))
				}
			}
			mem = st.heap[cell{fi.Slice.Obj, ""}]
			return []Val{fi.V}
		})
		if ok {
			c.effects(fmt.Sprintf("%s GetMessage v%d, unknown id", pkg, ver), c.pos(f), outs, nil, fi.Slice.Obj, mem, true)
		}
	}
	outs, f, ok := c.dialectCall(pkg, "GetMeta", func(st *State) []Val {
		return []Val{c.In.symVal(st, "messageID", types.Typ[types.Uint32])}
	})
	if ok {
		c.effects(pkg+" GetMeta", c.pos(f), outs, nil, nil, nil, true)
	}
}

func (c *Ctx) shareCore() {
	in := c.In
	t := c.coreType("Dialects")
	if t == nil {
		return
	}
	for n := int64(0); n <= 2; n++ {
		for ver := 1; ver <= 2; ver++ {
			for _, name := range []string{"Validate", "GetMessage"} {
				fn := c.R.valMethod(t, name)
				if !c.ob(fn != nil, "the method exists", "Dialects."+name, in.pos(t.Obj().Pos()), "no method %s", name) {
					continue
				}
				in.reset()
				st := in.NewState()
				d := c.dialectList(st, n)
				fi := c.frame(st, ver, nil, nil, Lin{})
				mem := st.heap[cell{fi.Slice.Obj, ""}]
				if outs, ok := c.run(fn, []Val{d, fi.V}, st); ok {
					where := fmt.Sprintf("Dialects.%s v%d", name, ver)
					c.effects(where, c.pos(fn), outs, nil, fi.Slice.Obj, mem, name == "GetMessage")
				}
			}
			fn := c.R.valMethod(t, "GetFrame")
			if !c.ob(fn != nil, "the method exists", "Dialects.GetFrame", in.pos(t.Obj().Pos()), "no method GetFrame") {
				continue
			}
			in.reset()
			st := in.NewState()
			d := c.dialectList(st, n)
			args := []Val{d, vint(int64(ver))}
			for _, x := range []string{"senderSystemID", "senderComponentID", "messageSequence"} {
				args = append(args, in.symVal(st, x, types.Typ[types.Uint8]))
			}
			args = append(args, VIface{Atom: "message", Typ: c.R.typ(c.R.Mod, "Message")})
			if outs, ok := c.run(fn, args, st); ok {
				c.effects(fmt.Sprintf("Dialects.GetFrame v%d", ver), c.pos(fn), outs, nil, nil, nil, true)
			}
		}
	}
	// frames
	for ver := 1; ver <= 2; ver++ {
		ft := c.coreType(fmt.Sprintf("FrameV%d", ver))
		if ft == nil {
			continue
		}
		ms := c.R.Prog.MethodSets.MethodSet(ft)
		for i := 0; i < ms.Len(); i++ {
			fn := c.R.Prog.MethodValue(ms.At(i))
			if fn == nil || fn.Signature.Params().Len() > 0 || !token.IsExported(fn.Name()) {
				continue
			}
			in.reset()
			st := in.NewState()
			fi := c.frame(st, ver, nil, nil, Lin{})
			mem := st.heap[cell{fi.Slice.Obj, ""}]
			if outs, ok := c.run(fn, []Val{fi.Slice}, st); ok {
				c.effects(fmt.Sprintf("FrameV%d.%s", ver, fn.Name()), c.pos(fn), outs, nil, fi.Slice.Obj, mem, false)
			}
		}
	}
	if fn := c.R.SSA[c.R.Mod].Func("FrameFromBytes"); c.ob(fn != nil, "the function exists", "FrameFromBytes", "", "no function FrameFromBytes") {
		in.reset()
		st := in.NewState()
		b := in.symVal(st, "raw", types.NewSlice(types.Typ[types.Uint8])).(VSlice)
		mem := st.heap[cell{b.Obj, ""}]
		args := []Val{b, in.symVal(st, "frameLength", types.Typ[types.Uint16]), in.symVal(st, "makeCopy", types.Typ[types.Bool])}
		if outs, ok := c.run(fn, args, st); ok {
			c.effects("FrameFromBytes", c.pos(fn), outs, nil, b.Obj, mem, false)
		}
	}
	// the placeholder for unknown messages
	if um := c.coreType("UnknownMessage"); um != nil {
		for _, n := range []string{"Read", "Write", "String"} {
			fn := c.R.method(um, n)
			if fn == nil {
				continue
			}
			for ver := 1; ver <= 2; ver++ {
				in.reset()
				st := in.NewState()
				p := VPtr{Obj: in.symObj("*m", um)}
				where := fmt.Sprintf("UnknownMessage.%s v%d", n, ver)
				switch n {
				case "Read":
					fi := c.frame(st, ver, nil, nil, Lin{})
					mem := st.heap[cell{fi.Slice.Obj, ""}]
					if outs, ok := c.run(fn, []Val{p, fi.V}, st); ok {
						c.effects(where, c.pos(fn), outs, p.Obj, fi.Slice.Obj, mem, false)
					}
				case "Write":
					if outs, ok := c.run(fn, []Val{p, vint(int64(ver))}, st); ok {
						c.effects(where, c.pos(fn), outs, nil, nil, nil, false)
					}
				default:
					if outs, ok := c.run(fn, []Val{p}, st); ok {
						c.effects(where, c.pos(fn), outs, nil, nil, nil, false)
					}
				}
			}
		}
	}
}

func propC24(c *Ctx) {
	c.globalRules()
	c.operations()
}

// operations interprets everything outside the stream and the transport.
func (c *Ctx) operations() {
	c.shareCore()
	ms := c.messages(nil)
	c.parallel(len(ms), func(c *Ctx, i int) { c.shareMessage(ms[i]) })
	pk := specPkgs()
	c.parallel(len(pk), func(c *Ctx, i int) { c.shareDialect(pk[i]) })
}
