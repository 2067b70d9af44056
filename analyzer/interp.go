package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Interp struct {
	U        *Universe
	Prog     *ssa.Program
	Fset     *token.FileSet
	ModPath  string
	WordBits int

	nobj      int
	symObjs   map[string]*Obj
	symIndex  map[string]Lin
	globals   map[*ssa.Global]*Obj
	gheap     map[cell]Val // contents of globals after initialisation
	gdirty    map[*ssa.Global]string
	gdirtyObj map[*Obj]bool

	// configuration of one analysis
	Opaque       func(fn *ssa.Function, ps *PS, args []Val) (string, bool) // calls kept as events
	Tmpl         Template
	NoLoopAbs    bool
	RecordSegs   bool
	Segs         []Segment
	invokeModels map[string]model
	Volatile     func(o *Obj, path string) bool

	MaxDepth      int
	Limit         int // instruction budget of one analysis
	steps         int
	Undecided     map[string]string // construct -> why
	Endless       map[string]string // loop that may not end -> where
	Bounded       map[string]string // every loop looked at -> where
	Seen          map[*ssa.Function]int
	loops         map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	Calls         int
	Forks         int
	Reads         map[string]bool
	initMode      bool
	InitUndecided []string
	InitEvents    []*Event
	floatOf       map[string]VFloat
	floatBits     map[string]Lin
	OnLock        func(st *State, p VPtr)
	OnEvent       func(st *State, e *Event)
}

func NewInterp(prog *ssa.Program, mod string) *Interp {
	in := &Interp{U: NewUniverse(), Prog: prog, Fset: prog.Fset, ModPath: mod, WordBits: 64}
	in.symObjs = map[string]*Obj{}
	in.symIndex = map[string]Lin{}
	in.floatOf, in.floatBits = map[string]VFloat{}, map[string]Lin{}
	in.globals = map[*ssa.Global]*Obj{}
	in.gheap = map[cell]Val{}
	in.gdirty = map[*ssa.Global]string{}
	in.gdirtyObj = map[*Obj]bool{}
	in.loops = map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}
	in.Seen = map[*ssa.Function]int{}
	in.reset()
	return in
}

func (in *Interp) reset() {
	in.Opaque, in.Tmpl, in.Volatile, in.Segs, in.NoLoopAbs, in.RecordSegs, in.OnEvent = nil, nil, nil, nil, false, false, nil
	in.invokeModels = defaultInvokeModels()
	in.MaxDepth = 40
	in.Limit = 3000000
	in.steps = 0
	in.Undecided = map[string]string{}
	in.Endless = map[string]string{}
	in.Bounded = map[string]string{}
}

func (in *Interp) pos(p token.Pos) string {
	q := in.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (in *Interp) undecided(fr *Frame, pos token.Pos, msg string) {
	k := msg
	if fr != nil {
		if pos == token.NoPos {
			pos = fr.fn.Pos()
		}
		k = fr.fn.String() + ": " + msg
	}
	if _, ok := in.Undecided[k]; !ok {
		in.Undecided[k] = in.pos(pos)
	}
}

// PS is the part of a path that belongs to one function activation.
type PS struct {
	st     *State
	env    map[ssa.Value]Val
	defers []deferred
}

type deferred struct {
	call ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
	ins  *ssa.Defer
}

func (ps *PS) clone() *PS {
	return &PS{st: ps.st.Clone(), env: maps.Clone(ps.env), defers: ps.defers[:len(ps.defers):len(ps.defers)]}
}

type Frame struct {
	fn     *ssa.Function
	caller *Frame
	depth  int
	site   ssa.Instruction
	loops  map[*ssa.BasicBlock]*Loop
}

func (fr *Frame) stack() []string {
	var s []string
	for f := fr; f != nil; f = f.caller {
		s = append(s, f.fn.RelString(nil))
	}
	return s
}

type Outcome struct {
	Panic bool
	St    *State
	Rets  []Val
}

type CallRes struct {
	st    *State
	v     Val
	panic bool
}

// transitions out of a region
type trans struct {
	kind     int // 0 exit, 1 back edge, 2 return, 3 panic
	from, to *ssa.BasicBlock
	ps       *PS
	rets     []Val
}

const (
	tExit = iota
	tBack
	tReturn
	tPanic
)

// Call analyses fn from the state st.
func (in *Interp) Call(fn *ssa.Function, args []Val, bind []Val, st *State, caller *Frame, site ssa.Instruction) []Outcome {
	in.Calls++
	in.Seen[fn]++
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	fr := &Frame{fn: fn, caller: caller, depth: depth, site: site, loops: in.loopsOf(fn)}
	if depth > in.MaxDepth {
		in.undecided(fr, fn.Pos(), "call depth exceeded (recursion)")
		return nil
	}
	ps := &PS{st: st, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		if i < len(args) {
			ps.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			ps.env[f] = bind[i]
		}
	}
	var ts []trans
	in.walk(fr, fn.Blocks[0], nil, ps, nil, &ts)
	var out []Outcome
	for _, t := range ts {
		switch t.kind {
		case tReturn:
			out = append(out, Outcome{St: t.ps.st, Rets: t.rets})
		case tPanic:
			out = append(out, in.unwind(fr, t.ps)...)
		}
	}
	return out
}

// unwind runs the deferred calls of a panicking activation.
func (in *Interp) unwind(fr *Frame, ps *PS) []Outcome {
	if len(ps.defers) == 0 {
		return []Outcome{{Panic: true, St: ps.st}}
	}
	d := ps.defers[len(ps.defers)-1]
	ps.defers = ps.defers[:len(ps.defers)-1]
	var out []Outcome
	ps.st.inDefer++
	for _, r := range in.invoke(fr, ps, d.call, d.fn, d.args, d.ins) {
		r.st.inDefer--
		n := &PS{st: r.st, env: ps.env, defers: ps.defers}
		if r.st.panicV != nil || r.panic {
			out = append(out, in.unwind(fr, n)...)
			continue
		}
		// recovered: the remaining deferred calls run, then the function
		// returns its result variables
		for _, s := range in.runDefers(fr, n) {
			if s.st.panicV != nil {
				out = append(out, Outcome{Panic: true, St: s.st})
				continue
			}
			if fr.fn.Recover == nil {
				var rets []Val
				res := fr.fn.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					rets = append(rets, in.zeroVal(res.At(i).Type()))
				}
				out = append(out, Outcome{St: s.st, Rets: rets})
				continue
			}
			var ts []trans
			in.walk(fr, fr.fn.Recover, nil, s, nil, &ts)
			for _, t := range ts {
				if t.kind == tReturn {
					out = append(out, Outcome{St: t.ps.st, Rets: t.rets})
				} else {
					out = append(out, Outcome{Panic: true, St: t.ps.st})
				}
			}
		}
	}
	return out
}

func (in *Interp) runDefers(fr *Frame, ps *PS) []*PS {
	if len(ps.defers) == 0 {
		return []*PS{ps}
	}
	d := ps.defers[len(ps.defers)-1]
	ps.defers = ps.defers[:len(ps.defers)-1]
	var out []*PS
	ps.st.inDefer++
	for _, r := range in.invoke(fr, ps, d.call, d.fn, d.args, d.ins) {
		r.st.inDefer--
		n := &PS{st: r.st, env: maps.Clone(ps.env), defers: ps.defers[:len(ps.defers):len(ps.defers)]}
		if r.panic {
			for _, o := range in.unwind(fr, n) {
				if o.Panic {
					out = append(out, &PS{st: o.St, env: n.env})
				} else {
					in.undecided(fr, d.pos, "recovered panic of a deferred call")
				}
			}
			continue
		}
		out = append(out, in.runDefers(fr, n)...)
	}
	return out
}

func (in *Interp) walk(fr *Frame, b, prev *ssa.BasicBlock, ps *PS, cur *Loop, out *[]trans) {
	if cur != nil {
		if b == cur.Head && prev != nil {
			*out = append(*out, trans{kind: tBack, from: prev, to: b, ps: ps})
			return
		}
		if !cur.Blocks[b] {
			*out = append(*out, trans{kind: tExit, from: prev, to: b, ps: ps})
			return
		}
	}
	if l := fr.loops[b]; l != nil && l != cur {
		for _, t := range in.execLoop(fr, l, prev, ps) {
			if t.kind == tExit {
				in.walk(fr, t.to, t.from, t.ps, cur, out)
			} else {
				*out = append(*out, t)
			}
		}
		return
	}
	in.evalPhis(fr, b, prev, ps)
	in.instrs(fr, b, 0, ps, cur, out)
}

func (in *Interp) evalPhis(fr *Frame, b, prev *ssa.BasicBlock, ps *PS) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
			break
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, in.val(ps, p.Edges[idx]))
	}
	for i, p := range phis {
		ps.env[p] = vals[i]
	}
}

// instrs runs block b from instruction i on.
func (in *Interp) instrs(fr *Frame, b *ssa.BasicBlock, i int, ps *PS, cur *Loop, out *[]trans) {
	for ; i < len(b.Instrs); i++ {
		in.steps++
		if in.steps > in.Limit {
			in.undecided(nil, b.Instrs[i].Pos(), "analysis budget exceeded in "+fr.fn.String())
			return
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			in.walk(fr, b.Succs[0], b, ps, cur, out)
			return
		case *ssa.If:
			c := in.cond(fr, ps, in.val(ps, x.Cond))
			if v, ok := ps.st.decide(c); ok {
				s := b.Succs[0]
				if !v {
					s = b.Succs[1]
				}
				in.walk(fr, s, b, ps, cur, out)
				return
			}
			if in.ifConvert(fr, b, x, c, ps, cur, out) {
				return
			}
			in.Forks++
			n := ps.clone()
			if ps.st.assume(c) {
				in.walk(fr, b.Succs[0], b, ps, cur, out)
			}
			if n.st.assume(c.Not()) {
				in.walk(fr, b.Succs[1], b, n, cur, out)
			}
			return
		case *ssa.Return:
			var r []Val
			for _, v := range x.Results {
				r = append(r, in.val(ps, v))
			}
			*out = append(*out, trans{kind: tReturn, ps: ps, rets: r})
			return
		case *ssa.Panic:
			ps.st.panicV = &panicInfo{Msg: "explicit panic", Pos: x.Pos(), Fn: fr.fn, Val: in.val(ps, x.X)}
			*out = append(*out, trans{kind: tPanic, ps: ps})
			return
		case *ssa.RunDefers:
			pss := in.runDefers(fr, ps)
			for _, n := range pss {
				if n.st.panicV != nil {
					*out = append(*out, trans{kind: tPanic, ps: n})
					continue
				}
				if len(pss) == 1 {
					ps = n
					break
				}
				in.instrs(fr, b, i+1, n, cur, out)
			}
			if len(pss) == 1 && pss[0].st.panicV == nil {
				ps = pss[0]
				continue
			}
			return
		case *ssa.Defer:
			d := deferred{call: x.Call, pos: x.Pos(), ins: x}
			d.fn, d.args = in.callee(ps, &x.Call)
			ps.defers = append(ps.defers, d)
		default:
			rs := in.step(fr, b.Instrs[i], ps)
			if rs == nil {
				continue // done in place
			}
			v, isVal := b.Instrs[i].(ssa.Value)
			if len(rs) == 1 && !rs[0].panic {
				ps.st = rs[0].st
				if isVal {
					ps.env[v] = rs[0].v
				}
				continue
			}
			for k, r := range rs {
				n := &PS{st: r.st, env: ps.env, defers: ps.defers[:len(ps.defers):len(ps.defers)]}
				if k < len(rs)-1 {
					n.env = maps.Clone(ps.env)
				}
				if r.panic {
					*out = append(*out, trans{kind: tPanic, ps: n})
					continue
				}
				if isVal {
					n.env[v] = r.v
				}
				in.instrs(fr, b, i+1, n, cur, out)
			}
			return
		}
	}
}

// ifConvert turns a branch on a single bit whose two sides only compute and
// rejoin into a bitwise selection.
func (in *Interp) ifConvert(fr *Frame, b *ssa.BasicBlock, x *ssa.If, c Cond, ps *PS, cur *Loop, out *[]trans) bool {
	if c.Op != CGe && c.Op != CEq {
		return false
	}
	bit, ok := in.condBit(ps.st, c)
	if !ok {
		return false
	}
	pure := func(s *ssa.BasicBlock) (*ssa.BasicBlock, bool) {
		if len(s.Preds) != 1 || len(s.Succs) != 1 {
			return s, false
		}
		for _, i := range s.Instrs {
			switch y := i.(type) {
			case *ssa.BinOp:
				if y.Op == token.QUO || y.Op == token.REM || y.Op == token.SHL || y.Op == token.SHR {
					if _, ok := y.Y.(*ssa.Const); !ok {
						return s, false
					}
				}
			case *ssa.Jump, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType:
			case *ssa.UnOp:
				if y.Op != token.XOR && y.Op != token.SUB && y.Op != token.NOT {
					return s, false
				}
			default:
				return s, false
			}
		}
		return s.Succs[0], true
	}
	j0, p0 := pure(b.Succs[0])
	j1, p1 := pure(b.Succs[1])
	var join *ssa.BasicBlock
	f0, f1 := b, b
	switch {
	case p0 && p1 && j0 == j1:
		join, f0, f1 = j0, b.Succs[0], b.Succs[1]
	case p0 && j0 == b.Succs[1]:
		join, f0 = j0, b.Succs[0]
	case p1 && j1 == b.Succs[0]:
		join, f1 = j1, b.Succs[1]
	default:
		return false
	}
	if b.Succs[0] == b.Succs[1] || fr.loops[join] != nil && !(cur != nil && join == cur.Head) {
		return false
	}
	run := func(f *ssa.BasicBlock) *PS {
		n := ps.clone()
		if f != b {
			for _, i := range f.Instrs {
				if _, ok := i.(*ssa.Jump); ok {
					break
				}
				rs := in.step(fr, i, n)
				if rs != nil {
					if len(rs) != 1 || rs[0].panic {
						return nil
					}
					n.st = rs[0].st
					if v, ok := i.(ssa.Value); ok {
						n.env[v] = rs[0].v
					}
				}
			}
		}
		return n
	}
	s0, s1 := run(f0), run(f1)
	if s0 == nil || s1 == nil {
		return false
	}
	i0, i1 := -1, -1
	for i, p := range join.Preds {
		if p == f0 {
			i0 = i
		}
		if p == f1 {
			i1 = i
		}
	}
	if i0 < 0 || i1 < 0 {
		return false
	}
	vals := map[*ssa.Phi]Val{}
	for _, i := range join.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		a, d := in.val(s0, p.Edges[i0]), in.val(s1, p.Edges[i1])
		if valKey(a) == valKey(d) {
			vals[p] = a
			continue
		}
		va, ok1 := a.(VInt)
		vd, ok2 := d.(VInt)
		if !ok1 || !ok2 {
			return false
		}
		w, signed := in.intInfo(p.Type())
		if signed {
			return false
		}
		ba, bd := in.U.BitsOf(va.L, w), in.U.BitsOf(vd.L, w)
		r := make([]Bit, w)
		for k := range r {
			// d ^ bit&(a^d)
			x := ba[k].Xor(bd[k])
			if !x.IsConst() {
				return false // not linear: keep the paths apart
			}
			r[k] = bd[k].Xor(in.U.BitAnd(bit, x))
		}
		vals[p] = VInt{in.U.FromBits(r)}
	}
	if cur != nil && (join == cur.Head || !cur.Blocks[join]) {
		return false
	}
	for p, v := range vals {
		ps.env[p] = v
	}
	in.instrs(fr, join, 0, ps, cur, out)
	return true
}

// condBit: the condition as one bit.
func (in *Interp) condBit(st *State, c Cond) (Bit, bool) {
	l := c.L
	if c.Op == CGe {
		// bit - 1 >= 0
		if l.C == -1 && len(l.T) == 1 && l.T[0].C == 1 {
			if lo, hi := st.bounds(l.T[0].A); lo == 0 && hi == 1 {
				return in.U.BitsOf(Lin{T: l.T}, 1)[0], true
			}
		}
		if l.C == 0 && len(l.T) == 1 && l.T[0].C == -1 {
			if lo, hi := st.bounds(l.T[0].A); lo == 0 && hi == 1 {
				b := in.U.BitsOf(Lin{T: l.T}.Neg(), 1)[0]
				b.C = !b.C
				return b, true
			}
		}
		return Bit{}, false
	}
	if len(l.T) > 0 && l.T[0].C < 0 {
		l = l.Neg()
	}
	if len(l.T) != 1 {
		return Bit{}, false
	}
	t := l.T[0]
	lo, hi := st.bounds(t.A)
	if lo != 0 || hi != 1 || t.C == 0 {
		return Bit{}, false
	}
	b := in.U.BitsOf(L1(t.A), 1)[0]
	switch {
	case l.C == 0: // t == 0
		b.C = !b.C
	case l.C == -t.C: // t == 1
	default:
		return Bit{}, false
	}
	if c.Neg {
		b.C = !b.C
	}
	return b, true
}

func (in *Interp) cond(fr *Frame, ps *PS, v Val) Cond {
	if b, ok := v.(VBool); ok {
		return b.C
	}
	in.undecided(fr, fr.fn.Pos(), "condition of unknown shape "+valKey(v))
	return Ge(L1(in.U.Atom(in.U.Fresh("cond"), KOpaque, 0, 1)).AddK(-1))
}

// ---- values ------------------------------------------------------------------

func (in *Interp) val(ps *PS, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return VPtr{Obj: in.globalObj(x)}
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Builtin:
		return VFunc{Atom: "builtin." + x.Name()}
	}
	if r, ok := ps.env[v]; ok {
		return r
	}
	return in.symVal(ps.st, in.U.Fresh("unset:"+v.Name()), v.Type())
}

func (in *Interp) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return in.zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool{CB(constant.BoolVal(c.Value))}
	case constant.String:
		s := constant.StringVal(c.Value)
		return VStr{ConstContent(s), K(int64(len(s)))}
	case constant.Int, constant.Float:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			if i, exact := constant.Int64Val(constant.ToInt(c.Value)); exact {
				k := K(i)
				return VFloat{I: &k}
			}
			return VFloat{K: c.Value.ExactString()}
		}
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return VInt{K(i)}
		}
		if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return VInt{L1(in.U.Atom(fmt.Sprintf("big:%d", u), KOpaque, 0, posInf))}
		}
	}
	return VOpq{"const:" + c.Value.ExactString()}
}

func (in *Interp) globalObj(g *ssa.Global) *Obj {
	if o := in.globals[g]; o != nil {
		return o
	}
	n := g.Name()
	if g.Pkg != nil {
		n = g.Pkg.Pkg.Path() + "." + n
	}
	o := in.newObj(OGlobal, n, deref(g.Type()), nil)
	o.Glob = g
	in.globals[g] = o
	return o
}

var errIface = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errIface) }

var sentinelType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "sentinelError", nil), types.NewStruct(nil, nil), nil)

func errVal(name string) VIface {
	return VIface{Dyn: sentinelType, V: VOpq{"err:" + name}, Typ: errIface}
}

func (in *Interp) inRepo(p *ssa.Package) bool {
	return p != nil && (p.Pkg.Path() == in.ModPath || strings.HasPrefix(p.Pkg.Path(), in.ModPath+"/"))
}

// globalCell is the content of a global after initialisation.
func (in *Interp) globalCell(o *Obj, path string, t types.Type) (Val, bool) {
	if in.initMode && o.Glob != nil && in.inRepo(o.Glob.Pkg) {
		return in.zeroVal(t), true
	}
	if in.gdirtyObj[o] {
		return nil, false
	}
	if o.Glob == nil {
		if v, ok := in.gheap[cell{o, path}]; ok {
			return v, true
		}
		return in.zeroVal(t), true
	}
	if in.inRepo(o.Glob.Pkg) {
		if in.gdirty[o.Glob] != "" {
			return nil, false
		}
		if v, ok := in.gheap[cell{o, path}]; ok {
			return v, true
		}
		return in.zeroVal(t), true
	}
	if isErrorType(t) {
		return errVal(strings.TrimPrefix(o.Name, "")), true
	}
	if _, ok := under(t).(*types.Struct); ok {
		return in.zeroVal(t), true
	}
	return nil, false
}

func (in *Interp) fixRange(st *State, l Lin, t types.Type) Lin {
	w, s := in.intInfo(t)
	lo, hi := rangeOf(w, s)
	if l.IsConst() {
		return K(wrapConst(l.C, w, s))
	}
	if w >= 64 && s {
		return l // overflow of signed words is assumed absent
	}
	if (lo == negInf || st.prove(l.AddK(-lo))) && (hi == posInf || st.prove(l.Neg().AddK(hi))) {
		return l
	}
	if k := under(t).(*types.Basic).Kind(); s && w == in.WordBits && (k == types.Int || k == types.UntypedInt) {
		// lengths and numbers of rounds are far from the largest int
		m, big := l, 0
		for _, x := range l.T {
			if x.A.Hi == 1<<40 {
				m = m.AddMul(L1(x.A), -x.C)
				if x.C == 1 {
					big++
				} else {
					big = 2
				}
			}
		}
		if big == 1 && st.prove(m.Neg().AddK(1<<16)) && st.prove(l.AddK(-lo)) {
			return l
		}
	}
	if !s {
		// exact modulo 2^w
		return in.U.FromBits(in.U.BitsOf(l, w))
	}
	return L1(in.U.Atom(fmt.Sprintf("wrap%d(%s)", w, l.Key()), KOpaque, lo, hi))
}

func wrapConst(c int64, w int, s bool) int64 {
	if w >= 64 {
		return c
	}
	m := c & (int64(1)<<uint(w) - 1)
	if s && m >= int64(1)<<uint(w-1) {
		m -= int64(1) << uint(w)
	}
	return m
}

func (in *Interp) binop(fr *Frame, x *ssa.BinOp, ps *PS) []CallRes {
	st := ps.st
	a, b := in.val(ps, x.X), in.val(ps, x.Y)
	set := func(v Val) []CallRes { ps.env[x] = v; return nil }
	switch x.Op {
	case token.EQL, token.NEQ:
		c := in.eqCond(fr, ps, a, b, x.X.Type())
		if x.Op == token.NEQ {
			c = c.Not()
		}
		return set(VBool{c})
	}
	if fa, ok := a.(VFloat); ok {
		return set(in.floatOp(x, fa, b.(VFloat)))
	}
	if sa, ok := a.(VStr); ok {
		sb := b.(VStr)
		if x.Op == token.ADD {
			return set(VStr{st.norm(append(append(Content(nil), sa.C...), sb.C...)), sa.N.Add(sb.N)})
		}
		ca, ok1 := constBytes(sa.C)
		cb, ok2 := constBytes(sb.C)
		if ok1 && ok2 {
			switch x.Op {
			case token.LSS:
				return set(VBool{CB(ca < cb)})
			case token.GTR:
				return set(VBool{CB(ca > cb)})
			case token.LEQ:
				return set(VBool{CB(ca <= cb)})
			case token.GEQ:
				return set(VBool{CB(ca >= cb)})
			}
		}
		return set(in.symVal(st, "strcmp("+x.Op.String()+valKey(a)+","+valKey(b)+")", x.Type()))
	}
	ia, ok1 := a.(VInt)
	ib, ok2 := b.(VInt)
	if !ok1 || !ok2 {
		if ba, ok := a.(VBool); ok {
			bb := b.(VBool)
			av, ak := st.decide(ba.C)
			bv, bk := st.decide(bb.C)
			if ak && bk {
				switch x.Op {
				case token.AND, token.LAND:
					return set(VBool{CB(av && bv)})
				case token.OR, token.LOR:
					return set(VBool{CB(av || bv)})
				}
			}
		}
		return set(in.symVal(st, "op("+x.Op.String()+valKey(a)+","+valKey(b)+")", x.Type()))
	}
	la, lb := ia.L, ib.L
	switch x.Op {
	case token.LSS:
		return set(VBool{Ge(lb.Sub(la).AddK(-1))})
	case token.LEQ:
		return set(VBool{Ge(lb.Sub(la))})
	case token.GTR:
		return set(VBool{Ge(la.Sub(lb).AddK(-1))})
	case token.GEQ:
		return set(VBool{Ge(la.Sub(lb))})
	}
	t := x.Type()
	w, signed := in.intInfo(t)
	switch x.Op {
	case token.ADD:
		return set(VInt{in.fixRange(st, la.Add(lb), t)})
	case token.SUB:
		if r, ok := in.spread(st, lb, -1, w, signed); ok && la.IsConst() && la.C == 0 {
			return set(VInt{r})
		}
		return set(VInt{in.fixRange(st, la.Sub(lb), t)})
	case token.MUL:
		if la.IsConst() {
			la, lb = lb, la
		}
		if r, ok := in.spread(st, la, lb.C, w, signed); ok && lb.IsConst() {
			return set(VInt{r})
		}
		if lb.IsConst() {
			return set(VInt{in.fixRange(st, la.Mul(lb.C), t)})
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if la.IsConst() && lb.IsConst() {
			switch x.Op {
			case token.AND:
				return set(VInt{K(la.C & lb.C)})
			case token.OR:
				return set(VInt{K(la.C | lb.C)})
			case token.XOR:
				return set(VInt{in.fixRange(st, K(la.C^lb.C), t)})
			default:
				return set(VInt{K(la.C &^ lb.C)})
			}
		}
		if signed {
			// only for values known to be non-negative
			if !st.prove(la) || !st.prove(lb) {
				break
			}
		}
		ba, bb := st.bitsOf(la, w), st.bitsOf(lb, w)
		r := make([]Bit, w)
		for i := range r {
			switch x.Op {
			case token.AND:
				r[i] = in.U.BitAnd(ba[i], bb[i])
			case token.OR:
				r[i] = in.U.BitOr(ba[i], bb[i])
			case token.XOR:
				r[i] = ba[i].Xor(bb[i])
			default:
				n := bb[i]
				n.C = !n.C
				r[i] = in.U.BitAnd(ba[i], n)
			}
		}
		return set(VInt{in.U.FromBits(r)})
	case token.SHL:
		if lb.IsConst() && lb.C >= 0 {
			if lb.C >= int64(w) {
				return set(VInt{K(0)})
			}
			if lb.C < 62 {
				r := la.Mul(int64(1) << uint(lb.C))
				if la.IsConst() {
					return set(VInt{K(wrapConst(la.C<<uint(lb.C), w, signed))})
				}
				if signed {
					return set(VInt{in.fixRange(st, r, t)})
				}
				ba := st.bitsOf(la, w)
				n := make([]Bit, w)
				copy(n[lb.C:], ba[:w-int(lb.C)])
				return set(VInt{in.U.FromBits(n)})
			}
		}
	case token.SHR:
		if lb.IsConst() && lb.C >= 0 {
			if la.IsConst() {
				if lb.C > 63 {
					return set(VInt{K(la.C >> 63)})
				}
				return set(VInt{K(la.C >> uint(lb.C))})
			}
			if !signed || st.prove(la) {
				ba := st.bitsOf(la, w)
				n := make([]Bit, w)
				if lb.C < int64(w) {
					copy(n, ba[lb.C:])
				}
				return set(VInt{in.U.FromBits(n)})
			}
		}
	case token.QUO, token.REM:
		if lb.IsConst() && la.IsConst() && lb.C != 0 {
			if x.Op == token.QUO {
				return set(VInt{K(la.C / lb.C)})
			}
			return set(VInt{K(la.C % lb.C)})
		}
		if lb.IsConst() && lb.C > 0 && (!signed || st.prove(la)) {
			if lb.C&(lb.C-1) == 0 {
				ba := st.bitsOf(la, w)
				k := 0
				for int64(1)<<uint(k) != lb.C {
					k++
				}
				n := make([]Bit, w)
				if x.Op == token.QUO {
					copy(n, ba[k:])
				} else {
					copy(n, ba[:k])
				}
				return set(VInt{in.U.FromBits(n)})
			}
			if x.Op == token.REM {
				return set(VInt{L1(in.U.Atom(fmt.Sprintf("rem(%s,%d)", la.Key(), lb.C), KOpaque, 0, lb.C-1))})
			}
			return set(VInt{L1(in.U.Atom(fmt.Sprintf("quo(%s,%d)", la.Key(), lb.C), KOpaque, 0, posInf))})
		}
		if !st.proveNe(lb) {
			// division by zero
			p := st.Clone()
			if p.assume(Eq0(lb)) {
				p.panicV = &panicInfo{Msg: "division by zero", Pos: x.Pos(), Fn: fr.fn}
				if st.assume(Eq0(lb).Not()) {
					v := in.symVal(st, "op("+x.Op.String()+valKey(a)+","+valKey(b)+")", t)
					return []CallRes{{st: st, v: v}, {st: p, panic: true}}
				}
				return []CallRes{{st: p, panic: true}}
			}
		}
	}
	return set(in.symVal(st, "op("+x.Op.String()+valKey(a)+","+valKey(b)+")", t))
}

func (in *Interp) floatOp(x *ssa.BinOp, a, b VFloat) Val {
	if a.I != nil && b.I != nil {
		la, lb := *a.I, *b.I
		switch x.Op {
		case token.LSS:
			return VBool{Ge(lb.Sub(la).AddK(-1))}
		case token.LEQ:
			return VBool{Ge(lb.Sub(la))}
		case token.GTR:
			return VBool{Ge(la.Sub(lb).AddK(-1))}
		case token.GEQ:
			return VBool{Ge(la.Sub(lb))}
		case token.ADD:
			r := la.Add(lb)
			return VFloat{I: &r}
		case token.SUB:
			r := la.Sub(lb)
			return VFloat{I: &r}
		}
	}
	k := "fop(" + x.Op.String() + valKey(a) + "," + valKey(b) + ")"
	if b, ok := under(x.Type()).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return VBool{Ge(L1(in.U.Atom(k, KOpaque, 0, 1)).AddK(-1))}
	}
	return VFloat{K: k}
}

// eqBytes compares a few bytes as one word.
func (in *Interp) eqBytes(st *State, a, b Content, n int64) (Cond, bool) {
	if n < 1 || n > 4 {
		return Cond{}, false
	}
	var x, y []Bit
	for i := int64(0); i < n; i++ {
		p, q := st.byteAt(a, K(i)), st.byteAt(b, K(i))
		x = append(x, in.U.BitsOf(p, 8)...)
		y = append(y, in.U.BitsOf(q, 8)...)
	}
	return in.eqBits(st, in.U.FromBits(x), in.U.FromBits(y)), true
}

func (in *Interp) eqCond(fr *Frame, ps *PS, a, b Val, t types.Type) Cond {
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return in.eqBits(ps.st, x.L, y.L)
		}
	case VBool:
		y := b.(VBool)
		av, ak := ps.st.decide(x.C)
		if ak {
			if av {
				return y.C
			}
			return y.C.Not()
		}
		bv, bk := ps.st.decide(y.C)
		if bk {
			if bv {
				return x.C
			}
			return x.C.Not()
		}
		if x.C.Key() == y.C.Key() {
			return CTrue()
		}
	case VFloat:
		y := b.(VFloat)
		if x.I != nil && y.I != nil {
			return Eq0(x.I.Sub(*y.I))
		}
		return Ge(L1(in.U.Atom("feq("+valKey(a)+","+valKey(b)+")", KOpaque, 0, 1)).AddK(-1))
	case VSlice:
		y := b.(VSlice)
		if x.Obj == nil {
			x, y = y, x
		}
		if x.Obj == nil {
			return CTrue()
		}
		if x.Obj.Kind == OSym && x.Path == "" && !ps.st.prove(x.Off.Add(x.Cap).AddK(-1)) {
			return Ge(L1(in.U.Atom("isnil("+x.Obj.Name+")", KOpaque, 0, 1)).AddK(-1))
		}
		return CFalse()
	case VMap:
		y := b.(VMap)
		if x.Obj == nil && y.Obj == nil {
			return CTrue()
		}
		if x.Obj == nil {
			x = y
		}
		if x.Obj.Kind == OSym {
			return Ge(L1(in.U.Atom("isnil("+x.Obj.Name+")", KOpaque, 0, 1)).AddK(-1))
		}
		return CFalse()
	case VStr:
		y := b.(VStr)
		if y.N.IsConst() && y.N.C == 0 {
			return Eq0(x.N)
		}
		if x.N.IsConst() && x.N.C == 0 {
			return Eq0(y.N)
		}
		n, m := substConst(ps.st, x.N), substConst(ps.st, y.N)
		if n.IsConst() && m.IsConst() {
			if n.C != m.C {
				return CFalse()
			}
			if c, ok := in.eqBytes(ps.st, x.C, y.C, n.C); ok {
				return c
			}
		}
	case VArr:
		y := b.(VArr)
		if ps.st.contentEq(x.C, y.C, x.N) {
			return CTrue()
		}
		if x.N.IsConst() {
			if c, ok := in.eqBytes(ps.st, x.C, y.C, x.N.C); ok {
				return c
			}
		}
	case VFunc:
		if n, ok := isNilVal(a); ok {
			if m, ok2 := isNilVal(b); ok2 {
				return CB(n == m)
			}
		}
	case VChan:
		if y, ok := b.(VChan); ok && (x.Key == "" || y.Key == "") {
			if x.Key == y.Key {
				return CTrue()
			}
			k := x.Key + y.Key
			if strings.HasPrefix(k, "make") {
				return CFalse()
			}
			return Ge(L1(in.U.Atom("isnil("+k+")", KOpaque, 0, 1)).AddK(-1))
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			rx, ry := ps.st.resolve(x).(VIface), ps.st.resolve(y).(VIface)
			if rx.Dyn != nil && ry.Dyn != nil {
				if !types.Identical(rx.Dyn, ry.Dyn) {
					return CFalse()
				}
				switch rx.V.(type) {
				case VInt, VStr, VBool, VFloat:
					return in.eqCond(fr, ps, rx.V, ry.V, rx.Dyn)
				}
			}
		} else {
			b = VIface{Dyn: t, V: b}
		}
	case VStruct:
		y, ok := b.(VStruct)
		if ok && len(x.F) == len(y.F) {
			all := true
			for i := range x.F {
				c := in.eqCond(fr, ps, x.F[i], y.F[i], nil)
				if v, k := ps.st.decide(c); k && !v {
					return CFalse()
				} else if !k {
					all = false
				}
			}
			if all {
				return CTrue()
			}
		}
	}
	return Cond{Op: CIs, A: a, B: b}
}

// eqBits simplifies comparisons of masked values with constants.
func (in *Interp) eqBits(st *State, a, b Lin) Cond {
	d := a.Sub(b)
	// k*x + c == 0 with x a single bit of some atom: keep as is
	return Eq0(d)
}

// sortedKeys is for stable reports.
func sortedKeys[M ~map[string]V, V any](m M) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// spread: k times a word of which only one bit may be set, without a carry:
// the bits of k where that bit is set, moved to its place.
func (in *Interp) spread(st *State, l Lin, k int64, w int, signed bool) (Lin, bool) {
	if signed || l.IsConst() || k == 0 || k&(k-1) == 0 {
		return l, false
	}
	at := -1
	bits := st.bitsOf(l, w)
	for i, b := range bits {
		if b.Zero() {
			continue
		}
		if at >= 0 {
			return l, false
		}
		at = i
	}
	if at < 0 {
		return l, false
	}
	r := make([]Bit, w)
	for i := range r {
		if i >= at && i-at < 64 && uint64(k)>>uint(i-at)&1 == 1 {
			r[i] = bits[at]
		}
	}
	return in.U.FromBits(r), true
}
