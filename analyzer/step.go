package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// check forks off the panic of an operation that is only defined if c holds.
// It returns the panicking alternative (nil: impossible) and whether the
// operation can succeed.
func (in *Interp) check(fr *Frame, st *State, c Cond, msg string, pos token.Pos) (*State, bool) {
	if v, ok := st.decide(c); ok && v {
		return nil, true
	}
	p := st.Clone()
	if !p.assume(c.Not()) {
		st.assume(c)
		return nil, true
	}
	p.panicV = &panicInfo{Msg: msg, Pos: pos, Fn: fr.fn}
	return p, st.assume(c)
}

func withPanics(rs []CallRes, ps ...*State) []CallRes {
	for _, p := range ps {
		if p != nil {
			rs = append(rs, CallRes{st: p, panic: true})
		}
	}
	return rs
}

func (in *Interp) step(fr *Frame, ins ssa.Instruction, ps *PS) []CallRes {
	st := ps.st
	one := func(v Val) []CallRes { return []CallRes{{st: st, v: v}} }
	switch x := ins.(type) {
	case *ssa.Alloc:
		o := in.newObj(OAlloc, fmt.Sprintf("%s@%s", x.Comment, fr.fn.Name()), deref(x.Type()), x)
		return one(VPtr{Obj: o})
	case *ssa.BinOp:
		return in.binop(fr, x, ps)
	case *ssa.UnOp:
		return in.unop(fr, x, ps)
	case *ssa.Store:
		return in.store(fr, x.Pos(), ps, in.val(ps, x.Addr), in.val(ps, x.Val), deref(x.Addr.Type()))
	case *ssa.FieldAddr:
		p, ok := in.val(ps, x.X).(VPtr)
		if !ok {
			return one(in.symVal(st, in.U.Fresh("fieldaddr"), x.Type()))
		}
		if p.Obj == nil {
			st.panicV = &panicInfo{Msg: "nil pointer dereference", Pos: x.Pos(), Fn: fr.fn}
			return []CallRes{{st: st, panic: true}}
		}
		return one(VPtr{Obj: p.Obj, Path: p.Path + "." + fieldName(deref(x.X.Type()), x.Field)})
	case *ssa.Field:
		if s, ok := in.val(ps, x.X).(VStruct); ok && x.Field < len(s.F) {
			return one(s.F[x.Field])
		}
		return one(in.symVal(st, in.U.Fresh("field"), x.Type()))
	case *ssa.IndexAddr:
		return in.indexAddr(fr, x, ps)
	case *ssa.Index:
		i := in.val(ps, x.Index).(VInt).L
		switch a := in.val(ps, x.X).(type) {
		case VArr:
			p, ok := in.check(fr, st, Ge(i), "index out of range", x.Pos())
			if !ok {
				return withPanics(nil, p)
			}
			p2, ok := in.check(fr, st, Ge(a.N.Sub(i).AddK(-1)), "index out of range", x.Pos())
			if !ok {
				return withPanics(nil, p, p2)
			}
			return withPanics(one(VInt{st.byteAt(a.C, i)}), p, p2)
		case VArray:
			return in.pickElem(fr, ps, a, i, x.Pos())
		case VStr:
			p, _ := in.check(fr, st, Ge(i), "index out of range", x.Pos())
			p2, ok := in.check(fr, st, Ge(a.N.Sub(i).AddK(-1)), "index out of range", x.Pos())
			if !ok {
				return withPanics(nil, p, p2)
			}
			return withPanics(one(VInt{st.byteAt(a.C, i)}), p, p2)
		}
		return one(in.symVal(st, in.U.Fresh("index"), x.Type()))
	case *ssa.Lookup:
		return in.lookup(fr, x, ps)
	case *ssa.Slice:
		return in.slice(fr, x, ps)
	case *ssa.MakeSlice:
		n := in.val(ps, x.Len).(VInt).L
		c := in.val(ps, x.Cap).(VInt).L
		p, ok := in.check(fr, st, Ge(n), "makeslice: len out of range", x.Pos())
		if !ok {
			return withPanics(nil, p)
		}
		p2, ok := in.check(fr, st, Ge(c.Sub(n)), "makeslice: cap out of range", x.Pos())
		if !ok {
			return withPanics(nil, p, p2)
		}
		el := under(x.Type()).(*types.Slice).Elem()
		o := in.newObj(OAlloc, "make@"+fr.fn.Name(), x.Type(), x)
		if isByte(el) {
			st.heap[cell{o, ""}] = VArr{Content{ZeroSeg(c)}, c}
		}
		st.Event(&Event{Kind: "make", Pos: x.Pos(), Fn: fr.fn, L: []Lin{n, c}})
		return withPanics(one(VSlice{Obj: o, Off: K(0), Len: n, Cap: c, Elem: el}), p, p2)
	case *ssa.MakeMap:
		o := in.newObj(OAlloc, "map@"+fr.fn.Name(), x.Type(), x)
		st.heap[cell{o, "#map"}] = &MapVal{}
		return one(VMap{o})
	case *ssa.MakeChan:
		in.nobj++
		k := fmt.Sprintf("make#%d@%s", in.nobj, fr.fn.Name())
		st.Event(&Event{Kind: "makechan", Name: k, Pos: x.Pos(), Fn: fr.fn, Args: []Val{in.val(ps, x.Size)}})
		return one(VChan{k})
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range x.Bindings {
			b = append(b, in.val(ps, v))
		}
		return one(VFunc{Fn: x.Fn.(*ssa.Function), Bind: b})
	case *ssa.MakeInterface:
		return one(VIface{Dyn: x.X.Type(), V: in.val(ps, x.X), Typ: x.Type()})
	case *ssa.ChangeInterface:
		v := in.val(ps, x.X)
		if i, ok := v.(VIface); ok {
			i.Typ = x.Type()
			return one(i)
		}
		return one(v)
	case *ssa.ChangeType:
		return one(in.val(ps, x.X))
	case *ssa.Convert:
		return one(in.convert(fr, x, ps))
	case *ssa.Extract:
		switch t := in.val(ps, x.Tuple).(type) {
		case VTuple:
			if x.Index < len(t.E) {
				return one(t.E[x.Index])
			}
		}
		return one(in.symVal(st, in.U.Fresh("extract"), x.Type()))
	case *ssa.TypeAssert:
		return in.typeAssert(fr, x, ps)
	case *ssa.MapUpdate:
		return in.mapUpdate(fr, x, ps)
	case *ssa.Call:
		fn, args := in.callee(ps, &x.Call)
		return in.invoke(fr, ps, x.Call, fn, args, x)
	case *ssa.Go:
		fn, args := in.callee(ps, &x.Call)
		st.Event(&Event{Kind: "go", Name: in.calleeName(&x.Call, fn), Pos: x.Pos(), Fn: fr.fn, Args: args, Recv: fn, Stack: fr.stack()})
		return []CallRes{{st: st}}
	case *ssa.Send:
		st.Event(&Event{Kind: "send", Pos: x.Pos(), Fn: fr.fn, Recv: in.val(ps, x.Chan), Args: []Val{in.val(ps, x.X)}, Snap: st.snap([]Val{in.val(ps, x.X)}), Block: true, Stack: fr.stack()})
		return []CallRes{{st: st}}
	case *ssa.Select:
		return in.selectStmt(fr, x, ps)
	case *ssa.Range:
		v := in.val(ps, x.X)
		if m, ok := v.(VMap); ok && !in.initMode {
			if n := len(st.mapVal(m).K); n > 1 && !st.mapVal(m).Unknown {
				// the order is not defined
				var out []CallRes
				for i, o := range iterOrders(n) {
					s := st
					if i > 0 {
						s = st.Clone()
					}
					out = append(out, CallRes{st: s, v: VTuple{[]Val{v, VInt{K(0)}, o}}})
				}
				return out
			}
		}
		return one(VTuple{[]Val{v, VInt{K(0)}}})
	case *ssa.Next:
		return in.next(fr, x, ps)
	case *ssa.SliceToArrayPointer:
		s, ok := in.val(ps, x.X).(VSlice)
		n := deref(x.Type()).Underlying().(*types.Array).Len()
		if ok && s.Obj != nil && s.Off.IsConst() && s.Off.C == 0 {
			p, ok := in.check(fr, st, Ge(s.Len.AddK(-n)), "slice to array conversion", x.Pos())
			if !ok {
				return withPanics(nil, p)
			}
			return withPanics(one(VPtr{Obj: s.Obj, Path: s.Path}), p)
		}
	}
	in.undecided(fr, ins.Pos(), fmt.Sprintf("instruction %T not modelled", ins))
	if v, ok := ins.(ssa.Value); ok {
		return one(in.symVal(st, in.U.Fresh("unk"), v.Type()))
	}
	return []CallRes{{st: st}}
}

func (in *Interp) pickElem(fr *Frame, ps *PS, a VArray, i Lin, pos token.Pos) []CallRes {
	st := ps.st
	if i.IsConst() {
		if i.C >= 0 && i.C < int64(len(a.E)) {
			return []CallRes{{st: st, v: a.E[i.C]}}
		}
		st.panicV = &panicInfo{Msg: "index out of range", Pos: pos, Fn: fr.fn}
		return []CallRes{{st: st, panic: true}}
	}
	p, _ := in.check(fr, st, Ge(i), "index out of range", pos)
	p2, ok := in.check(fr, st, Ge(K(int64(len(a.E))).Sub(i).AddK(-1)), "index out of range", pos)
	if !ok {
		return withPanics(nil, p, p2)
	}
	if v, ok := in.linearTable(st, a.E, i); ok {
		return withPanics([]CallRes{{st: st, v: v}}, p, p2)
	}
	v := in.symVal(st, "elem("+valKey(a)+","+i.Key()+")", under(a.T).(*types.Array).Elem())
	return withPanics([]CallRes{{st: st, v: v}}, p, p2)
}

// linearTable looks up a constant table that is affine over GF(2).
func (in *Interp) linearTable(st *State, e []Val, i Lin) (Val, bool) {
	n := len(e)
	if n == 0 || n&(n-1) != 0 {
		return nil, false
	}
	t := make([]int64, n)
	for k, v := range e {
		x, ok := v.(VInt)
		if !ok || !x.L.IsConst() || x.L.C < 0 {
			return nil, false
		}
		t[k] = x.L.C
	}
	for k := range t {
		if k&(k-1) != 0 {
			low := k & -k
			if t[k]^t[0] != t[low]^t[0]^t[k&^low]^t[0] {
				return nil, false
			}
		}
	}
	w := 0
	for 1<<uint(w) < n {
		w++
	}
	bits := in.U.BitsOf(i, w)
	r := make([]Bit, 63)
	for b := range r {
		r[b].C = t[0]>>uint(b)&1 == 1
		for k := 0; k < w; k++ {
			if (t[1<<uint(k)]^t[0])>>uint(b)&1 == 1 {
				r[b] = r[b].Xor(bits[k])
			}
		}
	}
	return VInt{in.U.FromBits(r)}, true
}

func (in *Interp) unop(fr *Frame, x *ssa.UnOp, ps *PS) []CallRes {
	st := ps.st
	v := in.val(ps, x.X)
	switch x.Op {
	case token.MUL:
		return in.load(fr, x.Pos(), ps, v, x.Type())
	case token.NOT:
		if b, ok := v.(VBool); ok {
			return []CallRes{{st: st, v: VBool{b.C.Not()}}}
		}
	case token.SUB:
		if i, ok := v.(VInt); ok {
			w, s := in.intInfo(x.Type())
			if r, ok := in.spread(st, i.L, -1, w, s); ok {
				return []CallRes{{st: st, v: VInt{r}}}
			}
			return []CallRes{{st: st, v: VInt{in.fixRange(st, i.L.Neg(), x.Type())}}}
		}
	case token.XOR:
		if i, ok := v.(VInt); ok {
			w, s := in.intInfo(x.Type())
			if s {
				return []CallRes{{st: st, v: VInt{i.L.Neg().AddK(-1)}}}
			}
			b := in.U.BitsOf(i.L, w)
			for k := range b {
				b[k].C = !b[k].C
			}
			return []CallRes{{st: st, v: VInt{in.U.FromBits(b)}}}
		}
	case token.ARROW:
		t := x.Type()
		if x.CommaOk {
			t = t.(*types.Tuple).At(0).Type()
		}
		in.received(st, v)
		name := in.U.Fresh("recv")
		r := in.symVal(st, name, t)
		okv := in.symVal(st, name+".ok", types.Typ[types.Bool])
		st.Event(&Event{Kind: "recv", Pos: x.Pos(), Fn: fr.fn, Recv: v, Res: []Val{r, okv}, Block: true, Stack: fr.stack()})
		if x.CommaOk {
			return []CallRes{{st: st, v: VTuple{[]Val{r, okv}}}}
		}
		return []CallRes{{st: st, v: r}}
	}
	return []CallRes{{st: st, v: in.symVal(st, in.U.Fresh("unop"), x.Type())}}
}

func (in *Interp) load(fr *Frame, pos token.Pos, ps *PS, v Val, t types.Type) []CallRes {
	st := ps.st
	p, ok := v.(VPtr)
	if !ok {
		return []CallRes{{st: st, v: in.symVal(st, in.U.Fresh("load"), t)}}
	}
	if p.Obj == nil {
		st.panicV = &panicInfo{Msg: "nil pointer dereference", Pos: pos, Fn: fr.fn}
		return []CallRes{{st: st, panic: true}}
	}
	if p.Idx != nil {
		a := st.bytesOf(p.Obj, p.Path)
		if p.Obj.Shared {
			st.Event(&Event{Kind: "load", Pos: pos, Fn: fr.fn, Obj: p.Obj, Path: p.Path})
		}
		return []CallRes{{st: st, v: VInt{st.byteAt(a.C, *p.Idx)}}}
	}
	if in.Volatile != nil && in.Volatile(p.Obj, p.Path) {
		r := in.symVal(st, in.U.Fresh("vol:"+p.Obj.Name+p.Path), t)
		st.Event(&Event{Kind: "load", Pos: pos, Fn: fr.fn, Obj: p.Obj, Path: p.Path, Res: []Val{r}})
		return []CallRes{{st: st, v: r}}
	}
	if strings.HasPrefix(p.Path, "[") || strings.Contains(p.Path, "[") {
		if r, ok := in.loadTable(st, p, t); ok {
			return []CallRes{{st: st, v: r}}
		}
	}
	r := st.loadCell(p.Obj, p.Path, t)
	if p.Obj.Seen() {
		st.Event(&Event{Kind: "load", Pos: pos, Fn: fr.fn, Obj: p.Obj, Path: p.Path, Res: []Val{r}})
	}
	return []CallRes{{st: st, v: r}}
}

// loadTable: element of a constant table at an unknown index.
func (in *Interp) loadTable(st *State, p VPtr, t types.Type) (Val, bool) {
	i := strings.LastIndexByte(p.Path, '[')
	if i < 0 || !strings.HasPrefix(p.Path[i:], "[?") {
		return nil, false
	}
	at := cellType(p.Obj.Typ, p.Path[:i])
	if at == nil {
		return nil, false
	}
	arr, ok := under(at).(*types.Array)
	if !ok || !isInteger(arr.Elem()) {
		return nil, false
	}
	a, ok := st.loadCell(p.Obj, p.Path[:i], at).(VArray)
	if !ok {
		return nil, false
	}
	idx := in.symIndex[p.Path[i:]]
	return in.linearTable(st, a.E, idx)
}

func (in *Interp) store(fr *Frame, pos token.Pos, ps *PS, addr, v Val, t types.Type) []CallRes {
	st := ps.st
	p, ok := addr.(VPtr)
	if !ok {
		in.undecided(fr, pos, "store through an unknown pointer")
		return []CallRes{{st: st}}
	}
	if p.Obj == nil {
		st.panicV = &panicInfo{Msg: "nil pointer dereference", Pos: pos, Fn: fr.fn}
		return []CallRes{{st: st, panic: true}}
	}
	if p.Obj.Seen() || in.Escaped(st, p.Obj) {
		st.Event(&Event{Kind: "store", Pos: pos, Fn: fr.fn, Obj: p.Obj, Path: p.Path, Args: []Val{v}, Stack: fr.stack()})
	}
	if p.Idx != nil {
		i, ok := v.(VInt)
		if !ok {
			i = VInt{L1(in.U.Atom(in.U.Fresh("byte"), KOpaque, 0, 255))}
		}
		a := st.bytesOf(p.Obj, p.Path)
		st.bstores = append(st.bstores, bstore{cell{p.Obj, p.Path}, *p.Idx, i.L})
		st.heap[cell{p.Obj, p.Path}] = VArr{st.write(a.C, *p.Idx, Content{ValSeg(i.L)}, K(1)), a.N}
		return []CallRes{{st: st}}
	}
	if k := strings.LastIndex(p.Path, "["); k >= 0 {
		sym := strings.HasPrefix(p.Path[k:], "[?")
		for c := range st.heap {
			if c.o == p.Obj && len(c.path) > k && c.path[:k] == p.Path[:k] && c.path[k] == '[' && !strings.HasPrefix(c.path, p.Path) {
				end := strings.IndexByte(c.path[k:], ']') + k
				if sym || strings.HasPrefix(c.path[k:], "[?") {
					// may be the same element
					delete(st.heap, c)
					_ = end
					st.gen[p.Obj] = "'" + in.U.Fresh("elem")
				}
			}
		}
	}
	st.storeCell(p.Obj, p.Path, t, v)
	return []CallRes{{st: st}}
}

// Escaped: allocated here but already shared (kept simple: never).
func (in *Interp) Escaped(st *State, o *Obj) bool { return false }

func (in *Interp) indexAddr(fr *Frame, x *ssa.IndexAddr, ps *PS) []CallRes {
	st := ps.st
	iv, ok := in.val(ps, x.Index).(VInt)
	if !ok {
		return []CallRes{{st: st, v: in.symVal(st, in.U.Fresh("indexaddr"), x.Type())}}
	}
	i := iv.L
	path := func(base string) string {
		if i.IsConst() {
			return fmt.Sprintf("%s[%d]", base, i.C)
		}
		k := "[?" + i.Key() + "]"
		in.symIndex[k] = i
		return base + k
	}
	switch b := in.val(ps, x.X).(type) {
	case VSlice:
		p, ok := in.check(fr, st, Ge(i), "index out of range", x.Pos())
		if !ok {
			return withPanics(nil, p)
		}
		p2, ok := in.check(fr, st, Ge(b.Len.Sub(i).AddK(-1)), "index out of range", x.Pos())
		if !ok {
			return withPanics(nil, p, p2)
		}
		i = i.Add(b.Off)
		if b.Obj == nil {
			return withPanics(nil, p, p2)
		}
		if isByte(b.Elem) {
			return withPanics([]CallRes{{st: st, v: VPtr{Obj: b.Obj, Path: b.Path, Idx: &i}}}, p, p2)
		}
		return withPanics([]CallRes{{st: st, v: VPtr{Obj: b.Obj, Path: path(b.Path)}}}, p, p2)
	case VPtr: // pointer to array
		arr := under(deref(x.X.Type())).(*types.Array)
		p, ok := in.check(fr, st, Ge(i), "index out of range", x.Pos())
		if !ok {
			return withPanics(nil, p)
		}
		p2, ok := in.check(fr, st, Ge(K(arr.Len()).Sub(i).AddK(-1)), "index out of range", x.Pos())
		if !ok {
			return withPanics(nil, p, p2)
		}
		if isByte(arr.Elem()) {
			return withPanics([]CallRes{{st: st, v: VPtr{Obj: b.Obj, Path: b.Path, Idx: &i}}}, p, p2)
		}
		return withPanics([]CallRes{{st: st, v: VPtr{Obj: b.Obj, Path: path(b.Path)}}}, p, p2)
	}
	return []CallRes{{st: st, v: in.symVal(st, in.U.Fresh("indexaddr"), x.Type())}}
}

func (in *Interp) slice(fr *Frame, x *ssa.Slice, ps *PS) []CallRes {
	st := ps.st
	get := func(v ssa.Value, def Lin) Lin {
		if v == nil {
			return def
		}
		if i, ok := in.val(ps, v).(VInt); ok {
			return i.L
		}
		return L1(in.U.Atom(in.U.Fresh("idx"), KOpaque, negInf, posInf))
	}
	var pan []*State
	chk := func(c Cond) bool {
		p, ok := in.check(fr, st, c, "slice bounds out of range", x.Pos())
		if p != nil {
			pan = append(pan, p)
		}
		return ok
	}
	switch b := in.val(ps, x.X).(type) {
	case VStr:
		lo := get(x.Low, K(0))
		hi := get(x.High, b.N)
		if !chk(Ge(lo)) || !chk(Ge(hi.Sub(lo))) || !chk(Ge(b.N.Sub(hi))) {
			return withPanics(nil, pan...)
		}
		return withPanics([]CallRes{{st: st, v: VStr{st.cut(b.C, lo, hi.Sub(lo)), hi.Sub(lo)}}}, pan...)
	case VSlice:
		lo := get(x.Low, K(0))
		hi := get(x.High, b.Len)
		mx := get(x.Max, b.Cap)
		if !chk(Ge(lo)) || !chk(Ge(hi.Sub(lo))) || !chk(Ge(mx.Sub(hi))) || x.Max != nil && !chk(Ge(b.Cap.Sub(mx))) {
			return withPanics(nil, pan...)
		}
		r := b
		r.Off, r.Len, r.Cap = b.Off.Add(lo), hi.Sub(lo), mx.Sub(lo)
		return withPanics([]CallRes{{st: st, v: r}}, pan...)
	case VPtr:
		arr, ok := under(deref(x.X.Type())).(*types.Array)
		if !ok {
			break
		}
		n := K(arr.Len())
		lo := get(x.Low, K(0))
		hi := get(x.High, n)
		mx := get(x.Max, n)
		if !chk(Ge(lo)) || !chk(Ge(hi.Sub(lo))) || !chk(Ge(mx.Sub(hi))) || x.Max != nil && !chk(Ge(n.Sub(mx))) {
			return withPanics(nil, pan...)
		}
		return withPanics([]CallRes{{st: st, v: VSlice{Obj: b.Obj, Path: b.Path, Off: lo, Len: hi.Sub(lo), Cap: mx.Sub(lo), Elem: arr.Elem()}}}, pan...)
	}
	in.undecided(fr, x.Pos(), "slice of unknown value")
	return []CallRes{{st: st, v: in.symVal(st, in.U.Fresh("slice"), x.Type())}}
}

func (in *Interp) convert(fr *Frame, x *ssa.Convert, ps *PS) Val {
	st := ps.st
	v := in.val(ps, x.X)
	from, to := under(x.X.Type()), under(x.Type())
	tb, _ := to.(*types.Basic)
	fb, _ := from.(*types.Basic)
	switch {
	case tb != nil && fb != nil && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
		if i, ok := v.(VInt); ok {
			w, s := in.intInfo(x.Type())
			fw, fs := in.intInfo(x.X.Type())
			if i.L.IsConst() {
				return VInt{K(wrapConst(i.L.C, w, s))}
			}
			lo, hi := rangeOf(w, s)
			if (lo == negInf && (fs || fw < 64 || st.upper(i.L) < posInf) || lo != negInf && st.prove(i.L.AddK(-lo))) &&
				(hi == posInf && (w == 64 && (s == fs || fw < 64 || st.prove(i.L))) || hi != posInf && st.prove(i.L.Neg().AddK(hi))) {
				return v
			}
			bits := in.U.BitsOf(i.L, w)
			if !s {
				return VInt{in.U.FromBits(bits)}
			}
			u := in.U.FromBits(bits)
			return VInt{in.signed(u, w)}
		}
	case tb != nil && fb != nil && tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsInteger != 0:
		if i, ok := v.(VInt); ok {
			if tb.Kind() == types.Float64 && st.upper(i.L) <= 1<<53 && st.lower(i.L) >= -(1<<53) {
				l := i.L
				return VFloat{I: &l}
			}
			return VFloat{K: "conv(" + tb.Name() + "," + i.L.Key() + ")"}
		}
	case tb != nil && fb != nil && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsFloat != 0:
		if f, ok := v.(VFloat); ok && f.I != nil {
			return VInt{in.fixRange(st, *f.I, x.Type())}
		}
	case tb != nil && fb != nil && tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsFloat != 0:
		if f, ok := v.(VFloat); ok {
			if tb.Kind() == fb.Kind() || f.I != nil && f.I.IsConst() {
				return f
			}
			return VFloat{K: "conv(" + tb.Name() + "," + valKey(f) + ")"}
		}
	case tb != nil && tb.Info()&types.IsString != 0:
		switch y := v.(type) {
		case VSlice:
			if y.Obj == nil {
				return VStr{}
			}
			if isByte(y.Elem) {
				return VStr{st.sliceBytes(y), y.Len}
			}
		case VInt:
			if y.L.IsConst() {
				s := string(rune(y.L.C))
				return VStr{ConstContent(s), K(int64(len(s)))}
			}
		case VStr:
			return y
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		if sl, ok := to.(*types.Slice); ok && isByte(sl.Elem()) {
			if s, ok := v.(VStr); ok {
				o := in.newObj(OAlloc, "bytes@"+fr.fn.Name(), x.Type(), x)
				c := L1(in.U.Atom(in.U.Fresh("cap"), KOpaque, 0, 1<<40))
				st.addGe(c.Sub(s.N))
				st.heap[cell{o, ""}] = VArr{append(append(Content(nil), s.C...), ZeroSeg(c.Sub(s.N))), c}
				return VSlice{Obj: o, Off: K(0), Len: s.N, Cap: c, Elem: sl.Elem()}
			}
		}
	default:
		if _, ok := to.(*types.Slice); ok {
			return v
		}
	}
	return in.symVal(st, "conv("+shortType(x.Type())+","+valKey(v)+")", x.Type())
}

// signed reinterprets an unsigned word.
func (in *Interp) signed(u Lin, w int) Lin {
	if u.IsConst() {
		return K(wrapConst(u.C, w, true))
	}
	lo, hi := rangeOf(w, true)
	// the low bits of a signed value that fits are that value
	if b := in.U.BitsOf(u, w); len(b) == w && len(b[0].X) == 1 {
		if a := b[0].X[0].A; a.Kind == KWord || a.Lo >= lo && a.Hi <= hi {
			whole := true
			for i, x := range b {
				if x.C || len(x.X) != 1 || x.X[0].A != a || x.X[0].I != i {
					whole = false
					break
				}
			}
			if whole {
				if a.Kind != KWord {
					return L1(a)
				}
				if s := a.Sub.Atom1(); s != nil && s.Lo >= lo && s.Hi <= hi {
					return a.Sub
				}
			}
		}
	}
	a := in.U.Atom(fmt.Sprintf("s%d(%s)", w, u.Key()), KOpaque, lo, hi)
	a.Bits = nil
	if a.Sub.T == nil {
		a.Sub = u // its bits are those of u
		a.Kind = KSigned
		a.W = w
	}
	return L1(a)
}

func (in *Interp) typeAssert(fr *Frame, x *ssa.TypeAssert, ps *PS) []CallRes {
	st := ps.st
	v, ok := in.val(ps, x.X).(VIface)
	if !ok {
		return []CallRes{{st: st, v: in.symVal(st, in.U.Fresh("assert"), x.Type())}}
	}
	c := Cond{Op: CType, A: v, T: x.AssertedType}
	get := func(s *State) Val {
		r := s.resolve(v).(VIface)
		if _, isI := under(x.AssertedType).(*types.Interface); isI {
			r.Typ = x.AssertedType
			return r
		}
		return r.V
	}
	var out []CallRes
	yes, no := st.Clone(), st
	if yes.assume(c) {
		r := get(yes)
		if x.CommaOk {
			r = VTuple{[]Val{r, VBool{CTrue()}}}
		}
		out = append(out, CallRes{st: yes, v: r})
	}
	if no.assume(c.Not()) {
		if x.CommaOk {
			out = append(out, CallRes{st: no, v: VTuple{[]Val{in.zeroVal(x.AssertedType), VBool{CFalse()}}}})
		} else {
			no.panicV = &panicInfo{Msg: "interface conversion", Pos: x.Pos(), Fn: fr.fn}
			out = append(out, CallRes{st: no, panic: true})
		}
	}
	return out
}

// ---- maps ------------------------------------------------------------------

func (st *State) mapVal(m VMap) *MapVal {
	if m.Obj == nil {
		return &MapVal{}
	}
	if v, ok := st.heap[cell{m.Obj, "#map"}].(*MapVal); ok {
		return v
	}
	if v, ok := st.in.gheap[cell{m.Obj, "#map"}].(*MapVal); ok {
		return v
	}
	if m.Obj.Kind == OAlloc && st.gen[m.Obj] == "" {
		return &MapVal{}
	}
	return &MapVal{Unknown: true, Gen: m.Obj.Name + st.gen[m.Obj]}
}

func (in *Interp) lookup(fr *Frame, x *ssa.Lookup, ps *PS) []CallRes {
	st := ps.st
	key := in.val(ps, x.Index)
	if s, ok := in.val(ps, x.X).(VStr); ok {
		i := key.(VInt).L
		p, _ := in.check(fr, st, Ge(i), "index out of range", x.Pos())
		p2, ok := in.check(fr, st, Ge(s.N.Sub(i).AddK(-1)), "index out of range", x.Pos())
		if !ok {
			return withPanics(nil, p, p2)
		}
		return withPanics([]CallRes{{st: st, v: VInt{st.byteAt(s.C, i)}}}, p, p2)
	}
	m, ok := in.val(ps, x.X).(VMap)
	vt := x.Type()
	if x.CommaOk {
		vt = vt.(*types.Tuple).At(0).Type()
	}
	res := func(v Val, found Cond) Val {
		if x.CommaOk {
			return VTuple{[]Val{v, VBool{found}}}
		}
		return v
	}
	if !ok {
		return []CallRes{{st: st, v: in.symVal(st, in.U.Fresh("lookup"), x.Type())}}
	}
	mv := st.mapVal(m)
	if m.Obj != nil {
		e := &Event{Kind: "mapread", Pos: x.Pos(), Fn: fr.fn, Recv: m, Obj: m.Obj, Args: []Val{key}}
		if mv.Unknown {
			k := "map(" + mv.Gen + "," + valKey(key) + ")"
			e.L = []Lin{L1(in.U.Atom("in"+k, KOpaque, 0, 1)), in.mapLen(st, m)}
			if _, basic := under(vt).(*types.Basic); basic && !x.CommaOk {
				// whoever looks only at the value takes a zero for no entry
				e.Res = []Val{in.symVal(st, k, vt)}
			}
		}
		st.Event(e)
	}
	var out []CallRes
	for i := len(mv.K) - 1; i >= 0; i-- {
		c := in.eqCond(fr, ps, mv.K[i], key, under(x.X.Type()).(*types.Map).Key())
		if v, known := st.decide(c); known {
			if v {
				return append(out, CallRes{st: st, v: res(mv.V[i], CTrue())})
			}
			continue
		}
		n := st.Clone()
		if n.assume(c) {
			out = append(out, CallRes{st: n, v: res(mv.V[i], CTrue())})
		}
		if !st.assume(c.Not()) {
			return out
		}
	}
	if mv.Unknown {
		k := "map(" + mv.Gen + "," + valKey(key) + ")"
		found := Ge(L1(in.U.Atom("in"+k, KOpaque, 0, 1)).AddK(-1))
		n := st.Clone()
		if n.assume(found) {
			out = append(out, CallRes{st: n, v: res(in.symVal(n, k, vt), CTrue())})
		}
		if st.assume(found.Not()) {
			out = append(out, CallRes{st: st, v: res(in.zeroVal(vt), CFalse())})
		}
		return out
	}
	return append(out, CallRes{st: st, v: res(in.zeroVal(vt), CFalse())})
}

func (in *Interp) mapUpdate(fr *Frame, x *ssa.MapUpdate, ps *PS) []CallRes {
	st := ps.st
	m, ok := in.val(ps, x.Map).(VMap)
	if !ok {
		in.undecided(fr, x.Pos(), "update of an unknown map")
		return []CallRes{{st: st}}
	}
	if m.Obj == nil {
		st.panicV = &panicInfo{Msg: "assignment to entry in nil map", Pos: x.Pos(), Fn: fr.fn}
		return []CallRes{{st: st, panic: true}}
	}
	key, v := in.val(ps, x.Key), in.val(ps, x.Value)
	mv := st.mapVal(m)
	if m.Obj.Seen() {
		st.Event(&Event{Kind: "mapupdate", Pos: x.Pos(), Fn: fr.fn, Recv: m, Obj: m.Obj, Args: []Val{key, v}, L: []Lin{in.mapLen(st, m)}, Stack: fr.stack()})
	}
	n := &MapVal{Unknown: mv.Unknown, Gen: mv.Gen}
	for i := range mv.K {
		c := in.eqCond(fr, ps, mv.K[i], key, nil)
		if b, known := st.decide(c); known && b {
			continue
		} else if !known {
			n.Unknown, n.Gen = true, in.U.Fresh("map")
			continue
		}
		n.K, n.V = append(n.K, mv.K[i]), append(n.V, mv.V[i])
	}
	n.K, n.V = append(n.K, key), append(n.V, v)
	if mv.Unknown {
		n.Gen = in.U.Fresh("map")
		n.K, n.V = []Val{key}, []Val{v}
	}
	st.heap[cell{m.Obj, "#map"}] = n
	return []CallRes{{st: st}}
}

func (in *Interp) mapLen(st *State, m VMap) Lin {
	mv := st.mapVal(m)
	if !mv.Unknown {
		return K(int64(len(mv.K)))
	}
	return L1(in.U.Atom("maplen("+mv.Gen+")", KOpaque, 0, 1<<40))
}

func (in *Interp) next(fr *Frame, x *ssa.Next, ps *PS) []CallRes {
	st := ps.st
	t := x.Type().(*types.Tuple)
	it, _ := in.val(ps, x.Iter).(VTuple)
	if len(it.E) >= 2 {
		if s, ok := it.E[0].(VStr); ok {
			if c, ok := constBytes(s.C); ok {
				i := it.E[1].(VInt).L.C
				if int(i) >= len(c) {
					return []CallRes{{st: st, v: VTuple{[]Val{VBool{CFalse()}, VInt{K(0)}, VInt{K(0)}}}}}
				}
				for k, r := range c[i:] {
					_ = k
					n := len(string(r))
					ps.env[x.Iter] = VTuple{[]Val{s, VInt{K(i + int64(n))}}}
					return []CallRes{{st: st, v: VTuple{[]Val{VBool{CTrue()}, VInt{K(i)}, VInt{K(int64(r))}}}}}
				}
			}
		}
		if m, ok := it.E[0].(VMap); ok {
			mv := st.mapVal(m)
			if !mv.Unknown {
				i := it.E[1].(VInt).L.C
				if int(i) >= len(mv.K) {
					return []CallRes{{st: st, v: VTuple{[]Val{VBool{CFalse()}, in.zeroVal2(t.At(1).Type()), in.zeroVal2(t.At(2).Type())}}}}
				}
				j := i
				if len(it.E) > 2 {
					o := it.E[2].(VArray)
					if len(o.E) != len(mv.K) {
						in.undecided(fr, x.Pos(), "a map changes while it is iterated over")
						return nil
					}
					j = o.E[i].(VInt).L.C
				}
				ps.env[x.Iter] = VTuple{append([]Val{m, VInt{K(i + 1)}}, it.E[2:]...)}
				return []CallRes{{st: st, v: VTuple{[]Val{VBool{CTrue()}, mv.K[j], mv.V[j]}}}}
			}
		}
	}
	var e []Val
	name := in.U.Fresh("next")
	e = append(e, in.symVal(st, name+".ok", types.Typ[types.Bool]))
	for i := 1; i < t.Len(); i++ {
		if b, ok := t.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			e = append(e, VOpq{"none"})
			continue
		}
		e = append(e, in.symVal(st, fmt.Sprintf("%s.%d", name, i), t.At(i).Type()))
	}
	return []CallRes{{st: st, v: VTuple{e}}}
}

// iterOrders are orders in which n entries of a map may come: all of them if
// they are few, otherwise forwards, backwards and from the middle.
func iterOrders(n int) []Val {
	var res []Val
	add := func(p []int) {
		a := VArray{}
		for _, i := range p {
			a.E = append(a.E, VInt{K(int64(i))})
		}
		res = append(res, a)
	}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n > 4 {
		back, mid := make([]int, n), make([]int, n)
		for i := range p {
			back[i], mid[i] = n-1-i, (i+n/2)%n
		}
		add(p)
		add(back)
		add(mid)
		return res
	}
	var perm func(k int)
	perm = func(k int) {
		if k == n {
			add(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			perm(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	perm(0)
	return res
}

func (in *Interp) zeroVal2(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VOpq{"none"}
	}
	return in.zeroVal(t)
}

// ---- select ------------------------------------------------------------------

func (in *Interp) selectStmt(fr *Frame, x *ssa.Select, ps *PS) []CallRes {
	var cases []SelCase
	for _, s := range x.States {
		c := SelCase{Send: s.Dir == types.SendOnly, Ch: in.val(ps, s.Chan)}
		if s.Send != nil {
			c.Val = in.val(ps, s.Send)
		}
		cases = append(cases, c)
	}
	tup := x.Type().(*types.Tuple)
	n := len(cases)
	alts := n
	if !x.Blocking {
		alts++
	}
	var out []CallRes
	for k := 0; k < alts; k++ {
		st := ps.st
		if k < alts-1 {
			st = st.Clone()
		}
		idx := k
		if k == n {
			idx = -1
		}
		if k < n && !cases[k].Send && !in.received(st, cases[k].Ch) {
			continue
		}
		if k < n {
			if c, ok := cases[k].Ch.(VChan); ok && c.Key == "" {
				continue // never ready
			}
		}
		name := in.U.Fresh("sel")
		var e []Val
		e = append(e, VInt{K(int64(idx))})
		okv := VBool{CFalse()}
		if k < n && !cases[k].Send {
			okv = in.symVal(st, name+".ok", types.Typ[types.Bool]).(VBool)
		}
		e = append(e, okv)
		r := 0
		var got Val
		for j := 0; j < n; j++ {
			if cases[j].Send {
				continue
			}
			t := tup.At(2 + r).Type()
			if j == k {
				got = in.symVal(st, name+".val", t)
				e = append(e, got)
			} else {
				e = append(e, in.zeroVal(t))
			}
			r++
		}
		var sn []Content
		for _, cs := range cases {
			sn = append(sn, st.snap([]Val{cs.Val})...)
		}
		st.Event(&Event{Kind: "select", Pos: x.Pos(), Fn: fr.fn, Cases: cases, Case: idx, Block: x.Blocking, Snap: sn, Res: []Val{got, okv}, Stack: fr.stack()})
		out = append(out, CallRes{st: st, v: VTuple{e}})
	}
	return out
}
