package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee evaluates the function value and the arguments of a call. For an
// interface method call the receiver is args[0].
func (in *Interp) callee(ps *PS, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		args = append(args, in.val(ps, c.Value))
		for _, a := range c.Args {
			args = append(args, in.val(ps, a))
		}
		return nil, args
	}
	for _, a := range c.Args {
		args = append(args, in.val(ps, a))
	}
	return in.val(ps, c.Value), args
}

func (in *Interp) calleeName(c *ssa.CallCommon, fn Val) string {
	if c.IsInvoke() {
		return fmt.Sprintf("(%s).%s", types.TypeString(c.Value.Type(), nil), c.Method.Name())
	}
	if f, ok := fn.(VFunc); ok {
		if f.Fn != nil {
			return f.Fn.String()
		}
		return f.Atom
	}
	return "?"
}

func (in *Interp) invoke(fr *Frame, ps *PS, c ssa.CallCommon, fn Val, args []Val, site ssa.Instruction) []CallRes {
	st := ps.st
	if c.IsInvoke() {
		recv, ok := st.resolve(args[0]).(VIface)
		if !ok {
			return in.unknownCall(fr, ps, "invoke", args, c.Signature(), site)
		}
		if recv.Dyn == nil && recv.Atom == "" {
			st.panicV = &panicInfo{Msg: "nil interface method call", Pos: site.Pos(), Fn: fr.fn}
			return []CallRes{{st: st, panic: true}}
		}
		if recv.Dyn != nil && recv.Dyn != sentinelType {
			if m := in.Prog.LookupMethod(recv.Dyn, c.Method.Pkg(), c.Method.Name()); m != nil {
				a := append([]Val{recv.V}, args[1:]...)
				return in.callFn(fr, ps, m, nil, a, site)
			}
		}
		name := fmt.Sprintf("(%s).%s", types.TypeString(c.Value.Type(), nil), c.Method.Name())
		a := append([]Val{Val(recv)}, args[1:]...)
		if f := in.invokeModels[methodKey(c)]; f != nil {
			if r, ok := f(in, fr, ps, name, a, c.Signature(), site); ok {
				return r
			}
		}
		return in.unknownCall(fr, ps, name, a, c.Signature(), site)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, ps, b.Name(), args, c, site)
	}
	f, ok := fn.(VFunc)
	if !ok {
		return in.unknownCall(fr, ps, "func value", args, c.Signature(), site)
	}
	if f.Fn == nil {
		if f.Atom == "" {
			st.panicV = &panicInfo{Msg: "call of nil function", Pos: site.Pos(), Fn: fr.fn}
			return []CallRes{{st: st, panic: true}}
		}
		return in.unknownCall(fr, ps, f.Atom, args, c.Signature(), site)
	}
	return in.callFn(fr, ps, f.Fn, f.Bind, args, site)
}

func methodKey(c ssa.CallCommon) string {
	t := c.Value.Type()
	if n, ok := t.(*types.Named); ok {
		p := ""
		if n.Obj().Pkg() != nil {
			p = n.Obj().Pkg().Path() + "."
		}
		return p + n.Obj().Name() + "." + c.Method.Name()
	}
	return "?." + c.Method.Name()
}

// stdInline are library functions analysed from their source.
func stdInline(name string) bool {
	return strings.HasPrefix(name, "(encoding/binary.littleEndian).") || strings.HasPrefix(name, "(encoding/binary.bigEndian).") ||
		strings.HasPrefix(name, "(*encoding/binary.littleEndian).") || strings.HasPrefix(name, "(*encoding/binary.bigEndian).")
}

func (in *Interp) callFn(fr *Frame, ps *PS, fn *ssa.Function, bind, args []Val, site ssa.Instruction) []CallRes {
	st := ps.st
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if in.Opaque != nil {
		if tag, ok := in.Opaque(fn, ps, args); ok {
			return in.opaqueCall(fr, ps, tag, args, fn.Signature, site)
		}
	}
	if m := models[name]; m != nil {
		if r, ok := m(in, fr, ps, name, args, fn.Signature, site); ok {
			return r
		}
	}
	if len(fn.Blocks) > 0 && (fn.Pkg == nil || in.inRepo(fn.Pkg) || stdInline(name) || fn.Synthetic != "" && fn.Pkg == nil) {
		if fn.Pkg == nil && fn.Synthetic == "" {
			// instantiated generic or similar
			if o := fn.Origin(); o != nil && !in.inRepo(o.Pkg) {
				return in.unknownCall(fr, ps, name, args, fn.Signature, site)
			}
		}
		n := 0
		for f := fr; f != nil; f = f.caller {
			if f.fn == fn {
				n++
			}
		}
		if n > 3 {
			in.undecided(fr, site.Pos(), "recursion through "+name)
			return in.unknownCall(fr, ps, name, args, fn.Signature, site)
		}
		var out []CallRes
		for _, o := range in.Call(fn, args, bind, st, fr, site) {
			if o.Panic {
				out = append(out, CallRes{st: o.St, panic: true})
				continue
			}
			var v Val
			switch len(o.Rets) {
			case 0:
			case 1:
				v = o.Rets[0]
			default:
				v = VTuple{o.Rets}
			}
			out = append(out, CallRes{st: o.St, v: v})
		}
		if len(out) == 0 {
			return []CallRes{} // never returns
		}
		return out
	}
	return in.unknownCall(fr, ps, name, args, fn.Signature, site)
}

func (in *Interp) results(st *State, name string, sig *types.Signature) Val {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return in.symVal(st, name, r.At(0).Type())
	}
	return in.symVal(st, name, r)
}

func tupleElems(v Val) []Val {
	switch x := v.(type) {
	case nil:
		return nil
	case VTuple:
		return x.E
	}
	return []Val{v}
}

func (st *State) snap(args []Val) []Content {
	var out []Content
	for _, a := range args {
		var c Content
		if i, ok := a.(VIface); ok && i.Dyn != nil {
			a = i.V
		}
		if s, ok := a.(VSlice); ok && s.Obj != nil && isByte(s.Elem) {
			c = st.sliceBytes(s)
		}
		out = append(out, c)
	}
	return out
}

// opaqueCall records the call and yields unknown results without effects.
func (in *Interp) opaqueCall(fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) []CallRes {
	st := ps.st
	v := in.results(st, in.U.Fresh("ret:"+name), sig)
	st.Event(&Event{Kind: "call", Name: name, Pos: site.Pos(), Fn: fr.fn, Args: args, Snap: st.snap(args), Res: tupleElems(v), Stack: fr.stack()})
	return []CallRes{{st: st, v: v}}
}

// pureCall yields a result that depends only on the arguments.
func (in *Interp) pureCall(fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) []CallRes {
	st := ps.st
	v := in.results(st, name+"("+valKeys(args)+")", sig)
	st.Event(&Event{Kind: "call", Name: name, Pos: site.Pos(), Fn: fr.fn, Args: args, Res: tupleElems(v), Stack: fr.stack()})
	return []CallRes{{st: st, v: v}}
}

// unknownCall: unknown results; everything reachable from pointer arguments
// may change.
func (in *Interp) unknownCall(fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) []CallRes {
	st := ps.st
	sn := st.snap(args)
	v := in.results(st, in.U.Fresh("ret:"+name), sig)
	st.Event(&Event{Kind: "unknowncall", Name: name, Pos: site.Pos(), Fn: fr.fn, Args: args, Snap: sn, Res: tupleElems(v), Stack: fr.stack()})
	seen := map[*Obj]bool{}
	for _, a := range args {
		in.havocReach(st, a, seen)
	}
	return []CallRes{{st: st, v: v}}
}

func (in *Interp) havocReach(st *State, v Val, seen map[*Obj]bool) {
	do := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		var sub []Val
		for c, x := range st.heap {
			if c.o == o {
				sub = append(sub, x)
			}
		}
		st.havocObj(o, "h")
		for _, x := range sub {
			in.havocReach(st, x, seen)
		}
	}
	switch x := v.(type) {
	case VPtr:
		do(x.Obj)
	case VSlice:
		do(x.Obj)
	case VMap:
		do(x.Obj)
	case VIface:
		if x.Dyn != nil {
			in.havocReach(st, x.V, seen)
		}
	case VStruct:
		for _, f := range x.F {
			in.havocReach(st, f, seen)
		}
	case VFunc:
		for _, f := range x.Bind {
			in.havocReach(st, f, seen)
		}
	}
}

// ---- builtins ------------------------------------------------------------------

func (in *Interp) builtin(fr *Frame, ps *PS, name string, args []Val, c ssa.CallCommon, site ssa.Instruction) []CallRes {
	st := ps.st
	one := func(v Val) []CallRes { return []CallRes{{st: st, v: v}} }
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case VSlice:
			if x.Obj == nil {
				return one(VInt{K(0)})
			}
			if name == "cap" {
				return one(VInt{x.Cap})
			}
			return one(VInt{x.Len})
		case VStr:
			return one(VInt{x.N})
		case VArr:
			return one(VInt{x.N})
		case VArray:
			return one(VInt{K(int64(len(x.E)))})
		case VPtr:
			if a, ok := under(deref(c.Args[0].Type())).(*types.Array); ok {
				return one(VInt{K(a.Len())})
			}
		case VMap:
			return one(VInt{in.mapLen(st, x)})
		case VChan:
			return one(VInt{L1(in.U.Atom(in.U.Fresh("chlen"), KOpaque, 0, 1<<40))})
		}
	case "copy":
		dst, ok1 := args[0].(VSlice)
		n := K(0)
		var src Content
		var srcLen Lin
		switch s := args[1].(type) {
		case VSlice:
			srcLen = s.Len
			if s.Obj == nil {
				srcLen = K(0)
			} else if isByte(s.Elem) {
				src = st.sliceBytes(s)
				if s.Obj.Shared {
					st.Event(&Event{Kind: "load", Pos: site.Pos(), Fn: fr.fn, Obj: s.Obj, Path: s.Path})
				}
			}
			if ok1 && dst.Obj != nil && !isByte(dst.Elem) {
				in.undecided(fr, site.Pos(), "copy of non-byte elements")
				st.havocObj(dst.Obj, "copy")
				return one(in.symVal(st, in.U.Fresh("copied"), types.Typ[types.Int]))
			}
		case VStr:
			srcLen, src = s.N, s.C
		default:
			ok1 = false
		}
		if !ok1 {
			in.undecided(fr, site.Pos(), "copy of unknown values")
			return one(in.symVal(st, in.U.Fresh("copied"), types.Typ[types.Int]))
		}
		if dst.Obj == nil {
			return one(VInt{n})
		}
		cnd := Ge(dst.Len.Sub(srcLen)) // source fits
		do := func(s *State, n Lin) CallRes {
			if dst.Obj.Seen() {
				s.Event(&Event{Kind: "store", Pos: site.Pos(), Fn: fr.fn, Obj: dst.Obj, Path: dst.Path, Stack: fr.stack()})
			}
			s.writeBytes(dst, K(0), s.cut(src, K(0), n), n)
			return CallRes{st: s, v: VInt{n}}
		}
		if v, k := st.decide(cnd); k {
			if v {
				return []CallRes{do(st, srcLen)}
			}
			return []CallRes{do(st, dst.Len)}
		}
		var out []CallRes
		o := st.Clone()
		if st.assume(cnd) {
			out = append(out, do(st, srcLen))
		}
		if o.assume(cnd.Not()) {
			out = append(out, do(o, dst.Len))
		}
		return out
	case "append":
		return in.appendBuiltin(fr, ps, args, c, site)
	case "close":
		st.Event(&Event{Kind: "close", Pos: site.Pos(), Fn: fr.fn, Recv: args[0], Stack: fr.stack()})
		return []CallRes{{st: st}}
	case "delete":
		if m, ok := args[0].(VMap); ok && m.Obj != nil {
			st.Event(&Event{Kind: "mapdelete", Pos: site.Pos(), Fn: fr.fn, Obj: m.Obj, Recv: m, Args: args[1:], Stack: fr.stack()})
			mv := st.mapVal(m)
			n := &MapVal{Unknown: mv.Unknown, Gen: mv.Gen}
			if mv.Unknown {
				n.Gen = in.U.Fresh("map")
			} else {
				for i := range mv.K {
					cd := in.eqCond(fr, ps, mv.K[i], args[1], nil)
					if b, known := st.decide(cd); known && b {
						continue
					} else if !known {
						n.Unknown, n.Gen = true, in.U.Fresh("map")
						continue
					}
					n.K, n.V = append(n.K, mv.K[i]), append(n.V, mv.V[i])
				}
			}
			st.heap[cell{m.Obj, "#map"}] = n
		}
		return []CallRes{{st: st}}
	case "recover":
		t := types.NewInterfaceType(nil, nil)
		if st.panicV != nil && fr.caller != nil {
			st.panicV = nil
			return one(VIface{Dyn: types.Typ[types.String], V: VStr{ConstContent("panic"), K(5)}, Typ: t})
		}
		return one(VIface{Typ: t})
	case "panic":
		st.panicV = &panicInfo{Msg: "explicit panic", Pos: site.Pos(), Fn: fr.fn}
		return []CallRes{{st: st, panic: true}}
	case "min", "max":
		// pairwise by case distinction
		type alt struct {
			st *State
			v  Val
		}
		alts := []alt{{st, args[0]}}
		for _, a := range args[1:] {
			var nxt []alt
			for _, b := range alts {
				x, ok1 := b.v.(VInt)
				y, ok2 := a.(VInt)
				if !ok1 || !ok2 {
					nxt = append(nxt, alt{b.st, VOpq{in.U.Fresh("minmax")}})
					continue
				}
				cd := Ge(y.L.Sub(x.L)) // x <= y
				lo, hi := Val(x), Val(y)
				if name == "max" {
					lo, hi = hi, lo
				}
				if v, k := b.st.decide(cd); k {
					if v {
						nxt = append(nxt, alt{b.st, lo})
					} else {
						nxt = append(nxt, alt{b.st, hi})
					}
					continue
				}
				o := b.st.Clone()
				if b.st.assume(cd) {
					nxt = append(nxt, alt{b.st, lo})
				}
				if o.assume(cd.Not()) {
					nxt = append(nxt, alt{o, hi})
				}
			}
			alts = nxt
		}
		var out []CallRes
		for _, a := range alts {
			out = append(out, CallRes{st: a.st, v: a.v})
		}
		return out
	case "clear":
		if m, ok := args[0].(VMap); ok && m.Obj != nil {
			if m.Obj.Seen() {
				st.Event(&Event{Kind: "mapdelete", Pos: site.Pos(), Fn: fr.fn, Obj: m.Obj, Recv: m, Stack: fr.stack()})
			}
			st.heap[cell{m.Obj, "#map"}] = &MapVal{}
			return []CallRes{{st: st}}
		}
		if s, ok := args[0].(VSlice); ok && s.Obj != nil && isByte(s.Elem) {
			if s.Obj.Seen() {
				st.Event(&Event{Kind: "store", Pos: site.Pos(), Fn: fr.fn, Obj: s.Obj, Path: s.Path, Stack: fr.stack()})
			}
			st.writeBytes(s, K(0), Content{ZeroSeg(s.Len)}, s.Len)
			return []CallRes{{st: st}}
		}
	case "print", "println":
		st.Event(&Event{Kind: "print", Name: name, Pos: site.Pos(), Fn: fr.fn, Args: args})
		return []CallRes{{st: st}}
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	in.undecided(fr, site.Pos(), "builtin "+name+" not modelled here")
	if v, ok := site.(ssa.Value); ok {
		return one(in.symVal(st, in.U.Fresh(name), v.Type()))
	}
	return []CallRes{{st: st}}
}

func (in *Interp) appendBuiltin(fr *Frame, ps *PS, args []Val, c ssa.CallCommon, site ssa.Instruction) []CallRes {
	st := ps.st
	s, ok := args[0].(VSlice)
	if !ok {
		in.undecided(fr, site.Pos(), "append to unknown slice")
		return []CallRes{{st: st, v: in.symVal(st, in.U.Fresh("append"), site.(ssa.Value).Type())}}
	}
	var add Content
	n := K(0)
	var el []Val
	switch a := args[1].(type) {
	case VStr:
		add, n = a.C, a.N
	case VSlice:
		if a.Obj == nil {
			return []CallRes{{st: st, v: s}}
		}
		n = a.Len
		if isByte(a.Elem) {
			add = st.sliceBytes(a)
		} else if a.Len.IsConst() && a.Off.IsConst() {
			for i := int64(0); i < a.Len.C; i++ {
				el = append(el, st.loadCell(a.Obj, fmt.Sprintf("%s[%d]", a.Path, a.Off.C+i), a.Elem))
			}
		}
	}
	if !isByte(s.Elem) {
		// a new backing array with the known elements
		o := in.newObj(OAlloc, "append@"+fr.fn.Name(), types.NewSlice(s.Elem), site)
		if s.Obj == nil {
			s.Off, s.Len, s.Cap = K(0), K(0), K(0)
		}
		if s.Len.IsConst() && s.Off.IsConst() && n.IsConst() && (s.Obj == nil || s.Obj.Kind == OAlloc) {
			for i := int64(0); i < s.Len.C; i++ {
				st.storeCell(o, fmt.Sprintf("[%d]", i), s.Elem, st.loadCell(s.Obj, fmt.Sprintf("%s[%d]", s.Path, s.Off.C+i), s.Elem))
			}
			for i, v := range el {
				st.storeCell(o, fmt.Sprintf("[%d]", s.Len.C+int64(i)), s.Elem, v)
			}
		} else {
			st.gen[o] = "'" + in.U.Fresh("app")
		}
		r := VSlice{Obj: o, Off: K(0), Len: s.Len.Add(n), Cap: s.Len.Add(n), Elem: s.Elem}
		st.Event(&Event{Kind: "append", Pos: site.Pos(), Fn: fr.fn, Args: []Val{s, r}, L: []Lin{n}})
		return []CallRes{{st: st, v: r}}
	}
	if s.Obj == nil {
		s.Off, s.Len, s.Cap = K(0), K(0), K(0)
	}
	total := s.Len.Add(n)
	inPlace := func(q *State) CallRes {
		if s.Obj.Seen() {
			q.Event(&Event{Kind: "store", Pos: site.Pos(), Fn: fr.fn, Obj: s.Obj, Path: s.Path, Stack: fr.stack(), Name: "append"})
		}
		q.writeBytes(s, s.Len, add, n)
		r := s
		r.Len = total
		return CallRes{st: q, v: r}
	}
	grow := func(q *State) CallRes {
		o := in.newObj(OAlloc, "append@"+fr.fn.Name(), types.NewSlice(s.Elem), site)
		cp := L1(in.U.Atom(in.U.Fresh("cap"), KOpaque, 0, 1<<40))
		q.addGe(cp.Sub(total))
		var cont Content
		cont = append(cont, q.sliceBytes(s)...)
		cont = append(cont, add...)
		cont = q.norm(append(cont, ZeroSeg(cp.Sub(total))))
		q.heap[cell{o, ""}] = VArr{cont, cp}
		q.Event(&Event{Kind: "append", Pos: site.Pos(), Fn: fr.fn, Args: []Val{s}, L: []Lin{n}})
		return CallRes{st: q, v: VSlice{Obj: o, Off: K(0), Len: total, Cap: cp, Elem: s.Elem}}
	}
	if s.Obj == nil {
		if n.IsConst() && n.C == 0 {
			return []CallRes{{st: st, v: VSlice{Elem: s.Elem}}}
		}
		return []CallRes{grow(st)}
	}
	fits := Ge(s.Cap.Sub(total))
	if v, k := st.decide(fits); k {
		if v {
			return []CallRes{inPlace(st)}
		}
		return []CallRes{grow(st)}
	}
	var out []CallRes
	q := st.Clone()
	if st.assume(fits) {
		out = append(out, inPlace(st))
	}
	if q.assume(fits.Not()) {
		out = append(out, grow(q))
	}
	return out
}
