package main

// Models of the library functions the repository uses (or could reasonably
// use instead): memory effects and results in the abstract domains.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool)

var models map[string]model

func ret(st *State, vs ...Val) []CallRes {
	switch len(vs) {
	case 0:
		return []CallRes{{st: st}}
	case 1:
		return []CallRes{{st: st, v: vs[0]}}
	}
	return []CallRes{{st: st, v: VTuple{vs}}}
}

func nilErr() Val { return VIface{Typ: errIface} }

func vint(n int64) Val { return VInt{K(n)} }

// opaque error that is not nil
func (in *Interp) someErr(st *State, name string) Val {
	n := in.U.Fresh("err:" + name)
	st.setIf(n, func(f *ifFact) { f.ne["nil"] = true })
	return VIface{Atom: n, Typ: errIface}
}

func unIface(v Val) Val {
	if i, ok := v.(VIface); ok && i.Dyn != nil {
		return i.V
	}
	return v
}

// ---- byte buffers --------------------------------------------------------------

// A buffer keeps the slice of its unread bytes in the cell "#buf".
func (st *State) bufGet(p VPtr) VSlice {
	if v, ok := st.heap[cell{p.Obj, p.Path + "#buf"}].(VSlice); ok {
		return v
	}
	if p.Obj.Kind == OAlloc && st.gen[p.Obj] == "" {
		return VSlice{Elem: types.Typ[types.Uint8]}
	}
	v := st.in.symVal(st, p.Obj.Name+p.Path+"#buf"+st.gen[p.Obj], types.NewSlice(types.Typ[types.Uint8])).(VSlice)
	st.heap[cell{p.Obj, p.Path + "#buf"}] = v
	return v
}

func (st *State) bufSet(p VPtr, s VSlice) { st.heap[cell{p.Obj, p.Path + "#buf"}] = s }

func (st *State) bufContent(p VPtr) (Content, Lin) {
	s := st.bufGet(p)
	if s.Obj == nil {
		return nil, K(0)
	}
	return st.sliceBytes(s), s.Len
}

// bufWrite appends to the buffer. The bytes move to new memory, as they may
// in reality at any time.
func (st *State) bufWrite(p VPtr, add Content, n Lin, site ssa.Instruction) {
	c, m := st.bufContent(p)
	o := st.in.newObj(OAlloc, "bufmem", types.NewSlice(types.Typ[types.Uint8]), site)
	total := m.Add(n)
	cp := L1(st.u.Atom(st.u.Fresh("cap"), KOpaque, 0, 1<<40))
	st.addGe(cp.Sub(total))
	nc := append(append(append(Content(nil), c...), add...), ZeroSeg(cp.Sub(total)))
	st.heap[cell{o, ""}] = VArr{st.norm(nc), cp}
	st.bufSet(p, VSlice{Obj: o, Off: K(0), Len: total, Cap: cp, Elem: types.Typ[types.Uint8]})
}

func bufPtr(v Val) (VPtr, bool) {
	p, ok := unIface(v).(VPtr)
	return p, ok && p.Obj != nil
}

// strOf: content and length of a string or byte slice argument.
func (st *State) strOf(v Val) (Content, Lin, bool) {
	switch x := unIface(v).(type) {
	case VStr:
		return x.C, x.N, true
	case VSlice:
		if x.Obj == nil {
			return nil, K(0), true
		}
		if isByte(x.Elem) {
			return st.sliceBytes(x), x.Len, true
		}
	}
	return nil, K(0), false
}

// writeTo sends text to a writer value; false: unknown kind of writer.
func (in *Interp) writeTo(fr *Frame, st *State, w Val, c Content, n Lin, site ssa.Instruction) bool {
	i, ok := st.resolve(w).(VIface)
	if ok && i.Dyn == nil {
		return false
	}
	var t types.Type
	if ok {
		t = i.Dyn
		w = i.V
	}
	p, ok := w.(VPtr)
	if !ok || p.Obj == nil || t == nil {
		return false
	}
	switch t.String() {
	case "*bytes.Buffer", "*strings.Builder", "*bufio.Writer":
		st.bufWrite(p, c, n, site)
		return true
	case "*text/tabwriter.Writer":
		k := cell{p.Obj, p.Path + "#tw"}
		old, _ := st.heap[k].(VStr)
		st.heap[k] = VStr{st.norm(append(append(Content(nil), old.C...), c...)), old.N.Add(n)}
		return true
	case "*os.File":
		st.Event(&Event{Kind: "print", Pos: site.Pos(), Fn: fr.fn, Args: []Val{VStr{c, n}}, Snap: []Content{st.flatten(c)}})
		return true
	}
	return false
}

// ---- formatting --------------------------------------------------------------

func (in *Interp) fmtPiece(st *State, verb string, a Val) Seg {
	a = st.resolve(a)
	n := L1(in.U.Atom("fmtlen("+verb+","+valKey(a)+")", KOpaque, 0, 1<<30))
	return Seg{Kind: SegFmt, Verb: verb, Arg: a, Len: n}
}

func (in *Interp) fmtArg(st *State, verb string, a Val) Content {
	v := unIface(st.resolve(a))
	switch verb {
	case "%v", "%s", "%d":
		switch x := v.(type) {
		case VStr:
			if verb != "%d" {
				return x.C
			}
		case VInt:
			if x.L.IsConst() && verb != "%s" {
				return ConstContent(strconv.FormatInt(x.L.C, 10))
			}
		}
	}
	return Content{in.fmtPiece(st, verb, a)}
}

// format expands a constant format string.
func (in *Interp) format(st *State, f string, args []Val) (Content, bool) {
	var out Content
	lit := ""
	flush := func() {
		out = append(out, ConstContent(lit)...)
		lit = ""
	}
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit += "%!(NOVERB)"
			break
		}
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if f[j] == '*' || f[j] == '[' {
			return nil, false
		}
		verb := f[i : j+1]
		i = j
		if ai >= len(args) {
			lit += "%!" + string(f[j]) + "(MISSING)"
			continue
		}
		flush()
		out = append(out, in.fmtArg(st, verb, args[ai])...)
		ai++
	}
	if ai < len(args) {
		lit += "%!(EXTRA)"
	}
	flush()
	return st.norm(out), true
}

// variadic gives the elements of a ...interface{} argument.
func (st *State) variadic(v Val) ([]Val, bool) {
	s, ok := v.(VSlice)
	if !ok {
		return nil, false
	}
	if s.Obj == nil {
		return nil, true
	}
	if !s.Len.IsConst() || !s.Off.IsConst() {
		return nil, false
	}
	var out []Val
	for i := int64(0); i < s.Len.C; i++ {
		out = append(out, st.loadCell(s.Obj, fmt.Sprintf("%s[%d]", s.Path, s.Off.C+i), s.Elem))
	}
	return out, true
}

// sprint: kind "f", "ln" or "".
func (in *Interp) sprint(fr *Frame, st *State, kind string, args []Val, site ssa.Instruction) (Content, bool) {
	if kind == "f" {
		f, ok := args[0].(VStr)
		if !ok {
			return nil, false
		}
		s, ok := constBytes(f.C)
		if !ok {
			return nil, false
		}
		a, ok := st.variadic(args[1])
		if !ok {
			return nil, false
		}
		return in.format(st, s, a)
	}
	a, ok := st.variadic(args[0])
	if !ok {
		return nil, false
	}
	var out Content
	for i, x := range a {
		if i > 0 {
			_, s1 := unIface(st.resolve(a[i-1])).(VStr)
			_, s2 := unIface(st.resolve(x)).(VStr)
			if kind == "ln" || !s1 && !s2 {
				out = append(out, ConstContent(" ")...)
			}
		}
		out = append(out, in.fmtArg(st, "%v", x)...)
	}
	if kind == "ln" {
		out = append(out, ConstContent("\n")...)
	}
	return st.norm(out), true
}

// ---- fixed-size binary data ------------------------------------------------------

// dataSize is the encoded size of t under encoding/binary, -1 if it has none.
func dataSize(t types.Type) int64 {
	switch x := under(t).(type) {
	case *types.Basic:
		switch x.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64, types.Complex64:
			return 8
		case types.Complex128:
			return 16
		}
	case *types.Array:
		n := dataSize(x.Elem())
		if n < 0 {
			return -1
		}
		return n * x.Len()
	case *types.Struct:
		s := int64(0)
		for i := 0; i < x.NumFields(); i++ {
			n := dataSize(x.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

// hasPrivate: encoding/binary panics on such a struct.
func hasPrivate(t types.Type) bool {
	switch x := under(t).(type) {
	case *types.Array:
		return hasPrivate(x.Elem())
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			if f.Name() != "_" && !f.Exported() || f.Name() != "_" && hasPrivate(f.Type()) {
				return true
			}
		}
	}
	return false
}

func (in *Interp) wordFrom(st *State, c Content, off Lin, n int, big bool) Lin {
	r := K(0)
	for i := 0; i < n; i++ {
		j := i
		if big {
			j = n - 1 - i
		}
		b := st.byteAt(c, off.AddK(int64(j)))
		if i < 7 || b.IsConst() {
			r = r.AddMul(b, int64(1)<<uint(8*i))
		} else {
			// the top byte of a 64-bit word
			bits := make([]Bit, 64)
			copy(bits, in.U.BitsOf(r, 56))
			copy(bits[56:], in.U.BitsOf(b, 8))
			return in.U.FromBits(bits)
		}
	}
	// values split into bytes and put together again are whole
	return in.U.FromBits(in.U.BitsOf(r, 8*n))
}

func (in *Interp) decode(st *State, c Content, off Lin, t types.Type, big bool) Val {
	switch x := under(t).(type) {
	case *types.Basic:
		n := int(dataSize(t))
		if x.Info()&types.IsBoolean != 0 {
			b := st.byteAt(c, off)
			if b.IsConst() {
				return VBool{CB(b.C != 0)}
			}
			return VBool{Eq0(b).Not()}
		}
		w := in.wordFrom(st, c, off, n, big)
		if x.Info()&types.IsFloat != 0 {
			return in.floatFromBits(w, n)
		}
		if x.Info()&types.IsInteger != 0 {
			if _, s := in.intInfo(t); s {
				return VInt{in.signed(w, 8*n)}
			}
			return VInt{w}
		}
	case *types.Array:
		if isByte(x.Elem()) {
			return VArr{st.flatten(st.cut(c, off, K(x.Len()))), K(x.Len())}
		}
		es := dataSize(x.Elem())
		var e []Val
		for i := int64(0); i < x.Len(); i++ {
			e = append(e, in.decode(st, c, off.AddK(i*es), x.Elem(), big))
		}
		return VArray{t, e}
	case *types.Struct:
		var f []Val
		for i := 0; i < x.NumFields(); i++ {
			ft := x.Field(i).Type()
			if x.Field(i).Name() == "_" {
				f = append(f, in.zeroVal(ft))
			} else {
				f = append(f, in.decode(st, c, off, ft, big))
			}
			off = off.AddK(dataSize(ft))
		}
		return VStruct{t, f}
	}
	return VOpq{in.U.Fresh("decoded")}
}

func (in *Interp) floatFromBits(w Lin, n int) Val {
	if w.IsConst() && w.C == 0 {
		z := K(0)
		return VFloat{I: &z}
	}
	if a := w.Atom1(); a != nil && strings.HasPrefix(a.Key, "fbits") {
		if f, ok := in.floatOf[a.Key]; ok {
			return f
		}
	}
	k := fmt.Sprintf("float%d(%s)", 8*n, w.Key())
	in.floatBits[k] = w
	return VFloat{K: k}
}

func (in *Interp) bitsOfFloat(f VFloat, n int) Lin {
	if f.I != nil && f.I.IsConst() && f.I.C == 0 {
		return K(0)
	}
	if w, ok := in.floatBits[f.K]; ok && f.I == nil {
		return w
	}
	hi := int64(posInf)
	if n == 4 {
		hi = 1<<32 - 1
	}
	k := fmt.Sprintf("fbits%d(%s)", 8*n, valKey(f))
	in.floatOf[k] = f
	return L1(in.U.Atom(k, KOpaque, 0, hi))
}

func (in *Interp) encode(st *State, v Val, t types.Type, big bool) (Content, bool) {
	word := func(l Lin, n int) Content {
		bits := in.U.BitsOf(l, 8*n)
		var c Content
		for i := 0; i < n; i++ {
			j := i
			if big {
				j = n - 1 - i
			}
			c = append(c, ValSeg(in.U.FromBits(bits[8*j:8*j+8])))
		}
		return c
	}
	switch x := under(t).(type) {
	case *types.Basic:
		n := int(dataSize(t))
		switch y := v.(type) {
		case VBool:
			if b, k := st.decide(y.C); k {
				if b {
					return Content{ValSeg(K(1))}, true
				}
				return Content{ZeroSeg(K(1))}, true
			}
			return Content{ValSeg(L1(in.U.Atom("bool("+y.C.Key()+")", KOpaque, 0, 1)))}, true
		case VInt:
			return word(y.L, n), true
		case VFloat:
			return word(in.bitsOfFloat(y, n), n), true
		}
	case *types.Array:
		if isByte(x.Elem()) {
			if a, ok := v.(VArr); ok {
				return a.C, true
			}
			return nil, false
		}
		a, ok := v.(VArray)
		if !ok {
			return nil, false
		}
		var c Content
		for _, e := range a.E {
			ec, ok := in.encode(st, e, x.Elem(), big)
			if !ok {
				return nil, false
			}
			c = append(c, ec...)
		}
		return c, true
	case *types.Struct:
		s, ok := v.(VStruct)
		if !ok {
			return nil, false
		}
		var c Content
		for i := range s.F {
			ft := x.Field(i).Type()
			if x.Field(i).Name() == "_" {
				c = append(c, ZeroSeg(K(dataSize(ft))))
				continue
			}
			fc, ok := in.encode(st, s.F[i], ft, big)
			if !ok {
				return nil, false
			}
			c = append(c, fc...)
		}
		return c, true
	}
	return nil, false
}

func byteOrder(st *State, v Val) (big, ok bool) {
	i, isI := st.resolve(v).(VIface)
	if !isI || i.Dyn == nil {
		return false, false
	}
	switch {
	case strings.HasSuffix(i.Dyn.String(), "littleEndian"):
		return false, true
	case strings.HasSuffix(i.Dyn.String(), "bigEndian"):
		return true, true
	}
	return false, false
}

func (in *Interp) panicRes(fr *Frame, st *State, msg string, pos token.Pos) CallRes {
	st.panicV = &panicInfo{Msg: msg, Pos: pos, Fn: fr.fn}
	return CallRes{st: st, panic: true}
}

func mBinaryRead(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
	st := ps.st
	p, ok := bufPtr(args[0])
	big, ok2 := byteOrder(st, args[1])
	d, ok3 := st.resolve(args[2]).(VIface)
	if !ok || !ok2 || !ok3 || d.Dyn == nil {
		return nil, false
	}
	t := args[0].(VIface).Dyn.String()
	if t != "*bytes.Reader" && t != "*bytes.Buffer" && t != "*strings.Reader" {
		return nil, false
	}
	dp, ok := d.V.(VPtr)
	if !ok {
		return nil, false
	}
	el := deref(d.Dyn)
	n := dataSize(el)
	if n < 0 {
		return ret(st, errVal("binary.Read: invalid type "+el.String())), true
	}
	s := st.bufGet(p)
	var out []CallRes
	short := st.Clone()
	if short.assume(Ge(K(n - 1).Sub(s.Len))) {
		e := short
		z := short.Clone()
		if e.assume(Eq0(s.Len)) && n > 0 {
			out = append(out, ret(e, errVal("io.EOF"))...)
		}
		if z.assume(Eq0(s.Len).Not()) {
			out = append(out, ret(z, errVal("io.ErrUnexpectedEOF"))...)
		}
	}
	if st.assume(Ge(s.Len.AddK(-n))) {
		var c Content
		if s.Obj != nil {
			c = st.sliceBytes(s)
		}
		if s.Obj != nil {
			s.Off, s.Len, s.Cap = s.Off.AddK(n), s.Len.AddK(-n), s.Cap.AddK(-n)
			st.bufSet(p, s)
		}
		if dp.Obj == nil || hasPrivate(el) {
			return append(out, in.panicRes(fr, st, "encoding/binary cannot set "+el.String(), site.Pos())), true
		}
		if dp.Obj.Seen() {
			st.Event(&Event{Kind: "store", Pos: site.Pos(), Fn: fr.fn, Obj: dp.Obj, Path: dp.Path, Stack: fr.stack()})
		}
		v := in.decode(st, c, K(0), el, big)
		if dp.Idx != nil {
			a := st.bytesOf(dp.Obj, dp.Path)
			st.heap[cell{dp.Obj, dp.Path}] = VArr{st.write(a.C, *dp.Idx, Content{ValSeg(v.(VInt).L)}, K(1)), a.N}
		} else {
			st.storeCell(dp.Obj, dp.Path, el, v)
		}
		out = append(out, ret(st, nilErr())...)
	}
	return out, true
}

func (in *Interp) encodeArg(st *State, v Val, big bool) (Content, Lin, bool) {
	d, ok := st.resolve(v).(VIface)
	if !ok || d.Dyn == nil {
		return nil, K(0), false
	}
	t := d.Dyn
	x := d.V
	if pt, ok := under(t).(*types.Pointer); ok {
		p, ok := x.(VPtr)
		if !ok || p.Obj == nil || p.Idx != nil {
			return nil, K(0), false
		}
		t = pt.Elem()
		x = st.loadCell(p.Obj, p.Path, t)
	}
	if s, ok := x.(VSlice); ok && isByte(s.Elem) {
		if s.Obj == nil {
			return nil, K(0), true
		}
		return st.sliceBytes(s), s.Len, true
	}
	n := dataSize(t)
	if n < 0 {
		return nil, K(-1), false
	}
	c, ok := in.encode(st, x, t, big)
	return st.norm(c), K(n), ok
}

func mBinaryWrite(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
	st := ps.st
	big, ok2 := byteOrder(st, args[1])
	if !ok2 {
		return nil, false
	}
	c, n, ok := in.encodeArg(st, args[2], big)
	if !ok {
		if n.IsConst() && n.C == -1 {
			return ret(st, errVal("binary.Write: invalid type")), true
		}
		return nil, false
	}
	if d := st.resolve(args[2]).(VIface); hasPrivate(deref(d.Dyn)) {
		// unexported fields are read, not set: no panic when writing
		_ = d
	}
	if !in.writeTo(fr, st, args[0], c, n, site) {
		return nil, false
	}
	return ret(st, nilErr()), true
}

// ---- transport reads ----------------------------------------------------------

const streamSeq = "stream"

func (in *Interp) readPos(st *State) Lin {
	if p, ok := st.ghost["rpos"]; ok {
		return p
	}
	p := L1(in.U.Atom("rpos0", KOpaque, 0, 1<<50))
	st.ghost["rpos"] = p
	return p
}

// consumed: the position up to which the rule's window is consumed.
func (in *Interp) consumed(st *State) Lin {
	if w, ok := in.Tmpl.(interface{ Pos(*State) (Lin, bool) }); ok {
		p, _ := w.Pos(st)
		return p
	}
	return in.readPos(st)
}

// readInto: n bytes arrive in s at offset off.
func (in *Interp) arrive(fr *Frame, st *State, s VSlice, n Lin, site ssa.Instruction) {
	pos := in.readPos(st)
	if s.Obj != nil {
		if s.Obj.Seen() {
			st.Event(&Event{Kind: "store", Pos: site.Pos(), Fn: fr.fn, Obj: s.Obj, Path: s.Path, Stack: fr.stack()})
		}
		st.writeBytes(s, K(0), Content{SrcSeg(in.U.Seq(streamSeq), pos, n)}, n)
	}
	st.ghost["rpos"] = pos.Add(n)
}

// readAtLeast forks into success and failure of reading at least min bytes.
// full: the read may also deliver more than min.
func (in *Interp) readAtLeast(fr *Frame, st *State, what string, s VSlice, min Lin, full bool, site ssa.Instruction) []CallRes {
	if s.Obj == nil {
		s.Off, s.Len, s.Cap = K(0), K(0), K(0)
	}
	ev := func(q *State, n Lin, err Val) {
		q.Event(&Event{Kind: "read", Name: what, Pos: site.Pos(), Fn: fr.fn, L: []Lin{min, s.Len, n, in.readPos(q), in.consumed(q)}, Args: []Val{s}, Res: []Val{VInt{n}, err}, Block: true, Stack: fr.stack()})
	}
	var out []CallRes
	sb := st.Clone()
	if sb.assume(Ge(min.Sub(s.Len).AddK(-1))) {
		out = append(out, ret(sb, vint(0), errVal("io.ErrShortBuffer"))...)
		if !st.assume(Ge(s.Len.Sub(min))) {
			return out
		}
	}
	no := st.Clone()
	if no.assume(Ge(min.Neg())) {
		// nothing is asked for
		out = append(out, ret(no, vint(0), nilErr())...)
		if !st.assume(Ge(min.AddK(-1))) {
			return out
		}
	}
	f := st.Clone()
	// failure
	m := L1(in.U.Atom(in.U.Fresh("got"), KOpaque, 0, 1<<40))
	if f.addGe(min.AddK(-1).Sub(m)) {
		e := in.someErr(f, "transport")
		ev(f, m, e)
		in.arrive(fr, f, s, m, site)
		out = append(out, ret(f, VInt{m}, e)...)
	}
	n := min
	if full && !st.proveEq(min, s.Len) {
		n = L1(in.U.Atom(in.U.Fresh("got"), KOpaque, 0, 1<<40))
		if !st.addGe(n.Sub(min)) || !st.addGe(s.Len.Sub(n)) {
			return out
		}
	}
	ev(st, n, nilErr())
	in.arrive(fr, st, s, n, site)
	return append(out, ret(st, VInt{n}, nilErr())...)
}

// readOnce is one Read call: any count, with or without an error.
func (in *Interp) readOnce(fr *Frame, st *State, what string, s VSlice, site ssa.Instruction) []CallRes {
	if s.Obj == nil {
		s.Off, s.Len, s.Cap = K(0), K(0), K(0)
	}
	var out []CallRes
	for _, fail := range []bool{true, false} {
		q := st
		if fail {
			q = st.Clone()
		}
		n := L1(in.U.Atom(in.U.Fresh("got"), KOpaque, 0, 1<<40))
		if !q.addGe(s.Len.Sub(n)) {
			continue
		}
		e := nilErr()
		if fail {
			e = in.someErr(q, "transport")
		}
		q.Event(&Event{Kind: "read", Name: what, Pos: site.Pos(), Fn: fr.fn, L: []Lin{K(1), s.Len, n, in.readPos(q), in.consumed(q)}, Args: []Val{s}, Res: []Val{VInt{n}, e}, Block: true, Stack: fr.stack()})
		in.arrive(fr, q, s, n, site)
		out = append(out, ret(q, VInt{n}, e)...)
	}
	return out
}

// ---- searching -------------------------------------------------------------------

// indexByte: position of the first byte c (constant) or -1.
func (in *Interp) indexByte(st *State, c Content, n Lin, b int64, mk func(*State, Lin, bool) []CallRes) []CallRes {
	if n.IsConst() && n.C == 0 {
		return mk(st, K(-1), false)
	}
	if s, ok := constBytes(c); ok {
		i := strings.IndexByte(s, byte(b))
		return mk(st, K(int64(i)), i >= 0)
	}
	q := in.U.compSeq(c)
	off := K(0)
	if len(c) == 1 && c[0].Kind == SegSrc {
		q, off = c[0].Seq, c[0].Off
	}
	var out []CallRes
	no := st.Clone()
	// not found
	no.ranges = append(no.ranges, RangeFact{q, off, off.Add(n), false, b})
	out = append(out, mk(no, K(-1), false)...)
	r := L1(in.U.Atom("index("+c.Key()+","+fmt.Sprint(b)+")", KOpaque, 0, 1<<40))
	if st.addGe(n.Sub(r).AddK(-1)) {
		at := in.U.ByteAt(q, off.Add(r))
		if st.assume(Eq0(at.AddK(-b))) {
			st.ranges = append(st.ranges, RangeFact{q, off, off.Add(r), false, b})
			out = append(out, mk(st, r, true)...)
		}
	}
	return out
}

// trimRightZero: length without trailing zero bytes.
func (in *Interp) trimRightZero(st *State, c Content, n Lin, mk func(*State, Lin) []CallRes) []CallRes {
	if n.IsConst() && n.C == 0 {
		return mk(st, K(0))
	}
	q := in.U.compSeq(c)
	off := K(0)
	if len(c) == 1 && c[0].Kind == SegSrc {
		q, off = c[0].Seq, c[0].Off
	}
	var out []CallRes
	z := st.Clone()
	z.ranges = append(z.ranges, RangeFact{q, off, off.Add(n), true, 0})
	out = append(out, mk(z, K(0))...)
	r := L1(in.U.Atom("trimmed("+c.Key()+")", KOpaque, 1, 1<<40))
	if st.addGe(n.Sub(r)) && st.assume(Eq0(in.U.ByteAt(q, off.Add(r).AddK(-1))).Not()) {
		st.ranges = append(st.ranges, RangeFact{q, off.Add(r), off.Add(n), true, 0})
		out = append(out, mk(st, r)...)
	}
	return out
}

func constByteArg(st *State, v Val) (int64, bool) {
	switch x := v.(type) {
	case VInt:
		if x.L.IsConst() {
			return x.L.C, true
		}
	case VStr:
		if s, ok := constBytes(x.C); ok && len(s) == 1 && s[0] < 0x80 {
			return int64(s[0]), true
		}
	case VSlice:
		if x.Obj != nil {
			if s, ok := constBytes(st.sliceBytes(x)); ok && len(s) == 1 {
				return int64(s[0]), true
			}
		}
	}
	return 0, false
}

// ---- locks ---------------------------------------------------------------------

func lockKey(v Val) string {
	if p, ok := v.(VPtr); ok && p.Obj != nil {
		return p.Obj.Name + p.Path
	}
	return "?" + valKey(v)
}

func mLock(read bool) model {
	return func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		st := ps.st
		if p, ok := args[0].(VPtr); ok && p.Obj == nil {
			return []CallRes{in.panicRes(fr, st, "nil pointer dereference", site.Pos())}, true
		}
		k := lockKey(args[0])
		h := k
		if read {
			h = "R:" + k
		}
		st.Event(&Event{Kind: "lock", Name: h, Pos: site.Pos(), Fn: fr.fn, Recv: args[0], Block: true, Stack: fr.stack()})
		st.locks = append(st.locks, h)
		if p, ok := args[0].(VPtr); ok && in.OnLock != nil {
			in.OnLock(st, p)
		}
		return ret(st), true
	}
}

func mUnlock(read bool) model {
	return func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		st := ps.st
		k := lockKey(args[0])
		if read {
			k = "R:" + k
		}
		st.Event(&Event{Kind: "unlock", Name: k, Pos: site.Pos(), Fn: fr.fn, Recv: args[0], Stack: fr.stack()})
		for i := len(st.locks) - 1; i >= 0; i-- {
			if st.locks[i] == k {
				n := append([]string(nil), st.locks[:i]...)
				st.locks = append(n, st.locks[i+1:]...)
				return ret(st), true
			}
		}
		in.undecidedEv(st, fr, site.Pos(), "unlock of a lock that is not held: "+k)
		return ret(st), true
	}
}

// undecidedEv marks the path.
func (in *Interp) undecidedEv(st *State, fr *Frame, pos token.Pos, msg string) {
	st.Event(&Event{Kind: "error", Name: msg, Pos: pos, Fn: fr.fn})
	in.undecided(fr, pos, msg)
}

func mOnceDo(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
	st := ps.st
	k := lockKey(args[0])
	var out []CallRes
	later := st.Clone()
	later.Event(&Event{Kind: "once", Name: k, Pos: site.Pos(), Fn: fr.fn, Case: 0, Block: true, Recv: args[0], Stack: fr.stack()})
	out = append(out, ret(later)...)
	if st.ghost["once:"+k].C == 1 {
		// it ran before on this path
		return out, true
	}
	st.ghost["once:"+k] = K(1)
	st.Event(&Event{Kind: "once", Name: k, Pos: site.Pos(), Fn: fr.fn, Case: 1, Recv: args[0], Block: true, Stack: fr.stack()})
	f, ok := args[1].(VFunc)
	st.inOnce++
	st.locks = append(st.locks, "once:"+k)
	n := &PS{st: st, env: ps.env}
	if ok && f.Fn != nil {
		for _, r := range in.callFn(fr, n, f.Fn, f.Bind, nil, site) {
			r.st.inOnce--
			r.st.locks = dropLock(r.st.locks, "once:"+k)
			r.st.Event(&Event{Kind: "onceend", Name: k, Pos: site.Pos(), Fn: fr.fn})
			r.v = nil
			out = append(out, r)
		}
		return out, true
	}
	for _, r := range in.unknownCall(fr, n, "once body", nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), site) {
		r.st.inOnce--
		r.st.locks = dropLock(r.st.locks, "once:"+k)
		out = append(out, r)
	}
	return out, true
}

func dropLock(l []string, k string) []string {
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] == k {
			n := append([]string(nil), l[:i]...)
			return append(n, l[i+1:]...)
		}
	}
	return l
}

// ---- table ---------------------------------------------------------------------

func init() {
	noop := func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		return ret(ps.st), true
	}
	models = map[string]model{
		"encoding/binary.Read":  mBinaryRead,
		"encoding/binary.Write": mBinaryWrite,
		"encoding/binary.Size": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			d, ok := ps.st.resolve(args[0]).(VIface)
			if !ok || d.Dyn == nil {
				return nil, false
			}
			t := d.Dyn
			if s, ok := d.V.(VSlice); ok && isByte(s.Elem) {
				return ret(ps.st, VInt{s.Len}), true
			}
			return ret(ps.st, vint(dataSize(deref(t)))), true
		},
		"encoding/binary.Decode": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			st := ps.st
			big, ok := byteOrder(st, args[1])
			d, ok2 := st.resolve(args[2]).(VIface)
			s, ok3 := args[0].(VSlice)
			if !ok || !ok2 || !ok3 || d.Dyn == nil {
				return nil, false
			}
			dp, ok := d.V.(VPtr)
			if !ok || dp.Idx != nil {
				return nil, false
			}
			el := deref(d.Dyn)
			n := dataSize(el)
			if n < 0 {
				return nil, false
			}
			if s.Obj == nil {
				s.Len = K(0)
			}
			var out []CallRes
			short := st.Clone()
			if short.assume(Ge(K(n - 1).Sub(s.Len))) {
				out = append(out, ret(short, vint(0), errVal("binary.Decode: buffer too small"))...)
			}
			if st.assume(Ge(s.Len.AddK(-n))) {
				if dp.Obj == nil || hasPrivate(el) {
					return append(out, in.panicRes(fr, st, "encoding/binary cannot set "+el.String(), site.Pos())), true
				}
				v := in.decode(st, st.sliceBytes(s), K(0), el, big)
				if dp.Obj.Seen() {
					st.Event(&Event{Kind: "store", Pos: site.Pos(), Fn: fr.fn, Obj: dp.Obj, Path: dp.Path, Stack: fr.stack()})
				}
				st.storeCell(dp.Obj, dp.Path, el, v)
				out = append(out, ret(st, vint(n), nilErr())...)
			}
			return out, true
		},
		"encoding/binary.Append": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			st := ps.st
			big, ok := byteOrder(st, args[1])
			s, ok2 := args[0].(VSlice)
			if !ok || !ok2 {
				return nil, false
			}
			c, n, ok := in.encodeArg(st, args[2], big)
			if !ok {
				return nil, false
			}
			o := in.newObj(OAlloc, "bytes@append", types.NewSlice(types.Typ[types.Uint8]), site)
			old, on := Content(nil), K(0)
			if s.Obj != nil {
				old, on = st.sliceBytes(s), s.Len
			}
			total := on.Add(n)
			st.heap[cell{o, ""}] = VArr{st.norm(append(append(Content(nil), old...), c...)), total}
			return ret(st, VSlice{Obj: o, Off: K(0), Len: total, Cap: total, Elem: types.Typ[types.Uint8]}, nilErr()), true
		},

		"(*sync.Mutex).Lock":      mLock(false),
		"(*sync.Mutex).Unlock":    mUnlock(false),
		"(*sync.RWMutex).Lock":    mLock(false),
		"(*sync.RWMutex).Unlock":  mUnlock(false),
		"(*sync.RWMutex).RLock":   mLock(true),
		"(*sync.RWMutex).RUnlock": mUnlock(true),
		"(*sync.Once).Do":         mOnceDo,

		"errors.New": mNewError,
		"net.ListenPacket": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			var out []CallRes
			for _, failed := range []bool{false, true} {
				st := ps.st.Clone()
				nm := in.U.Fresh("listen")
				conn, err := VIface{Typ: sig.Results().At(0).Type()}, VIface{Typ: errIface}
				if failed {
					err.Atom = nm + ".err"
					st.setIf(err.Atom, func(f *ifFact) { f.ne["nil"] = true })
				} else {
					conn.Atom = nm + ".conn"
					st.setIf(conn.Atom, func(f *ifFact) { f.ne["nil"] = true })
				}
				res := []Val{conn, err}
				st.Event(&Event{Kind: "listen", Name: name, Pos: site.Pos(), Fn: fr.fn, Args: args, Res: res, Stack: fr.stack()})
				out = append(out, CallRes{st: st, v: VTuple{res}})
			}
			return out, true
		},
		"fmt.Errorf": mNewError,
		"errors.Is": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			st := ps.st
			c := in.eqCond(fr, ps, args[0], args[1], errIface)
			if v, ok := st.decide(c); ok {
				return ret(st, VBool{CB(v)}), true
			}
			var out []CallRes
			n := st.Clone()
			if st.assume(c) {
				out = append(out, ret(st, VBool{CTrue()})...)
			}
			if n.assume(c.Not()) {
				// may wrap it
				out = append(out, ret(n, VBool{CFalse()})...)
			}
			return out, true
		},
		"math.Min": mMinMax(false),
		"math.Max": mMinMax(true),

		"io.ReadAtLeast": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			s, ok := args[1].(VSlice)
			m, ok2 := args[2].(VInt)
			if !ok || !ok2 || in.knownReader(ps.st, args[0]) {
				return nil, false
			}
			return in.readAtLeast(fr, ps.st, name, s, m.L, true, site), true
		},
		"io.ReadFull": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			s, ok := args[1].(VSlice)
			if !ok || in.knownReader(ps.st, args[0]) {
				return nil, false
			}
			n := s.Len
			if s.Obj == nil {
				n = K(0)
			}
			return in.readAtLeast(fr, ps.st, name, s, n, false, site), true
		},
		"(*bufio.Reader).Read": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			s, ok := args[1].(VSlice)
			if !ok {
				return nil, false
			}
			return in.readOnce(fr, ps.st, name, s, site), true
		},
		"(*bufio.Reader).ReadByte": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			o := in.newObj(OAlloc, "byte", types.NewArray(types.Typ[types.Uint8], 1), site)
			ps.st.heap[cell{o, ""}] = VArr{Content{ZeroSeg(K(1))}, K(1)}
			s := VSlice{Obj: o, Off: K(0), Len: K(1), Cap: K(1), Elem: types.Typ[types.Uint8]}
			var out []CallRes
			for _, r := range in.readAtLeast(fr, ps.st, name, s, K(1), false, site) {
				t := r.v.(VTuple)
				b := VInt{r.st.byteAt(r.st.bytesOf(o, "").C, K(0))}
				out = append(out, ret(r.st, b, t.E[1])...)
			}
			return out, true
		},
		"bufio.NewReader": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			o := in.newObj(OAlloc, "bufio.Reader", deref(sig.Results().At(0).Type()), site)
			ps.st.heap[cell{o, "#src"}] = args[0]
			return ret(ps.st, VPtr{Obj: o}), true
		},
		"bufio.NewReaderSize": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			o := in.newObj(OAlloc, "bufio.Reader", deref(sig.Results().At(0).Type()), site)
			ps.st.heap[cell{o, "#src"}] = args[0]
			return ret(ps.st, VPtr{Obj: o}), true
		},

		"bytes.NewReader":       mNewBuf("bytes.Reader"),
		"bytes.NewBuffer":       mNewBuf("bytes.Buffer"),
		"strings.NewReader":     mNewBuf("strings.Reader"),
		"bytes.NewBufferString": mNewBuf("bytes.Buffer"),
		"text/tabwriter.NewWriter": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			o := in.newObj(OAlloc, "tabwriter", deref(sig.Results().At(0).Type()), site)
			p := VPtr{Obj: o}
			in.twInit(ps.st, p, args)
			return ret(ps.st, p), true
		},
		"(*text/tabwriter.Writer).Init": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			p, ok := bufPtr(args[0])
			if !ok {
				return nil, false
			}
			in.twInit(ps.st, p, args[1:])
			return ret(ps.st, p), true
		},
		"(*text/tabwriter.Writer).Flush": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			st := ps.st
			p, ok := bufPtr(args[0])
			if !ok {
				return nil, false
			}
			k := cell{p.Obj, p.Path + "#tw"}
			text, _ := st.heap[k].(VStr)
			out := st.heap[cell{p.Obj, p.Path + "#out"}]
			cfg, _ := st.heap[cell{p.Obj, p.Path + "#cfg"}].(VOpq)
			if out == nil {
				return nil, false
			}
			st.heap[k] = VStr{}
			if len(text.C) == 0 {
				return ret(st, nilErr()), true
			}
			seg := in.fmtPiece(st, "tab("+cfg.K+")", text)
			if !in.writeTo(fr, st, out, Content{seg}, seg.Len, site) {
				return nil, false
			}
			return ret(st, nilErr()), true
		},
		"fmt.Sprintf":  mSprint("f"),
		"fmt.Sprint":   mSprint(""),
		"fmt.Sprintln": mSprint("ln"),
		"fmt.Fprintf":  mFprint("f"),
		"fmt.Fprint":   mFprint(""),
		"fmt.Fprintln": mFprint("ln"),
		"fmt.Printf":   mPrint,
		"fmt.Println":  mPrint,
		"fmt.Print":    mPrint,
		"log.Printf":   mPrint,
		"log.Println":  mPrint,
		"log.Print":    mPrint,
		"io.WriteString": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			c, n, ok := ps.st.strOf(args[1])
			if !ok || !in.writeTo(fr, ps.st, args[0], c, n, site) {
				return nil, false
			}
			return ret(ps.st, VInt{n}, nilErr()), true
		},
		"strconv.Itoa":       mDecimal,
		"strconv.FormatInt":  mDecimal,
		"strconv.FormatUint": mDecimal,
		"net.JoinHostPort": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			// the form for hosts without colons
			h, _, ok := ps.st.strOf(args[0])
			p, _, ok2 := ps.st.strOf(args[1])
			if !ok || !ok2 {
				return in.pureCall(fr, ps, name, args, sig, site), true
			}
			c := append(append(append(Content(nil), h...), ConstContent(":")...), p...)
			return ret(ps.st, VStr{c, c.Len()}), true
		},

		"bytes.IndexByte":   mIndex,
		"strings.IndexByte": mIndex,
		"bytes.Index":       mIndex,
		"strings.Index":     mIndex,
		"bytes.IndexRune":   mIndex,
		"strings.IndexRune": mIndex,
		"bytes.TrimRight":   mTrimRight,
		"strings.TrimRight": mTrimRight,
		"bytes.Equal": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			st := ps.st
			a, n, ok := st.strOf(args[0])
			b, m, ok2 := st.strOf(args[1])
			if !ok || !ok2 {
				return nil, false
			}
			return ret(st, VBool{in.eqCond(fr, ps, VStr{a, n}, VStr{b, m}, types.Typ[types.String])}), true
		},
		"runtime.GC": noop,
		"math.Float32frombits": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			return ret(ps.st, in.floatFromBits(args[0].(VInt).L, 4)), true
		},
		"math.Float64frombits": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			return ret(ps.st, in.floatFromBits(args[0].(VInt).L, 8)), true
		},
		"math.Float32bits": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			return ret(ps.st, VInt{in.bitsOfFloat(args[0].(VFloat), 4)}), true
		},
		"math.Float64bits": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			return ret(ps.st, VInt{in.bitsOfFloat(args[0].(VFloat), 8)}), true
		},
	}
	for _, t := range []string{"bytes.Buffer", "strings.Builder", "bytes.Reader"} {
		for m, f := range bufMethods {
			models["(*"+t+")."+m] = f
		}
	}
	models["(*text/tabwriter.Writer).Write"] = bufMethods["Write"]
}

func (in *Interp) twInit(st *State, p VPtr, args []Val) {
	st.heap[cell{p.Obj, p.Path + "#out"}] = args[0]
	st.heap[cell{p.Obj, p.Path + "#tw"}] = VStr{}
	var k []string
	for _, a := range args[1:] {
		k = append(k, valString(a))
	}
	st.heap[cell{p.Obj, p.Path + "#cfg"}] = VOpq{strings.Join(k, ",")}
}

// knownReader: reading from memory, not from the transport.
func (in *Interp) knownReader(st *State, v Val) bool {
	i, ok := st.resolve(v).(VIface)
	if !ok || i.Dyn == nil {
		return false
	}
	switch i.Dyn.String() {
	case "*bytes.Reader", "*bytes.Buffer", "*strings.Reader":
		return true
	}
	return false
}

func mNewBuf(t string) model {
	return func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		st := ps.st
		o := in.newObj(OAlloc, t, deref(sig.Results().At(0).Type()), site)
		p := VPtr{Obj: o}
		switch x := args[0].(type) {
		case VSlice:
			st.bufSet(p, x)
		case VStr:
			st.bufSet(p, VSlice{Elem: types.Typ[types.Uint8]})
			st.bufWrite(p, x.C, x.N, site)
		default:
			return nil, false
		}
		return ret(st, p), true
	}
}

var bufMethods = map[string]model{
	"Write": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		c, n, ok := ps.st.strOf(args[1])
		if !ok || !in.writeTo(fr, ps.st, VIface{Dyn: recvType(sig, args[0], name), V: args[0]}, c, n, site) {
			return nil, false
		}
		return ret(ps.st, VInt{n}, nilErr()), true
	},
	"WriteString": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		p, ok := bufPtr(args[0])
		c, n, ok2 := ps.st.strOf(args[1])
		if !ok || !ok2 {
			return nil, false
		}
		ps.st.bufWrite(p, c, n, site)
		return ret(ps.st, VInt{n}, nilErr()), true
	},
	"WriteByte": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		p, ok := bufPtr(args[0])
		if !ok {
			return nil, false
		}
		ps.st.bufWrite(p, Content{ValSeg(args[1].(VInt).L)}, K(1), site)
		return ret(ps.st, nilErr()), true
	},
	"WriteRune": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		p, ok := bufPtr(args[0])
		r, ok2 := args[1].(VInt)
		if !ok || !ok2 || !r.L.IsConst() {
			return nil, false
		}
		s := string(rune(r.L.C))
		ps.st.bufWrite(p, ConstContent(s), K(int64(len(s))), site)
		return ret(ps.st, vint(int64(len(s))), nilErr()), true
	},
	"Bytes": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		p, ok := bufPtr(args[0])
		if !ok {
			return nil, false
		}
		return ret(ps.st, ps.st.bufGet(p)), true
	},
	"String": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		p, ok := bufPtr(args[0])
		if !ok {
			return nil, false
		}
		c, n := ps.st.bufContent(p)
		return ret(ps.st, VStr{c, n}), true
	},
	"Len": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		p, ok := bufPtr(args[0])
		if !ok {
			return nil, false
		}
		_, n := ps.st.bufContent(p)
		return ret(ps.st, VInt{n}), true
	},
	"Reset": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		p, ok := bufPtr(args[0])
		if !ok || len(args) > 1 {
			return nil, false
		}
		s := ps.st.bufGet(p)
		if s.Obj != nil {
			s.Len = K(0)
		}
		ps.st.bufSet(p, s)
		return ret(ps.st), true
	},
	"Grow": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		return ret(ps.st), true
	},
	"Truncate": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		p, ok := bufPtr(args[0])
		n, ok2 := args[1].(VInt)
		if !ok || !ok2 {
			return nil, false
		}
		s := ps.st.bufGet(p)
		if s.Obj == nil {
			return nil, false
		}
		p1, ok := in.check(fr, ps.st, Ge(n.L), "truncation out of range", site.Pos())
		if !ok {
			return withPanics(nil, p1), true
		}
		p2, ok := in.check(fr, ps.st, Ge(s.Len.Sub(n.L)), "truncation out of range", site.Pos())
		if !ok {
			return withPanics(nil, p1, p2), true
		}
		s.Len = n.L
		ps.st.bufSet(p, s)
		return withPanics(ret(ps.st), p1, p2), true
	},
	"Read": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		return nil, false
	},
	"ReadByte": func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		p, ok := bufPtr(args[0])
		if !ok {
			return nil, false
		}
		st := ps.st
		s := st.bufGet(p)
		if s.Obj == nil {
			return ret(st, vint(0), errVal("io.EOF")), true
		}
		var out []CallRes
		e := st.Clone()
		if e.assume(Eq0(s.Len)) {
			out = append(out, ret(e, vint(0), errVal("io.EOF"))...)
		}
		if st.assume(Ge(s.Len.AddK(-1))) {
			b := st.byteAt(st.sliceBytes(s), K(0))
			s.Off, s.Len, s.Cap = s.Off.AddK(1), s.Len.AddK(-1), s.Cap.AddK(-1)
			st.bufSet(p, s)
			out = append(out, ret(st, VInt{b}, nilErr())...)
		}
		return out, true
	},
}

var recvTypes = map[string]types.Type{}

// recvType names the receiver type of a modelled method.
func recvType(sig *types.Signature, recv Val, name string) types.Type {
	if sig.Recv() != nil {
		return sig.Recv().Type()
	}
	return types.Typ[types.Invalid]
}

func mNewError(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
	return ret(ps.st, errVal(fmt.Sprintf("new@%s:%d", in.pos(site.Pos()), site.Pos()))), true
}

func mMinMax(max bool) model {
	return func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		a, ok1 := args[0].(VFloat)
		b, ok2 := args[1].(VFloat)
		if !ok1 || !ok2 || a.I == nil || b.I == nil {
			return in.pureCall(fr, ps, name, args, sig, site), true
		}
		st := ps.st
		c := Ge(b.I.Sub(*a.I))
		lo, hi := a, b
		if max {
			lo, hi = b, a
		}
		var out []CallRes
		n := st.Clone()
		if st.assume(c) {
			out = append(out, ret(st, lo)...)
		}
		if n.assume(c.Not()) {
			out = append(out, ret(n, hi)...)
		}
		return out, true
	}
}

func mSprint(kind string) model {
	return func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		c, ok := in.sprint(fr, ps.st, kind, args, site)
		if !ok {
			return in.pureCall(fr, ps, name, args, sig, site), true
		}
		return ret(ps.st, VStr{c, c.Len()}), true
	}
}

// mDecimal: an integer as decimal text.
func mDecimal(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
	_, ok := ps.st.resolve(args[0]).(VInt)
	if len(args) == 2 {
		b, isI := ps.st.resolve(args[1]).(VInt)
		ok = ok && isI && b.L.IsConst() && b.L.C == 10
	}
	if !ok {
		return in.pureCall(fr, ps, name, args, sig, site), true
	}
	c := in.fmtArg(ps.st, "%d", args[0])
	return ret(ps.st, VStr{c, c.Len()}), true
}

func mFprint(kind string) model {
	return func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		c, ok := in.sprint(fr, ps.st, kind, args[1:], site)
		if !ok || !in.writeTo(fr, ps.st, args[0], c, c.Len(), site) {
			return nil, false
		}
		return ret(ps.st, VInt{c.Len()}, nilErr()), true
	}
}

func mPrint(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
	st := ps.st
	kind := ""
	if strings.HasSuffix(name, "f") {
		kind = "f"
	} else if strings.HasSuffix(name, "ln") {
		kind = "ln"
	}
	e := &Event{Kind: "print", Name: name, Pos: site.Pos(), Fn: fr.fn, Args: args}
	if c, ok := in.sprint(fr, st, kind, args, site); ok {
		e.Snap = []Content{st.flatten(c)}
	}
	st.Event(e)
	v := in.results(st, in.U.Fresh("ret:"+name), sig)
	return []CallRes{{st: st, v: v}}, true
}

func mIndex(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
	c, n, ok := ps.st.strOf(args[0])
	b, ok2 := constByteArg(ps.st, args[1])
	if !ok || !ok2 || b > 127 {
		return in.pureCall(fr, ps, name, args, sig, site), true
	}
	c = ps.st.cut(c, K(0), n)
	return in.indexByte(ps.st, c, n, b, func(s *State, i Lin, found bool) []CallRes {
		return ret(s, VInt{i})
	}), true
}

func mTrimRight(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
	c, n, ok := ps.st.strOf(args[0])
	b, ok2 := constByteArg(ps.st, args[1])
	if !ok || !ok2 || b != 0 {
		return in.pureCall(fr, ps, name, args, sig, site), true
	}
	for n.IsConst() && n.C > 0 && ps.st.proveEq(ps.st.byteAt(c, n.AddK(-1)), K(0)) {
		n = n.AddK(-1)
	}
	c = ps.st.cut(c, K(0), n)
	return in.trimRightZero(ps.st, c, n, func(s *State, r Lin) []CallRes {
		switch x := args[0].(type) {
		case VSlice:
			if x.Obj == nil {
				return ret(s, x)
			}
			x.Len = r
			return ret(s, x)
		}
		return ret(s, VStr{s.cut(c, K(0), r), r})
	}), true
}

// ---- interface methods --------------------------------------------------------

func defaultInvokeModels() map[string]model {
	m := map[string]model{}
	// methods of an unknown frame only depend on the frame
	frameM := func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		i, ok := args[0].(VIface)
		if !ok || i.Atom == "" || len(args) != 1 {
			return nil, false
		}
		short := name[strings.LastIndexByte(name, '.')+1:]
		v := in.results(ps.st, i.Atom+"."+short+"()", sig)
		ps.st.Event(&Event{Kind: "call", Name: "frame." + short, Pos: site.Pos(), Fn: fr.fn, Args: args, Res: tupleElems(v)})
		return []CallRes{{st: ps.st, v: v}}, true
	}
	for _, n := range []string{"GetVersion", "GetMessageLength", "GetMessageSequence", "GetSenderSystemID", "GetSenderComponentID",
		"GetMessageBytes", "GetMessageID", "GetChecksum", "GetChecksumInput", "Bytes"} {
		m["github.com/botlink/go-mavlink2.Frame."+n] = frameM
	}
	msgM := func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		i, ok := args[0].(VIface)
		if !ok || i.Atom == "" {
			return nil, false
		}
		short := name[strings.LastIndexByte(name, '.')+1:]
		v := in.results(ps.st, i.Atom+"."+short+"()", sig)
		return []CallRes{{st: ps.st, v: v}}, true
	}
	for _, n := range []string{"GetVersion", "GetDialect", "GetMessageName", "GetID"} {
		m["github.com/botlink/go-mavlink2.Message."+n] = msgM
	}
	m["github.com/botlink/go-mavlink2.Message.Write"] = func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		i, ok := args[0].(VIface)
		if !ok || i.Atom == "" {
			return nil, false
		}
		st := ps.st
		nm := i.Atom + ".Write(" + valKeys(args[1:]) + ")"
		v := in.results(st, nm, sig)
		st.Event(&Event{Kind: "call", Name: "message.Write", Pos: site.Pos(), Fn: fr.fn, Args: args, Res: tupleElems(v)})
		return []CallRes{{st: st, v: v}}, true
	}
	dial := func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		i, ok := args[0].(VIface)
		if !ok || i.Atom == "" {
			return nil, false
		}
		st := ps.st
		short := name[strings.LastIndexByte(name, '.')+1:]
		v := in.results(st, i.Atom+"."+short+"("+valKeys(args[1:])+")", sig)
		st.Event(&Event{Kind: "call", Name: "dialect." + short, Pos: site.Pos(), Fn: fr.fn, Recv: args[0], Args: args, Res: tupleElems(v)})
		return []CallRes{{st: st, v: v}}, true
	}
	m["github.com/botlink/go-mavlink2.Dialect.GetMeta"] = dial
	m["github.com/botlink/go-mavlink2.Dialect.GetMessage"] = dial
	m["context.Context.Done"] = func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		return ret(ps.st, VChan{Key: "done(" + valKey(args[0]) + ")"}), true
	}
	m["context.Context.Err"] = func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		// nil, until the context is done: from then on always the same error
		e := VIface{Atom: "ctxerr(" + valKey(args[0]) + ")", Typ: errIface}
		ev := func(st *State, v Val) CallRes {
			st.Event(&Event{Kind: "ctxerr", Name: name, Pos: site.Pos(), Fn: fr.fn, Recv: args[0], Res: []Val{v}, Stack: fr.stack()})
			return CallRes{st: st, v: v}
		}
		var out []CallRes
		st := ps.st
		if errClass(st, e) != "err" {
			out = append(out, ev(st.Clone(), VIface{Typ: errIface}))
		}
		if in.contextDone(st, valKey(args[0])) {
			out = append(out, ev(st, e))
		}
		return out, true
	}
	ev := func(kind string) model {
		return func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			st := ps.st
			v := in.results(st, in.U.Fresh("ret:"+kind), sig)
			st.Event(&Event{Kind: kind, Name: name, Pos: site.Pos(), Fn: fr.fn, Recv: args[0], Args: args[1:], Snap: st.snap(args[1:]), Res: tupleElems(v), Block: true, Stack: fr.stack()})
			return []CallRes{{st: st, v: v}}, true
		}
	}
	for _, i := range []string{"io.ReadWriteCloser", "io.Writer", "io.WriteCloser", "io.ReadWriter"} {
		m[i+".Write"] = ev("twrite")
	}
	for _, i := range []string{"io.ReadWriteCloser", "io.Closer", "io.WriteCloser", "io.ReadCloser"} {
		m[i+".Close"] = ev("tclose")
	}
	for _, i := range []string{"io.ReadWriteCloser", "io.Reader", "io.ReadCloser", "io.ReadWriter"} {
		m[i+".Read"] = func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
			s, ok := args[1].(VSlice)
			if !ok {
				return nil, false
			}
			return in.readOnce(fr, ps.st, name, s, site), true
		}
	}
	m["github.com/botlink/go-mavlink2.FrameLogger.LogRead"] = ev("logread")
	m["github.com/botlink/go-mavlink2.FrameLogger.LogWritten"] = ev("logwritten")
	m["net.PacketConn.ReadFrom"] = ev("readfrom")
	m["net.PacketConn.WriteTo"] = ev("writeto")
	m["net.PacketConn.Close"] = ev("pclose")
	return m
}

// contextDone: the context is done from now on.
func (in *Interp) contextDone(st *State, key string) bool {
	e := VIface{Atom: "ctxerr(" + key + ")", Typ: errIface}
	if errClass(st, e) == "err" {
		return true
	}
	return st.assume(Cond{Op: CIs, A: e, B: VIface{Typ: errIface}}.Not())
}

// received: what is known once a receive from the channel succeeded.
func (in *Interp) received(st *State, ch Val) bool {
	if c, ok := ch.(VChan); ok && strings.HasPrefix(c.Key, "done(") && strings.HasSuffix(c.Key, ")") {
		return in.contextDone(st, c.Key[5:len(c.Key)-1])
	}
	return true
}
