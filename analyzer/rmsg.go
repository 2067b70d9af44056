package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about messages: layout, decoding, encoding, text, names.

type MsgT struct {
	S   *SpecMsg
	T   *types.Named
	Pkg string
}

func (m *MsgT) key() string { return m.S.Name() }

func (c *Ctx) messages(only func(*SpecMsg) bool) []*MsgT {
	var r []*MsgT
	for _, s := range specMsgs {
		if only != nil && !only(s) {
			continue
		}
		p := c.R.pkgPath(s.Pkg)
		t := c.R.typ(p, s.Go)
		if t == nil {
			c.ob(false, "message type", s.Name(), "", "the message type %s does not exist", s.Name())
			continue
		}
		if _, ok := under(t).(*types.Struct); !ok {
			c.ob(false, "message type", s.Name(), c.In.pos(t.Obj().Pos()), "%s is no struct", s.Name())
			continue
		}
		r = append(r, &MsgT{s, t, p})
	}
	return r
}

func (c *Ctx) structField(t types.Type, name string) *types.Var {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}

var goBasic = map[string]types.Type{"uint8": types.Typ[types.Uint8], "byte": types.Typ[types.Uint8], "int8": types.Typ[types.Int8],
	"uint16": types.Typ[types.Uint16], "int16": types.Typ[types.Int16], "uint32": types.Typ[types.Uint32], "int32": types.Typ[types.Int32],
	"uint64": types.Typ[types.Uint64], "int64": types.Typ[types.Int64], "float32": types.Typ[types.Float32], "float64": types.Typ[types.Float64]}

func (f SpecField) goType() types.Type {
	t := goBasic[f.Type]
	if f.Array > 0 {
		return types.NewArray(t, int64(f.Array))
	}
	return t
}

// fieldsOK: all defined fields are there with the defined type.
func (c *Ctx) fieldTypes(m *MsgT, rule string) bool {
	ok := true
	for _, f := range m.S.Fields {
		v := c.structField(m.T, f.Go)
		if v == nil {
			ok = c.ob(false, rule, m.key()+"."+f.Go, c.In.pos(m.T.Obj().Pos()), "field %s (wire %s) is missing", f.Go, f.Wire)
			continue
		}
		if !types.Identical(under(v.Type()), f.goType()) {
			ok = c.ob(false, rule, m.key()+"."+f.Go, c.In.pos(v.Pos()), "field %s has type %s, the definition says %s", f.Go, v.Type(), f.goType())
			continue
		}
		c.ob(true, rule, m.key()+"."+f.Go, "", "")
	}
	return ok
}

// receiver makes a message with unknown content.
func (c *Ctx) receiver(m *MsgT, name string) VPtr {
	return VPtr{Obj: c.In.symObj("*"+name+"#"+m.key(), m.T)}
}

func (c *Ctx) fieldVal(st *State, m *MsgT, p VPtr, f SpecField) Val {
	v := c.structField(m.T, f.Go)
	return st.loadCell(p.Obj, p.Path+"."+f.Go, v.Type())
}

// wire is the payload the definition gives for the message at p.
func (c *Ctx) wire(st *State, m *MsgT, p VPtr, base bool) (Content, int64) {
	var r Content
	var n int64
	for _, f := range m.S.Fields {
		if base && f.Ext {
			continue
		}
		e, ok := c.In.encode(st, c.fieldVal(st, m, p, f), c.structField(m.T, f.Go).Type(), false)
		if !ok {
			return nil, -1
		}
		r = append(r, e...)
		n += f.Size()
	}
	return st.norm(r), n
}

// ---- frames ----------------------------------------------------------------

type FrameIn struct {
	V     VIface
	Slice VSlice
	Seq   *Seq
	L     Lin // payload length
	Hdr   int64
	Len   Lin
	Sig   Lin // 0 or 1 (V2)
	Ver   int
}

// frame makes a complete frame of version ver with unknown content (or the
// given payload) whose slice has spare capacity.
func (c *Ctx) frame(st *State, ver int, id *int64, payload Content, plen Lin) FrameIn {
	in := c.In
	name := fmt.Sprintf("frame%d", ver)
	tn := fmt.Sprintf("FrameV%d", ver)
	t := c.R.typ(c.R.Mod, tn)
	seq := in.U.Seq(name)
	o := in.symObj("*"+name, types.NewSlice(types.Typ[types.Uint8]))
	fi := FrameIn{Seq: seq, Ver: ver}
	b := func(i int64) Lin { return in.U.ByteAt(seq, K(i)) }
	fi.Hdr = 6
	magic := int64(0xFE)
	if ver == 2 {
		fi.Hdr, magic = 10, 0xFD
	}
	fi.L = b(1)
	if payload != nil || !plen.Eq(Lin{}) {
		fi.L = plen
	}
	fi.Len = fi.L.AddK(fi.Hdr + 2)
	if ver == 2 {
		bit := in.U.FromBits(in.U.BitsOf(b(2), 8)[:1])
		fi.Sig = bit
		fi.Len = fi.Len.AddMul(bit, 13)
	}
	capv := L1(in.U.Atom("cap("+name+")", KOpaque, 0, 1<<40))
	st.addGe(capv.Sub(fi.Len))
	var ct Content
	if payload != nil || !fi.L.Eq(b(1)) {
		ct = append(ct, ValSeg(K(magic)), ValSeg(fi.L))
	} else {
		ct = append(ct, ValSeg(K(magic)), SrcSeg(seq, K(1), K(1)))
	}
	if id != nil {
		if ver == 1 {
			ct = append(ct, SrcSeg(seq, K(2), K(3)), ValSeg(K(*id&0xff)))
		} else {
			ct = append(ct, SrcSeg(seq, K(2), K(5)), ValSeg(K(*id&0xff)), ValSeg(K(*id>>8&0xff)), ValSeg(K(*id>>16&0xff)))
		}
	} else {
		ct = append(ct, SrcSeg(seq, K(2), K(fi.Hdr-2)))
	}
	if payload != nil {
		ct = append(ct, payload...)
	} else {
		ct = append(ct, SrcSeg(seq, K(fi.Hdr), fi.L))
	}
	rest := fi.L.AddK(fi.Hdr)
	ct = append(ct, SrcSeg(seq, rest, capv.Sub(rest)))
	st.heap[cell{o, ""}] = VArr{st.norm(ct), capv}
	fi.Slice = VSlice{Obj: o, Off: K(0), Len: fi.Len, Cap: capv, Elem: types.Typ[types.Uint8]}
	fi.V = VIface{Dyn: t, V: fi.Slice, Typ: c.R.typ(c.R.Mod, "Frame")}
	return fi
}

func (c *Ctx) frameUnchanged(st *State, fi FrameIn, before Val) bool {
	v, ok := st.heap[cell{fi.Slice.Obj, ""}]
	return !ok || valKey(v) == valKey(before)
}

// ---- decoding (C12, C10, C11, C25) -------------------------------------------

// expectDecoded checks the fields of a decoded message against the payload
// bytes pay (n of them), the rest being zero.
func (c *Ctx) expectDecoded(st *State, m *MsgT, p VPtr, pay Content, n Lin, ver int, rule, where, pos string) {
	N := m.S.FullLen
	fields := m.S.Fields
	check := func(s *State, f SpecField, e Content) (bool, Val, Val) {
		v := c.structField(m.T, f.Go)
		want := c.In.decode(s, e, K(int64(f.Off)), v.Type(), false)
		got := s.loadCell(p.Obj, p.Path+"."+f.Go, v.Type())
		return c.sameVal(s, got, want), got, want
	}
	mk := func(s *State, l Lin) Content {
		r := append(Content(nil), pay...)
		r = append(r, ZeroSeg(K(N).Sub(l)))
		return s.norm(r)
	}
	e := mk(st, n)
	for _, f := range fields {
		ok, got, want := check(st, f, e)
		if !ok && !n.IsConst() {
			// decide it length by length
			ok = true
			for l := int64(0); l <= N && ok; l++ {
				s := st.Clone()
				if !s.pin(n.AddK(-l)) {
					continue
				}
				var pl Content
				for _, g := range pay {
					g.Len = substConst(s, g.Len)
					pl = append(pl, g)
				}
				var k bool
				k, got, want = check(s, f, s.norm(append(pl, ZeroSeg(K(N-l)))))
				ok = ok && k
			}
		}
		c.ob(ok, rule, where+" "+m.key()+"."+f.Go, pos, "version %d: field is decoded as %s instead of %s [%s]", ver, valString(got), valString(want), c.short(st.pathString()))
	}
}

// substConst replaces atoms that the state pins to a value.
func substConst(st *State, l Lin) Lin {
	r := l
	for _, t := range l.T {
		lo, hi := st.bounds(t.A)
		if lo == hi {
			r = r.Subst(t.A, K(lo))
		}
	}
	return r
}

// refresh re-resolves a linear form under the facts of st.
func (st *State) refresh(l Lin, depth int) Lin {
	if depth > 4 {
		return l
	}
	r := K(l.C)
	for _, t := range l.T {
		lo, hi := st.bounds(t.A)
		if lo == hi {
			r = r.AddK(t.C * lo)
			continue
		}
		switch t.A.Kind {
		case KByte:
			nb := st.segByte(SrcSeg(t.A.Seq, substConst(st, t.A.Off), K(1)), K(0))
			r = r.AddMul(nb, t.C)
		case KBits:
			bits := make([]Bit, len(t.A.Bits))
			for i, b := range t.A.Bits {
				nb := Bit{C: b.C}
				for _, x := range b.X {
					xl := st.refresh(L1(x.A), depth+1)
					if x.A.Kind == KWord {
						if sub := st.refresh(x.A.Sub, depth+1); !sub.Eq(x.A.Sub) {
							nb = nb.Xor(st.u.BitsOf(sub, x.I+1)[x.I])
							continue
						}
					}
					if a := xl.Atom1(); a == x.A {
						nb = nb.Xor(Bit{X: []BitAtom{x}})
						continue
					}
					xb := st.u.BitsOf(xl, x.I+1)
					nb = nb.Xor(xb[x.I])
				}
				bits[i] = st.trimBit(nb)
			}
			r = r.AddMul(st.u.FromBits(bits), t.C)
		case KSigned:
			r = r.AddMul(st.in.signed(st.u.canon(st.refresh(t.A.Sub, depth+1)), t.A.W), t.C)
		default:
			r = r.AddMul(L1(t.A), t.C)
		}
	}
	if depth == 0 {
		r = st.u.canon(r)
	}
	return r
}

// bitsOf is BitsOf without the bits which the bounds known on this path make
// zero.
func (st *State) bitsOf(l Lin, w int) []Bit {
	bits := st.u.BitsOf(l, w)
	for i, b := range bits {
		bits[i] = st.trimBit(b)
	}
	return bits
}

func (st *State) trimBit(b Bit) Bit {
	cut := func(x BitAtom) bool {
		lo, hi := st.bounds(x.A)
		return x.A.Kind != KWord && x.A.Kind != KSigned && lo >= 0 && hi < posInf && x.I >= bitWidth(hi)
	}
	for i, x := range b.X {
		if !cut(x) {
			continue
		}
		n := Bit{C: b.C, X: append([]BitAtom(nil), b.X[:i]...)}
		for _, y := range b.X[i+1:] {
			if !cut(y) {
				n.X = append(n.X, y)
			}
		}
		return n
	}
	return b
}

// canon rebuilds a word composed of bit fields.
func (u *Universe) canon(l Lin) Lin {
	if len(l.T) < 2 || l.C < 0 {
		return l
	}
	for _, t := range l.T {
		if t.C <= 0 || t.C&(t.C-1) != 0 || t.A.Lo < 0 {
			return l
		}
	}
	b := u.BitsOf(l, 64)
	for _, x := range b {
		for _, y := range x.X {
			if y.A.Kind == KWord && y.A.Sub.Eq(l) {
				return l
			}
		}
	}
	return u.FromBits(b)
}

func (st *State) refreshVal(v Val) Val {
	switch x := v.(type) {
	case VInt:
		return VInt{st.refresh(x.L, 0)}
	case VBool:
		if x.C.Op == CGe || x.C.Op == CEq {
			y := x.C
			y.L = st.refresh(y.L, 0)
			if y.Op == CGe {
				n := Ge(y.L)
				if y.Neg {
					n = n.Not()
				}
				return VBool{n}
			}
			n := Eq0(y.L)
			if y.Neg {
				n = n.Not()
			}
			return VBool{n}
		}
	case VFloat:
		if w, ok := st.in.floatBits[x.K]; ok && x.I == nil {
			n := 8
			if strings.HasPrefix(x.K, "float32") {
				n = 4
			}
			return st.in.floatFromBits(st.refresh(w, 0), n)
		}
	case VArray:
		y := VArray{x.T, append([]Val(nil), x.E...)}
		for i := range y.E {
			y.E[i] = st.refreshVal(y.E[i])
		}
		return y
	case VArr:
		var ct Content
		for _, g := range x.C {
			g.Len = substConst(st, g.Len)
			if g.Kind == SegSrc {
				g.Off = substConst(st, g.Off)
			}
			if g.Kind == SegVal {
				g.Val = st.refresh(g.Val, 0)
				n := ValSeg(g.Val)
				n.Len = g.Len
				g = n
			}
			ct = append(ct, g)
		}
		return VArr{st.flatten(st.norm(ct)), x.N}
	}
	return v
}

func (c *Ctx) sameVal(st *State, a, b Val) bool {
	if valKey(a) == valKey(b) || st.valEq(a, b) {
		return true
	}
	a, b = st.refreshVal(a), st.refreshVal(b)
	if valKey(a) == valKey(b) || st.valEq(a, b) {
		return true
	}
	if x, ok := a.(VArr); ok {
		if y, ok := b.(VArr); ok {
			return st.contentEq(x.C, y.C, x.N)
		}
	}
	return false
}

// decodeRules analyses Read of one message on complete frames of a version.
func (c *Ctx) decodeRules(m *MsgT, ver int) {
	read := c.R.method(m.T, "Read")
	if !c.ob(read != nil, "method", m.key()+".Read", c.In.pos(m.T.Obj().Pos()), "no method Read") {
		return
	}
	in := c.In
	pos := c.pos(read)
	in.reset()
	st := in.NewState()
	fi := c.frame(st, ver, nil, nil, Lin{})
	st.assume(Ge(K(m.S.FullLen).Sub(fi.L)))
	mem := st.heap[cell{fi.Slice.Obj, ""}]
	p := c.receiver(m, "m")
	outs, ok := c.run(read, []Val{p, fi.V}, st)
	if !ok {
		return
	}
	where := fmt.Sprintf("v%d", ver)
	if !c.noPanic("decoding never panics", m.key()+".Read "+where, outs) {
		return
	}
	for _, o := range outs {
		s := o.St
		cls := errClass(s, o.Rets[len(o.Rets)-1])
		if ver == 1 && m.S.ID > 255 {
			c.ob(cls == "err", "a v1 frame for an id above 255 is an error", m.key()+".Read", pos, "decoding a version 1 frame gives %s [%s]", valString(o.Rets[0]), c.short(s.pathString()))
			continue
		}
		if !c.ob(cls == "nil", "a decodable payload decodes without error", m.key()+".Read "+where, pos, "decoding fails with %s [%s]", errName(s, o.Rets[0]), c.short(s.pathString())) {
			continue
		}
		c.expectDecoded(s, m, p, Content{SrcSeg(fi.Seq, K(fi.Hdr), fi.L)}, fi.L, ver, "every field comes from its payload bytes", "Read "+where, pos)
		c.extFlag(s, m, p, ver, "extension values are noted exactly for v2 frames of messages with extensions", "Read "+where, pos)
		c.ob(c.frameUnchanged(s, fi, mem), "decoding leaves the frame alone", m.key()+".Read "+where, pos, "the frame's bytes are modified: %s", valString(s.heap[cell{fi.Slice.Obj, ""}]))
		if m.S.Variable {
			c.payloadLength(s, m, p, fi, "Read "+where, pos)
		}
	}
}

func (c *Ctx) extFlag(s *State, m *MsgT, p VPtr, ver int, rule, where, pos string) {
	v := c.structField(m.T, "HasExtensionFieldValues")
	if !c.ob(v != nil, rule, where+" "+m.key(), pos, "no field HasExtensionFieldValues") {
		return
	}
	want := ver == 2 && m.S.HasExt()
	got := s.loadCell(p.Obj, p.Path+".HasExtensionFieldValues", v.Type())
	b, isB := got.(VBool)
	val, known := false, false
	if isB {
		val, known = s.decide(b.C)
		if !known {
			if r, ok := s.refreshVal(b).(VBool); ok {
				val, known = s.decide(r.C)
			}
		}
	}
	c.ob(known && val == want, rule, where+" "+m.key(), pos, "HasExtensionFieldValues is %s, expected %v [%s]", valString(got), want, c.short(s.pathString()))
}

func (c *Ctx) payloadLength(s *State, m *MsgT, p VPtr, fi FrameIn, where, pos string) {
	v := c.structField(m.T, "PayloadLength")
	if !c.ob(v != nil, "payload length", where+" "+m.key(), pos, "no field PayloadLength") {
		return
	}
	got, isI := s.loadCell(p.Obj, p.Path+".PayloadLength", v.Type()).(VInt)
	// a case split over all frame lengths
	for l := int64(0); l <= 255; l++ {
		t := s.Clone()
		if !t.pin(fi.L.AddK(-l)) {
			continue
		}
		want := l - 5
		if want < 0 {
			want = 0
		}
		if want > 249 {
			want = 249
		}
		ok := isI && t.proveEq(t.refresh(got.L, 0), K(want))
		c.ob(ok, "the payload length is the number of payload bytes carried", where+" "+m.key(), pos, "for a payload of %d bytes PayloadLength becomes %s instead of %d", l, valString(got), want)
	}
}

// versionRules: frames of other versions are refused (any Frame type).
func (c *Ctx) versionRules(m *MsgT) {
	read := c.R.method(m.T, "Read")
	if read == nil {
		return
	}
	in := c.In
	in.reset()
	st := in.NewState()
	f := VIface{Atom: "f", Typ: c.R.typ(c.R.Mod, "Frame")}
	ver := in.intAtom("f.GetVersion()")
	st.addNe(L1(ver).AddK(-1))
	st.addNe(L1(ver).AddK(-2))
	outs, ok := c.run(read, []Val{c.receiver(m, "m"), f}, st)
	if !ok {
		return
	}
	if c.noPanic("decoding never panics", m.key()+".Read other version", outs) {
		for _, o := range outs {
			c.ob(errClass(o.St, o.Rets[0]) == "err", "other versions are an error", m.key()+".Read", c.pos(read), "a frame of version %s is decoded [%s]", L1(ver), c.short(o.St.pathString()))
		}
	}
}

// ---- encoding (C13, C10, C29) ----------------------------------------------

// zeroIn proves that bytes [lo,hi) of full are zero in st.
func (c *Ctx) zeroIn(st *State, full Content, lo, hi int64, seqs []subSeq) bool {
	for i := lo; i < hi; i++ {
		if st.proveEq(st.byteAt(full, K(i)), K(0)) {
			continue
		}
		ok := false
		for _, q := range seqs {
			j := K(i - q.at)
			if i >= q.at && (st.rangeFact(q.seq, j, j.AddK(1), true, 0) || st.proveEq(c.In.U.ByteAt(q.seq, j), K(0))) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// subSeq is a sequence of facts that names the bytes of a content from at on.
type subSeq struct {
	seq *Seq
	at  int64
}

// fullSeqs: sequences of facts that name bytes of full (n bytes).
func (c *Ctx) fullSeqs(st *State, full Content, n int64) []subSeq {
	var r []subSeq
	seen := map[*Seq]bool{}
	add := func(s *Seq) {
		if s == nil || seen[s] || s.Comp == nil {
			return
		}
		seen[s] = true
		comp := s.Comp
		for d := int64(0); d < n; d++ {
			m := K(n - d)
			if l := substConst(st, comp.Len()); l.IsConst() && l.C < m.C {
				m = l
			} else if !st.proveGe(l, m) {
				continue
			}
			if m.C > 0 && st.contentEq(st.cut(comp, K(0), m), st.cut(full, K(d), m), m) {
				r = append(r, subSeq{s, d})
				break
			}
		}
	}
	for _, f := range st.ranges {
		add(f.Seq)
	}
	lin := func(l Lin) {
		for _, t := range l.T {
			add(t.A.Seq)
		}
	}
	for _, l := range st.nes {
		lin(l)
	}
	for _, l := range st.facts {
		lin(l)
	}
	return r
}

// truncated checks that out (n bytes) is full without trailing zeroes, at
// least one byte being kept.  It splits on n if n is not constant.
func (c *Ctx) truncated(st *State, out Content, n Lin, full Content, N int64) (bool, string) {
	if !n.IsConst() {
		if !st.prove(n.AddK(-1)) || !st.proveGe(K(N), n) {
			return false, fmt.Sprintf("the length %s is not proved to be in 1..%d", n, N)
		}
		for l := int64(1); l <= N; l++ {
			s := st.Clone()
			if !s.pin(n.AddK(-l)) {
				continue
			}
			o := s.refreshVal(VArr{out, n}).(VArr)
			if ok, why := c.truncated(s, o.C, K(l), full, N); !ok {
				return false, why
			}
		}
		return true, ""
	}
	l := n.C
	if l < 1 || l > N {
		return false, fmt.Sprintf("the encoding has %d bytes, outside 1..%d", l, N)
	}
	if !st.contentEq(out, full, n) {
		return false, fmt.Sprintf("the first %d bytes are %s instead of %s", l, out, st.cut(full, K(0), n))
	}
	seqs := c.fullSeqs(st, full, N)
	if !c.zeroIn(st, full, l, N, seqs) {
		return false, fmt.Sprintf("bytes %d..%d are cut off although they may be non-zero", l, N-1)
	}
	if l > 1 {
		if !c.nonZeroAt(st, full, K(l-1), seqs) {
			return false, fmt.Sprintf("byte %d is kept although it may be a trailing zero", l-1)
		}
	}
	return true, ""
}

func (c *Ctx) nonZeroAt(st *State, full Content, i Lin, seqs []subSeq) bool {
	if st.proveNe(st.byteAt(full, i)) {
		return true
	}
	for _, q := range seqs {
		j := i.AddK(-q.at)
		if st.proveGe(j, K(0)) && (st.proveNe(c.In.U.ByteAt(q.seq, j)) || st.rangeFact(q.seq, j, j.AddK(1), false, 0)) {
			return true
		}
	}
	return false
}

// encodeOutcomes analyses Write for a version (0: any other).
func (c *Ctx) encodeOutcomes(m *MsgT, ver int, prep func(st *State, p VPtr)) (outs []Outcome, p VPtr, w *ssa.Function, ok bool) {
	w = c.R.method(m.T, "Write")
	if !c.ob(w != nil, "method", m.key()+".Write", c.In.pos(m.T.Obj().Pos()), "no method Write") {
		return
	}
	in := c.In
	in.reset()
	st := in.NewState()
	p = c.receiver(m, "m")
	v := Val(vint(int64(ver)))
	if ver == 0 {
		a := in.intAtom("version")
		st.addNe(L1(a).AddK(-1))
		st.addNe(L1(a).AddK(-2))
		v = VInt{L1(a)}
	}
	if prep != nil {
		prep(st, p)
	}
	outs, ok = c.run(w, []Val{p, v}, st)
	return
}

func (c *Ctx) encodeRules(m *MsgT, ver int, layoutOnly bool) {
	outs, p, w, ok := c.encodeOutcomes(m, ver, nil)
	if !ok {
		return
	}
	where := fmt.Sprintf("%s.Write v%d", m.key(), ver)
	if ver == 0 {
		where = m.key() + ".Write other version"
	}
	pos := c.pos(w)
	if !c.noPanic("encoding never panics", where, outs) {
		return
	}
	for _, o := range outs {
		st := o.St
		cls := errClass(st, o.Rets[1])
		out, isS := st.resolve(o.Rets[0]).(VSlice)
		if ver == 0 || ver == 1 && m.S.ID > 255 {
			empty := isS && (out.Obj == nil || st.proveEq(out.Len, K(0)))
			c.ob(cls == "err" && empty, "an impossible version is refused without output", where, pos, "the result is (%s, %s) [%s]", valString(o.Rets[0]), errName(st, o.Rets[1]), c.short(st.pathString()))
			continue
		}
		if !c.ob(cls == "nil", "encoding succeeds", where, pos, "encoding fails with %s [%s]", errName(st, o.Rets[1]), c.short(st.pathString())) {
			continue
		}
		if !c.ob(isS && out.Obj != nil, "encoding succeeds", where, pos, "no output [%s]", c.short(st.pathString())) {
			continue
		}
		got := st.sliceBytes(out)
		if ver == 1 {
			full, n := c.wire(st, m, p, true)
			c.ob(st.proveEq(out.Len, K(n)) && st.contentEq(got, full, K(n)), "version 1 encoding is exactly the base fields", where, pos,
				"the encoding is %s (%s bytes) instead of %s (%d bytes)", got, out.Len, full, n)
		} else {
			full, n := c.wire(st, m, p, false)
			okT, why := c.truncated(st, got, out.Len, full, n)
			c.ob(okT, "version 2 encoding is all fields without trailing zeroes", where, pos, "%s [%s]", why, c.short(st.pathString()))
		}
		if !layoutOnly {
			ch := st.changedCells(p.Obj)
			c.ob(len(ch) == 0, "encoding does not change the message", where, pos, "changes %s", strings.Join(ch, "; "))
			c.ob(out.Obj != p.Obj, "encoding does not alias the message", where, pos, "the output is memory of the message")
		}
	}
}

// roundTrip decodes the encoding.
func (c *Ctx) roundTrip(m *MsgT, ver int) {
	if ver == 1 && m.S.ID > 255 {
		return
	}
	if m.S.Variable {
		c.parallel(int(m.S.FullLen)-5+1, func(c *Ctx, i int) {
			c.roundTrip1(m, ver, func(st *State, p VPtr) { c.setPayloadLen(st, m, p, int64(i)) }, int64(i))
		})
		return
	}
	c.roundTrip1(m, ver, nil, 0)
}

// setPayloadLen fixes the length of a variable-length payload.
func (c *Ctx) setPayloadLen(st *State, m *MsgT, p VPtr, n int64) {
	if v := c.structField(m.T, "PayloadLength"); v != nil {
		st.storeCell(p.Obj, p.Path+".PayloadLength", v.Type(), vint(n))
	}
}

func (c *Ctx) roundTrip1(m *MsgT, ver int, prep func(st *State, p VPtr), pl int64) {
	outs, p, w, ok := c.encodeOutcomes(m, ver, prep)
	read := c.R.method(m.T, "Read")
	if !ok || !c.ob(read != nil, "method", m.key()+".Read", "", "no method Read") {
		return
	}
	where := fmt.Sprintf("%s v%d", m.key(), ver)
	pos := c.pos(w)
	if !c.noPanic("encoding never panics", where, outs) {
		return
	}
	for _, o := range outs {
		st := o.St
		out, isS := st.resolve(o.Rets[0]).(VSlice)
		if !c.ob(errClass(st, o.Rets[1]) == "nil" && isS && out.Obj != nil, "encoding succeeds", where, pos, "encoding fails with %s", errName(st, o.Rets[1])) {
			continue
		}
		got := st.sliceBytes(out)
		c.In.reset()
		fi := c.frame(st, ver, &m.S.ID, got, out.Len)
		q := c.receiver(m, "m2")
		orig := map[string]Val{}
		for _, f := range m.S.Fields {
			orig[f.Go] = c.fieldVal(st, m, p, f)
		}
		s2 := st.Clone()
		outs2, ok := c.run(read, []Val{q, fi.V}, s2)
		if !ok {
			return
		}
		if !c.noPanic("decoding an encoded message never panics", where, outs2) {
			continue
		}
		for _, o2 := range outs2 {
			s := o2.St
			if !c.ob(errClass(s, o2.Rets[0]) == "nil", "an encoded message decodes", where, c.pos(read), "decoding fails with %s", errName(s, o2.Rets[0])) {
				continue
			}
			for _, f := range m.S.Fields {
				if ver == 1 && f.Ext {
					continue
				}
				got := c.fieldVal(s, m, q, f)
				ok := c.sameVal(s, got, orig[f.Go])
				if m.S.Variable && f.Go == "Payload" {
					ok = c.samePrefix(s, got, orig[f.Go], pl, substConst(s, out.Len))
					c.ob(ok, "a field survives encoding and decoding", where+" "+f.Go, c.pos(read), "the %d payload bytes become %s", pl, valString(got))
					continue
				}
				if n := substConst(s, out.Len); !ok && n.IsConst() {
					t := s.Clone()
					t.pinRanges()
					ok = c.sameBytes(t, got, orig[f.Go], c.structField(m.T, f.Go).Type())
				} else if !ok {
					ok = true
					for l := int64(0); l <= m.S.FullLen && ok; l++ {
						t := s.Clone()
						if t.pin(out.Len.AddK(-l)) {
							t.pinRanges()
							ok = c.sameVal(t, got, orig[f.Go]) || c.sameBytes(t, got, orig[f.Go], c.structField(m.T, f.Go).Type())
						}
					}
				}
				c.ob(ok, "a field survives encoding and decoding", where+" "+f.Go, c.pos(read), "%s becomes %s [%s]", valString(orig[f.Go]), valString(got), c.short(s.pathString()))
			}
		}
	}
}

// pin assumes l == 0 and restates what is known about bytes at offsets that
// became constant by it.
func (st *State) pin(l Lin) bool {
	if !st.assume(Eq0(l)) {
		return false
	}
	stale := func(a *Atom) bool {
		if a.Kind != KByte || a.Off.IsConst() {
			return false
		}
		return !substConst(st, a.Off).Eq(a.Off)
	}
	type bnd struct {
		a      *Atom
		lo, hi int64
	}
	var bs []bnd
	seen := map[*Atom]bool{}
	add := func(a *Atom) {
		if !seen[a] && stale(a) {
			seen[a] = true
			lo, hi := st.bounds(a)
			bs = append(bs, bnd{a, lo, hi})
		}
	}
	for a := range st.lo {
		add(a)
	}
	for a := range st.hi {
		add(a)
	}
	for _, b := range bs {
		n := st.refresh(L1(b.a), 0)
		if b.lo > b.a.Lo && !st.addGe(n.AddK(-b.lo)) || b.hi < b.a.Hi && !st.addGe(K(b.hi).Sub(n)) {
			return false
		}
	}
	has := func(l Lin) bool {
		for _, t := range l.T {
			if stale(t.A) || t.A.Kind == KBits || t.A.Kind == KFold {
				return true
			}
		}
		return false
	}
	for _, f := range append([]Lin(nil), st.facts...) {
		if has(f) && !st.addGe(st.refresh(f, 0)) {
			return false
		}
	}
	for _, f := range append([]Lin(nil), st.nes...) {
		if has(f) && !st.addNe(st.refresh(f, 0)) {
			return false
		}
	}
	return true
}

// pinRanges states what the range facts with constant bounds say about each
// byte.
func (st *State) pinRanges() {
	for _, r := range st.ranges {
		lo, hi := substConst(st, r.Lo), substConst(st, r.Hi)
		if !lo.IsConst() || !hi.IsConst() || hi.C-lo.C > 4096 {
			continue
		}
		for i := lo.C; i < hi.C; i++ {
			b := st.segByte(SrcSeg(r.Seq, K(i), K(1)), K(0))
			if r.Eq {
				st.addGe(b.AddK(-r.V).Neg())
				st.addGe(b.AddK(-r.V))
			} else {
				st.addNe(b.AddK(-r.V))
			}
		}
	}
}

// sameBytes compares the encodings of two values.
func (c *Ctx) sameBytes(st *State, a, b Val, t types.Type) bool {
	x, ok1 := c.In.encode(st, st.refreshVal(a), t, false)
	y, ok2 := c.In.encode(st, b, t, false)
	n := x.Len()
	return ok1 && ok2 && n.IsConst() && n.Eq(y.Len()) && st.contentEq(st.refreshVal(VArr{x, n}).(VArr).C, y, n)
}

// samePrefix compares the first n bytes of two byte arrays, length by length
// of the encoding if that is not constant.
func (c *Ctx) samePrefix(s *State, a, b Val, n int64, enc Lin) bool {
	one := func(t *State) bool {
		t.pinRanges()
		x, ok1 := t.refreshVal(a).(VArr)
		y, ok2 := t.refreshVal(b).(VArr)
		return ok1 && ok2 && t.contentEq(x.C, y.C, K(n))
	}
	if enc.IsConst() {
		return one(s.Clone())
	}
	for l := int64(0); l <= 255; l++ {
		t := s.Clone()
		if t.pin(enc.AddK(-l)) && !one(t) {
			return false
		}
	}
	return true
}

// ---- the variable-length message (C25) ------------------------------------

func (c *Ctx) variableRules(m *MsgT) {
	in := c.In
	const hdr = 5
	max := int64(m.S.FullLen) - hdr
	pv, lv := c.structField(m.T, "Payload"), c.structField(m.T, "PayloadLength")
	if !c.ob(pv != nil && lv != nil, "payload fields", m.key(), c.In.pos(m.T.Obj().Pos()), "no fields Payload and PayloadLength") {
		return
	}
	// decoding, then taking the payload
	read, get := c.R.method(m.T, "Read"), c.R.method(m.T, "GetPayload")
	if c.ob(read != nil && get != nil, "method", m.key(), "", "Read or GetPayload is missing") {
		for ver := 1; ver <= 2; ver++ {
			in.reset()
			st := in.NewState()
			fi := c.frame(st, ver, nil, nil, Lin{})
			p := c.receiver(m, "m")
			where := fmt.Sprintf("%s.Read v%d", m.key(), ver)
			outs, ok := c.run(read, []Val{p, fi.V}, st)
			if !ok || !c.noPanic("decoding never panics", where, outs) {
				continue
			}
			for _, o := range outs {
				if !c.ob(errClass(o.St, o.Rets[0]) == "nil", "a frame of the message decodes", where, c.pos(read), "decoding fails with %s [%s]", errName(o.St, o.Rets[0]), c.short(o.St.pathString())) {
					continue
				}
				c.expectDecoded(o.St, m, p, Content{SrcSeg(fi.Seq, K(fi.Hdr), fi.L)}, fi.L, ver, "every field comes from its payload bytes", "Read "+where, c.pos(read))
				c.payloadLength(o.St, m, p, fi, "Read "+where, c.pos(read))
				for l := int64(0); l <= 255; l++ {
					t := o.St.Clone()
					if !t.pin(fi.L.AddK(-l)) {
						continue
					}
					t.storeCell(p.Obj, p.Path+".PayloadLength", lv.Type(), t.refreshVal(t.loadCell(p.Obj, p.Path+".PayloadLength", lv.Type())))
					outs2, ok := c.run(get, []Val{p}, t)
					if !ok || !c.noPanic("the payload of a decoded message can be taken", m.key()+".GetPayload", outs2) {
						break
					}
					n := l - hdr
					if n < 0 {
						n = 0
					}
					if n > max {
						n = max
					}
					for _, o2 := range outs2 {
						v, isS := o2.St.resolve(o2.Rets[0]).(VSlice)
						good := isS && o2.St.proveEq(v.Len, K(n))
						if good && n > 0 {
							good = o2.St.contentEq(o2.St.refreshVal(VArr{o2.St.sliceBytes(v), K(n)}).(VArr).C, Content{SrcSeg(fi.Seq, K(fi.Hdr+hdr), K(n))}, K(n))
						}
						c.ob(good, "the payload taken is the payload received", fmt.Sprintf("%s v%d", m.key(), ver), c.pos(get), "for a frame with %d message bytes GetPayload gives %s", l, valString(o2.Rets[0]))
					}
				}
			}
		}
	}
	// encoding
	w := c.R.method(m.T, "Write")
	if c.ob(w != nil, "method", m.key()+".Write", "", "no method Write") {
		c.parallel(2*256, func(c *Ctx, i int) {
			ver, pl := i/256+1, int64(i%256)
			where := fmt.Sprintf("%s.Write v%d", m.key(), ver)
			outs, p, w, ok := c.encodeOutcomes(m, ver, func(st *State, p VPtr) { c.setPayloadLen(st, m, p, pl) })
			if !ok || !c.noPanic("encoding never panics", where, outs) {
				return
			}
			for _, o := range outs {
				st := o.St
				out, isS := st.resolve(o.Rets[0]).(VSlice)
				if pl > max {
					c.ob(errClass(st, o.Rets[1]) == "err" && isS && (out.Obj == nil || st.proveEq(out.Len, K(0))), "an impossible payload length is refused", where, c.pos(w), "a payload length of %d gives (%s, %s)", pl, valString(o.Rets[0]), errName(st, o.Rets[1]))
					continue
				}
				if !c.ob(errClass(st, o.Rets[1]) == "nil" && isS && out.Obj != nil, "encoding succeeds", where, c.pos(w), "a payload length of %d fails with %s [%s]", pl, errName(st, o.Rets[1]), c.short(st.pathString())) {
					continue
				}
				full, n := c.wire(st, m, p, false)
				n -= max - pl
				full = st.cut(full, K(0), K(n))
				got := st.sliceBytes(out)
				if ver == 1 {
					c.ob(st.proveEq(out.Len, K(n)) && st.contentEq(got, full, K(n)), "the encoding is the header and the payload bytes", where, c.pos(w), "with a payload of %d bytes the encoding is %s (%s bytes)", pl, got, out.Len)
				} else {
					okT, why := c.truncated(st, got, out.Len, full, n)
					c.ob(okT, "the encoding is the header and the payload bytes", where, c.pos(w), "with a payload of %d bytes: %s [%s]", pl, why, c.short(st.pathString()))
				}
				ch := st.changedCells(p.Obj)
				for i := 0; i < len(ch); i++ {
					if strings.HasPrefix(ch[i], p.Obj.Name+".PayloadLength ") && valKey(st.loadCell(p.Obj, p.Path+".PayloadLength", lv.Type())) == valKey(vint(pl)) {
						ch = append(ch[:i], ch[i+1:]...)
						i--
					}
				}
				c.ob(len(ch) == 0, "encoding does not change the message", where, c.pos(w), "changes %s", strings.Join(ch, "; "))
			}
		})
	}
	// setting
	set := c.R.method(m.T, "SetPayloadSlice")
	if c.ob(set != nil, "method", m.key()+".SetPayloadSlice", "", "no method SetPayloadSlice") {
		in.reset()
		st := in.NewState()
		p := c.receiver(m, "m")
		arg := in.symVal(st, "payload", types.NewSlice(types.Typ[types.Uint8])).(VSlice)
		outs, ok := c.run(set, []Val{p, arg}, st)
		where := m.key() + ".SetPayloadSlice"
		if ok && c.noPanic("setting never panics", where, outs) {
			for _, o := range outs {
				for _, long := range []bool{false, true} {
					s := o.St.Clone()
					v := s.resolve(arg).(VSlice)
					n := v.Len
					if long {
						if !s.assume(Ge(n.AddK(-max - 1))) {
							continue
						}
						n = K(max)
					} else if !s.assume(Ge(K(max).Sub(n))) {
						continue
					}
					got, isA := s.loadCell(p.Obj, p.Path+".Payload", pv.Type()).(VArr)
					var want Content
					if v.Obj != nil {
						want = s.cut(s.sliceBytes(v), K(0), n)
					}
					c.ob(isA && (v.Obj == nil || s.contentEq(got.C, want, n)), "the payload is stored", where, c.pos(set), "the payload becomes %s [%s]", valString(s.loadCell(p.Obj, p.Path+".Payload", pv.Type())), c.short(s.pathString()))
					pl, isI := s.loadCell(p.Obj, p.Path+".PayloadLength", lv.Type()).(VInt)
					okLen := isI && s.proveEq(pl.L, n)
					if isI && !okLen && !long {
						okLen = true
						for l := int64(0); l <= max && okLen; l++ {
							t := s.Clone()
							if t.pin(n.AddK(-l)) {
								okLen = t.proveEq(t.refresh(pl.L, 0), K(l))
							}
						}
					}
					c.ob(okLen, "the payload length is the number of bytes stored", where, c.pos(set), "PayloadLength becomes %s [%s]", valString(s.loadCell(p.Obj, p.Path+".PayloadLength", lv.Type())), c.short(s.pathString()))
					cls := errClass(s, o.Rets[0])
					if long {
						c.ob(cls == "err" && strings.HasSuffix(errName(s, o.Rets[0]), ".ErrValueTooLong"), "an over-long payload is reported", where, c.pos(set), "a payload of more than %d bytes gives %s", max, errName(s, o.Rets[0]))
					} else {
						c.ob(cls == "nil", "a fitting payload is accepted", where, c.pos(set), "a payload of at most %d bytes gives %s [%s]", max, errName(s, o.Rets[0]), c.short(s.pathString()))
					}
					var other []string
					for _, ch := range s.changedCells(p.Obj) {
						if !strings.HasPrefix(ch, p.Obj.Name+".Payload ") && !strings.HasPrefix(ch, p.Obj.Name+".PayloadLength ") {
							other = append(other, ch)
						}
					}
					c.ob(len(other) == 0, "no other field is touched", where, c.pos(set), "also changes %s", strings.Join(other, "; "))
				}
			}
		}
	}
}
