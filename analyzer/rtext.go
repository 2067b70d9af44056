package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- text rendering (C15) ----------------------------------------------------

// flatText expands formatted pieces whose text is known structurally.
func flatText(c Content) Content {
	var r Content
	for _, g := range c {
		if g.Kind == SegFmt && (strings.HasPrefix(g.Verb, "tab(") || g.Verb == "%s" || g.Verb == "%v") {
			v := g.Arg
			if i, ok := v.(VIface); ok && i.Dyn != nil {
				v = i.V
			}
			if s, ok := v.(VStr); ok {
				r = append(r, flatText(s.C)...)
				continue
			}
		}
		if g.Kind == SegVal && g.Val.IsConst() {
			g = Seg{Kind: SegLit, Lit: string([]byte{byte(g.Val.C)}), Len: K(1)}
		}
		r = append(r, g)
	}
	var out Content
	for _, g := range r {
		if n := len(out); n > 0 && g.Kind == SegLit && out[n-1].Kind == SegLit {
			out[n-1].Lit += g.Lit
			continue
		}
		out = append(out, g)
	}
	return out
}

// label is the name in front of a value.
func label(lit string) string {
	if i := strings.LastIndexByte(lit, '\n'); i >= 0 {
		lit = lit[i+1:]
	}
	lit = strings.TrimRight(lit, " \t")
	return strings.TrimSpace(strings.TrimRight(lit, ":= \t"))
}

func (c *Ctx) textRules(m *MsgT) {
	f := c.R.method(m.T, "String")
	if !c.ob(f != nil, "method", m.key()+".String", c.In.pos(m.T.Obj().Pos()), "no method String") {
		return
	}
	in := c.In
	in.reset()
	st := in.NewState()
	p := c.receiver(m, "m")
	outs, ok := c.run(f, []Val{p}, st)
	if !ok {
		return
	}
	pos := c.pos(f)
	if !c.noPanic("rendering never panics", m.key(), outs) {
		return
	}
	names := map[string]bool{}
	for _, x := range m.S.Fields {
		names[x.Go] = true
	}
	seenExt := map[bool]bool{}
	for _, o := range outs {
		s := o.St
		v, isS := s.resolve(o.Rets[0]).(VStr)
		if !c.ob(isS, "rendering gives a text", m.key(), pos, "result %s", valString(o.Rets[0])) {
			continue
		}
		// whether the message has extension values on this path
		ext := []bool{false}
		if m.S.HasExt() {
			fv := s.loadCell(p.Obj, ".HasExtensionFieldValues", types.Typ[types.Bool]).(VBool)
			if b, k := s.decide(fv.C); k {
				ext = []bool{b}
			} else {
				ext = []bool{false, true}
			}
		}
		for _, e := range ext {
			seenExt[e] = true
			c.textOf(s, m, p, flatText(s.flatten(v.C)), e, pos)
		}
		ch := s.changedCells(p.Obj)
		c.ob(len(ch) == 0, "rendering does not change the message", m.key(), pos, "changes %s", strings.Join(ch, "; "))
	}
}

func (c *Ctx) textOf(s *State, m *MsgT, p VPtr, text Content, ext bool, pos string) {
	where := m.key()
	if m.S.HasExt() {
		where += fmt.Sprintf(" (extension values: %v)", ext)
	}
	// pieces: (label, value)
	type piece struct {
		lab string
		v   Val
		seg Seg
	}
	var ps []piece
	all := ""
	lit := ""
	for _, g := range text {
		if g.Kind == SegLit {
			lit += g.Lit
			all += g.Lit
			continue
		}
		a := g.Arg
		if g.Kind != SegFmt {
			a = VStr{Content{g}, g.Len}
		}
		if i, ok := a.(VIface); ok && i.Dyn != nil {
			a = i.V
		}
		ps = append(ps, piece{label(lit), a, g})
		lit = ""
		all += "\x00"
	}
	head := m.S.Dialect + "/" + m.S.Go
	first := all
	if i := strings.IndexByte(first, 0); i >= 0 {
		first = first[:i]
	}
	c.ob(strings.Contains(first, head) || strings.Contains(first, m.S.Dialect) && strings.Contains(first, m.S.Go), "the text starts with dialect and message name", where, pos, "the text starts with %q instead of naming %s", first, head)
	// values
	var want []SpecField
	for _, f := range m.S.Fields {
		if f.Ext && !ext {
			continue
		}
		want = append(want, f)
	}
	i := 0
	for _, f := range want {
		if i >= len(ps) {
			c.ob(false, "every field is shown once, in order", where+" "+f.Go, pos, "field %s is not shown", f.Go)
			return
		}
		x := ps[i]
		i++
		if !c.ob(x.lab == f.Go, "every field is shown once, in order", where+" "+f.Go, pos, "expected field %s, but the text shows %q with the value %s", f.Go, x.lab, valString(x.v)) {
			return
		}
		val := c.fieldVal(s, m, p, f)
		c.ob(c.showsField(s, x.v, val), "the value shown is the field's", where+" "+f.Go, pos, "the value shown for %s is %s", f.Go, valString(x.v))
	}
	for ; i < len(ps); i++ {
		x := ps[i]
		if m.S.Variable && x.lab == "PayloadLength" {
			v := c.structField(m.T, "PayloadLength")
			c.ob(v != nil && c.sameVal(s, x.v, s.loadCell(p.Obj, ".PayloadLength", v.Type())), "the value shown is the field's", where+" PayloadLength", pos, "the value shown is %s", valString(x.v))
			continue
		}
		c.ob(false, "nothing else is shown", where+" "+x.lab, pos, "the text shows %q with %s after the last field", x.lab, valString(x.v))
	}
	// a field name followed by no value (fields left out of the argument list)
	tail := label(lit)
	for _, f := range m.S.Fields {
		if tail == f.Go {
			c.ob(false, "nothing else is shown", where+" "+f.Go, pos, "the text names %s without a value", f.Go)
		}
	}
	c.ob(!strings.Contains(all, "%!"), "every value is formatted", where, pos, "format and arguments do not match: %q", all)
}

// showsField: the value, or the text of a text field.
func (c *Ctx) showsField(s *State, got, val Val) bool {
	if c.sameVal(s, got, val) {
		return true
	}
	if a, ok := val.(VArr); ok {
		if t, ok := got.(VStr); ok { // string(m.F[:k])
			return s.proveGe(a.N, t.N) && s.contentEq(t.C, a.C, t.N)
		}
		if t, ok := got.(VSlice); ok && t.Obj != nil {
			return s.proveGe(a.N, t.Len) && s.contentEq(s.sliceBytes(t), a.C, t.Len)
		}
	}
	if a, ok := val.(VArray); ok {
		if t, ok := got.(VArray); ok && len(a.E) == len(t.E) {
			for i := range a.E {
				if !c.sameVal(s, a.E[i], t.E[i]) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// ---- text fields (C14) ----------------------------------------------------------

func (m *MsgT) textFields() []SpecField {
	var r []SpecField
	if m.S.Variable {
		return nil
	}
	for _, f := range m.S.Fields {
		if f.Type == "byte" && f.Array > 0 {
			r = append(r, f)
		}
	}
	return r
}

func (c *Ctx) setterRules(m *MsgT, f SpecField) {
	set := c.R.method(m.T, "Set"+f.Go)
	k := m.key() + ".Set" + f.Go
	if !c.ob(set != nil, "setter", k, c.In.pos(m.T.Obj().Pos()), "text field %s has no setter", f.Go) {
		return
	}
	in := c.In
	in.reset()
	st := in.NewState()
	p := c.receiver(m, "m")
	input := in.symVal(st, "input", types.Typ[types.String]).(VStr)
	outs, ok := c.run(set, []Val{p, input}, st)
	if !ok {
		return
	}
	pos := c.pos(set)
	if !c.noPanic("setting never panics", k, outs) {
		return
	}
	N := int64(f.Array)
	cell0 := "." + f.Go
	for _, o := range outs {
		for _, long := range []bool{false, true} {
			s := o.St.Clone()
			if long {
				if !s.assume(Ge(input.N.AddK(-N - 1))) {
					continue
				}
			} else if !s.assume(Ge(K(N).Sub(input.N))) {
				continue
			}
			n := input.N
			if long {
				n = K(N)
			}
			want := s.norm(append(s.cut(input.C, K(0), n), ZeroSeg(K(N).Sub(n))))
			got, isA := c.fieldVal(s, m, p, f).(VArr)
			c.ob(isA && c.arrEq(s, got.C, want, N, n), "the text is stored, followed by zeroes", k, pos, "the field becomes %s instead of %s [%s]", valString(c.fieldVal(s, m, p, f)), want, c.short(s.pathString()))
			cls := errClass(s, o.Rets[0])
			if long {
				c.ob(cls == "err" && strings.HasSuffix(errName(s, o.Rets[0]), ".ErrValueTooLong"), "an over-long text is reported", k, pos, "a text longer than %d bytes gives %s", N, errName(s, o.Rets[0]))
			} else {
				c.ob(cls == "nil", "a fitting text is accepted", k, pos, "a text of at most %d bytes gives %s [%s]", N, errName(s, o.Rets[0]), c.short(s.pathString()))
			}
			var other []string
			for _, ch := range s.changedCells(p.Obj) {
				if !strings.HasPrefix(ch, p.Obj.Name+cell0+" ") {
					other = append(other, ch)
				}
			}
			c.ob(len(other) == 0, "no other field is touched", k, pos, "also changes %s", strings.Join(other, "; "))
		}
	}
}

// arrEq compares two N-byte contents, splitting on the length n if needed.
func (c *Ctx) arrEq(s *State, a, b Content, N int64, n Lin) bool {
	if s.contentEq(a, b, K(N)) {
		return true
	}
	if n.IsConst() {
		return false
	}
	for l := int64(0); l <= N; l++ {
		t := s.Clone()
		if !t.pin(n.AddK(-l)) {
			continue
		}
		x := t.refreshVal(VArr{a, K(N)}).(VArr)
		y := t.refreshVal(VArr{b, K(N)}).(VArr)
		if !t.contentEq(x.C, y.C, K(N)) {
			return false
		}
	}
	return true
}

func (c *Ctx) getterRules(m *MsgT, f SpecField) {
	get := c.R.method(m.T, "Get"+f.Go)
	k := m.key() + ".Get" + f.Go
	if !c.ob(get != nil, "getter", k, c.In.pos(m.T.Obj().Pos()), "text field %s has no getter", f.Go) {
		return
	}
	in := c.In
	in.reset()
	st := in.NewState()
	p := c.receiver(m, "m")
	outs, ok := c.run(get, []Val{p}, st)
	if !ok {
		return
	}
	pos := c.pos(get)
	if !c.noPanic("getting never panics", k, outs) {
		return
	}
	N := int64(f.Array)
	for _, o := range outs {
		s := o.St
		v, isS := s.resolve(o.Rets[0]).(VStr)
		if !c.ob(isS, "getting gives a text", k, pos, "result %s", valString(o.Rets[0])) {
			continue
		}
		arr, isA := c.fieldVal(s, m, p, f).(VArr)
		if !c.ob(isA, "getting does not change the field", k, pos, "field is %s", valString(c.fieldVal(s, m, p, f))) {
			continue
		}
		n := substConst(s, v.N)
		ok, why := c.upToZero(s, v.C, n, arr.C, N)
		c.ob(ok, "the text is the field up to the first zero", k, pos, "%s [%s]", why, c.short(s.pathString()))
		ch := s.changedCells(p.Obj)
		c.ob(len(ch) == 0, "getting does not change the message", k, pos, "changes %s", strings.Join(ch, "; "))
	}
}

// upToZero: text (n bytes) is arr up to its first zero byte or its end.
func (c *Ctx) upToZero(s *State, text Content, n Lin, arr Content, N int64) (bool, string) {
	if !s.prove(n) || !s.proveGe(K(N), n) {
		return false, fmt.Sprintf("the length %s is not within 0..%d", n, N)
	}
	if !s.contentEq(text, arr, n) {
		if n.IsConst() {
			return false, fmt.Sprintf("the text is %s", text)
		}
	}
	seqs := c.fullSeqs(s, arr, N)
	noZero := func(s *State, n Lin) bool {
		if s.proveEq(n, K(0)) {
			return true
		}
		if len(arr) == 1 && arr[0].Kind == SegSrc && s.rangeFact(arr[0].Seq, arr[0].Off, arr[0].Off.Add(n), false, 0) {
			return true
		}
		for _, q := range seqs {
			if q.at == 0 && s.rangeFact(q.seq, K(0), n, false, 0) {
				return true
			}
		}
		if n.IsConst() {
			for i := int64(0); i < n.C; i++ {
				if !c.nonZeroAt(s, arr, K(i), seqs) {
					return false
				}
			}
			return true
		}
		return false
	}
	ends := func(s *State, n Lin) bool {
		if s.proveEq(n, K(N)) {
			return true
		}
		if s.proveEq(s.byteAt(arr, n), K(0)) {
			return true
		}
		for _, q := range seqs {
			if j := n.AddK(-q.at); s.prove(j) && s.proveEq(c.In.U.ByteAt(q.seq, j), K(0)) {
				return true
			}
		}
		return false
	}
	if s.contentEq(text, arr, n) && noZero(s, n) && ends(s, n) {
		return true, ""
	}
	if n.IsConst() {
		return false, fmt.Sprintf("the text has %d bytes, but a zero byte may be inside, or its end is no zero byte", n.C)
	}
	for l := int64(0); l <= N; l++ {
		t := s.Clone()
		if !t.pin(n.AddK(-l)) {
			continue
		}
		x := t.refreshVal(VArr{text, K(l)}).(VArr)
		if !(t.contentEq(x.C, arr, K(l)) && noZero(t, K(l)) && ends(t, K(l))) {
			return false, fmt.Sprintf("a text of %d bytes is returned although a zero byte may be inside, or its end is no zero byte, or it differs", l)
		}
	}
	return true, ""
}

// ---- names and ids (C11) -----------------------------------------------------------

func (c *Ctx) constResult(fn *ssa.Function, recv Val, rule, where string) (Val, *State, bool) {
	in := c.In
	in.reset()
	st := in.NewState()
	var args []Val
	if recv != nil {
		args = append(args, recv)
	}
	outs, ok := c.run(fn, args, st)
	if !ok || !c.noPanic(rule, where, outs) {
		return nil, nil, false
	}
	k := ""
	for i, o := range outs {
		if i == 0 {
			k = valKey(o.Rets[0])
		} else if valKey(o.Rets[0]) != k {
			c.ob(false, rule, where, c.pos(fn), "the result is not constant: %s", valString(o.Rets[0]))
			return nil, nil, false
		}
	}
	return outs[0].Rets[0], outs[0].St, true
}

func (c *Ctx) nameRules(m *MsgT) {
	str := func(meth, want, rule string) {
		f := c.R.method(m.T, meth)
		if !c.ob(f != nil, "method", m.key()+"."+meth, c.In.pos(m.T.Obj().Pos()), "no method %s", meth) {
			return
		}
		v, _, ok := c.constResult(f, c.receiver(m, "m"), rule, m.key())
		if !ok {
			return
		}
		got := "?"
		if s, isS := v.(VStr); isS {
			if b, k := constBytes(s.C); k {
				got = b
			}
		}
		c.ob(got == want, rule, m.key(), c.pos(f), "%s gives %q instead of %q", meth, got, want)
	}
	str("GetMessageName", m.S.Go, "the message reports its own name")
	str("GetDialect", m.S.Dialect, "the message reports its dialect's name")
	f := c.R.method(m.T, "GetID")
	if c.ob(f != nil, "method", m.key()+".GetID", "", "no method GetID") {
		v, _, ok := c.constResult(f, c.receiver(m, "m"), "the message reports its id", m.key())
		if ok {
			i, isI := v.(VInt)
			c.ob(isI && i.L.IsConst() && i.L.C == m.S.ID, "the message reports its id", m.key(), c.pos(f), "GetID gives %s instead of %d", valString(v), m.S.ID)
		}
	}
}

// dialectType finds the type of a package that is a dialect.
func (c *Ctx) dialectType(pkg string) *types.Named {
	t := c.R.typ(c.R.pkgPath(pkg), "Dialect")
	return t
}

func (c *Ctx) dialectVal(t *types.Named) Val { return c.In.zeroVal(t) }

// lookupMeta evaluates GetMeta for an id.
func (c *Ctx) dialectCall(pkg, meth string, args func(st *State) []Val) ([]Outcome, *ssa.Function, bool) {
	t := c.dialectType(pkg)
	if !c.ob(t != nil, "dialect type", pkg, "", "package %s has no type Dialect", pkg) {
		return nil, nil, false
	}
	f := c.R.method(t, meth)
	if !c.ob(f != nil, "dialect method", pkg+"."+meth, c.In.pos(t.Obj().Pos()), "the dialect has no method %s", meth) {
		return nil, nil, false
	}
	c.In.reset()
	st := c.In.NewState()
	recv := c.dialectVal(t)
	if _, isPtr := f.Signature.Recv().Type().(*types.Pointer); isPtr {
		o := c.In.symObj("*dialect", t)
		recv = VPtr{Obj: o}
	}
	a := append([]Val{recv}, args(st)...)
	outs, ok := c.run(f, a, st)
	return outs, f, ok
}

func isErr(st *State, v Val, suffix string) bool {
	return errClass(st, v) == "err" && strings.HasSuffix(errName(st, v), suffix)
}

// metaRules: the metadata of a listed message.
func (c *Ctx) metaFor(m *MsgT) (crc, min, max int64, pos string, ok bool) {
	outs, f, ok := c.dialectCall(m.S.Pkg, "GetMeta", func(st *State) []Val { return []Val{VInt{K(m.S.ID)}} })
	if !ok {
		return
	}
	pos = c.pos(f)
	if !c.noPanic("looking up never panics", m.key()+" GetMeta", outs) {
		return 0, 0, 0, pos, false
	}
	for _, o := range outs {
		if !c.ob(errClass(o.St, o.Rets[1]) == "nil", "a listed message has metadata", m.key(), pos, "GetMeta(%d) gives %s", m.S.ID, errName(o.St, o.Rets[1])) {
			return 0, 0, 0, pos, false
		}
		v, isS := o.Rets[0].(VStruct)
		if !c.ob(isS, "a listed message has metadata", m.key(), pos, "GetMeta(%d) gives %s", m.S.ID, valString(o.Rets[0])) {
			return 0, 0, 0, pos, false
		}
		get := func(n string) int64 {
			s := under(v.T).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == n {
					if x, ok := v.F[i].(VInt); ok && x.L.IsConst() {
						return x.L.C
					}
				}
			}
			return -1
		}
		crc, min, max = get("CRCExtra"), get("MinimumLength"), get("MaximumLength")
	}
	return crc, min, max, pos, true
}

func (c *Ctx) metaRules(m *MsgT) {
	crc, min, max, pos, ok := c.metaFor(m)
	if !ok {
		return
	}
	c.ob(crc == m.S.CRC, "the CRC extra follows from the definition", m.key(), pos, "CRCExtra of id %d is %d, the definition gives %d", m.S.ID, crc, m.S.CRC)
	c.ob(min == m.S.Min, "the minimal length follows from the definition", m.key(), pos, "MinimumLength of id %d is %d, the definition gives %d", m.S.ID, min, m.S.Min)
	c.ob(max == m.S.Max, "the maximal length follows from the definition", m.key(), pos, "MaximumLength of id %d is %d, the definition gives %d", m.S.ID, max, m.S.Max)
}

// parseRules: decoding by id.
func (c *Ctx) parseRules(m *MsgT, ver int, deep bool) {
	if ver == 1 && m.S.ID > 255 {
		return
	}
	var fi FrameIn
	var mem Val
	where := fmt.Sprintf("GetMessage v%d", ver)
	outs, f, ok := c.dialectCall(m.S.Pkg, "GetMessage", func(st *State) []Val {
		id := m.S.ID
		fi = c.frame(st, ver, &id, nil, Lin{})
		if deep {
			st.assume(Ge(K(m.S.FullLen).Sub(fi.L)))
		} else {
			st.assume(Ge(fi.L.AddK(-m.S.FullLen - 1)))
		}
		mem = st.heap[cell{fi.Slice.Obj, ""}]
		return []Val{fi.V}
	})
	if !ok {
		return
	}
	pos := c.pos(f)
	if !c.noPanic("decoding by id never panics", m.key()+" "+where, outs) {
		return
	}
	for _, o := range outs {
		s := o.St
		if !deep && errClass(s, o.Rets[1]) == "err" && !isErr(s, o.Rets[1], ".ErrUnknownMessage") {
			continue // the message refuses a payload that is too long for it
		}
		if !c.ob(errClass(s, o.Rets[1]) == "nil", "a listed id decodes", m.key()+" "+where, pos, "decoding id %d gives %s", m.S.ID, errName(s, o.Rets[1])) {
			continue
		}
		i, isI := s.resolve(o.Rets[0]).(VIface)
		p, isP := i.V.(VPtr)
		if !c.ob(isI && isP && i.Dyn != nil && types.Identical(deref(i.Dyn), m.T), "a listed id decodes to its own message type", m.key()+" "+where, pos, "id %d decodes to %s", m.S.ID, typeString(i)) {
			continue
		}
		c.ob(p.Obj != nil && p.Obj.Kind == OAlloc && p.Path == "", "decoding yields a fresh message", m.key()+" "+where, pos, "the message is %s", valString(p))
		if deep {
			c.expectDecoded(s, m, p, Content{SrcSeg(fi.Seq, K(fi.Hdr), fi.L)}, fi.L, ver, "the message is filled from the frame", where, pos)
			c.extFlag(s, m, p, ver, "the message is filled from the frame", where, pos)
		}
		c.ob(c.frameUnchanged(s, fi, mem), "decoding leaves the frame alone", m.key()+" "+where, pos, "the frame's bytes are modified")
	}
}

func typeString(i VIface) string {
	if i.Dyn == nil {
		return valString(i)
	}
	return i.Dyn.String()
}

// parseErr: the decoding error is passed on.
func (c *Ctx) parseErr(m *MsgT) {
	outs, f, ok := c.dialectCall(m.S.Pkg, "GetMessage", func(st *State) []Val {
		fr := VIface{Atom: "f", Typ: c.R.typ(c.R.Mod, "Frame")}
		ver := c.In.intAtom("f.GetVersion()")
		st.addNe(L1(ver).AddK(-1))
		st.addNe(L1(ver).AddK(-2))
		id := c.In.U.Atom("f.GetMessageID()", KOpaque, 0, 1<<32-1)
		st.assume(Eq0(L1(id).AddK(-m.S.ID)))
		return []Val{fr}
	})
	if !ok || !c.noPanic("decoding by id never panics", m.key()+" other version", outs) {
		return
	}
	for _, o := range outs {
		c.ob(errClass(o.St, o.Rets[1]) == "err" && !isErr(o.St, o.Rets[1], ".ErrUnknownMessage"), "a decoding error is passed on", m.key(), c.pos(f), "a frame of an unsupported version gives %s", errName(o.St, o.Rets[1]))
	}
}

// unknownRules: every id that is not listed is unknown for both lookups.
func (c *Ctx) unknownRules(pkg string) {
	listed := map[int64]bool{}
	for _, s := range specByPkg(pkg) {
		if s.Registered {
			listed[s.ID] = true
		}
	}
	ids := make([]int64, 0, len(listed))
	for id := range listed {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	exclude := func(st *State, l Lin) {
		for _, id := range ids {
			st.addNe(l.AddK(-id))
		}
	}
	known := map[string]map[string]bool{}
	try := func(meth string, args func(st *State) []Val, idAtom func() Lin) {
		known[meth] = map[string]bool{}
		outs, f, ok := c.dialectCall(pkg, meth, args)
		if !ok || !c.noPanic("looking up never panics", pkg+"."+meth, outs) {
			return
		}
		for _, o := range outs {
			if isErr(o.St, o.Rets[1], ".ErrUnknownMessage") {
				continue
			}
			l := substConst(o.St, idAtom())
			known[meth][l.String()] = true
			_ = f
		}
	}
	try("GetMeta", func(st *State) []Val {
		a := L1(c.In.U.Atom("id", KOpaque, 0, 1<<32-1))
		exclude(st, a)
		return []Val{VInt{a}}
	}, func() Lin { return L1(c.In.U.Atom("id", KOpaque, 0, 1<<32-1)) })
	try("GetMessage", func(st *State) []Val {
		a := L1(c.In.U.Atom("f.GetMessageID()", KOpaque, 0, 1<<32-1))
		exclude(st, a)
		return []Val{VIface{Atom: "f", Typ: c.R.typ(c.R.Mod, "Frame")}}
	}, func() Lin { return L1(c.In.U.Atom("f.GetMessageID()", KOpaque, 0, 1<<32-1)) })
	norm := func(s string) string { return strings.ReplaceAll(s, "f.GetMessageID()", "id") }
	a, b := map[string]bool{}, map[string]bool{}
	for k := range known["GetMeta"] {
		a[norm(k)] = true
	}
	for k := range known["GetMessage"] {
		b[norm(k)] = true
	}
	var odd []string
	for k := range a {
		if !b[k] {
			odd = append(odd, k+" has metadata, but cannot be decoded")
		}
	}
	for k := range b {
		if !a[k] {
			odd = append(odd, k+" can be decoded, but has no metadata")
		}
	}
	// an id that is not a constant means "some id", which is not the same id
	for k := range a {
		if strings.Contains(k, "id") {
			odd = append(odd, "ids other than the listed ones are not reported as unknown")
		}
	}
	sort.Strings(odd)
	c.ob(len(odd) == 0, "ids are known for both lookups or for none", pkg, "", "%s", strings.Join(odd, "; "))
}

// ---- enumerations (C16) -------------------------------------------------------------

func (c *Ctx) enumRules() {
	for _, e := range specEnums {
		p := c.R.SSA[c.R.pkgPath(e.Pkg)]
		if !c.ob(p != nil, "package", e.Pkg, "", "package %s is missing", e.Pkg) {
			continue
		}
		vals := map[int64]string{}
		var max int64
		hasMax := false
		for _, x := range e.Entries {
			k := e.Pkg + "." + x.Go
			o, _ := p.Pkg.Scope().Lookup(x.Go).(*types.Const)
			if !c.ob(o != nil, "enumeration constant", k, "", "constant %s of %s is missing", x.Go, e.Name) {
				continue
			}
			v, exact := constant.Int64Val(constant.ToInt(o.Val()))
			pos := c.In.pos(o.Pos())
			c.ob(exact && v == x.Value, "the constant has its defined value", k, pos, "%s = %s, the definition of %s says %d", x.Go, o.Val(), e.Name, x.Value)
			if strings.HasSuffix(x.Go, "EnumEnd") {
				c.ob(hasMax && v == max+1, "the end marker is one more than the largest entry", k, pos, "%s = %d, the largest entry is %d", x.Go, v, max)
				continue
			}
			if other, dup := vals[v]; dup {
				c.ob(false, "entries are distinct", k, pos, "%s and %s of %s are both %d", other, x.Go, e.Name, v)
			}
			vals[v] = x.Go
			if !hasMax || v > max {
				max, hasMax = v, true
			}
		}
		c.ob(true, "entries are distinct", e.Pkg+"."+e.Name, "", "")
	}
}

// ---- type checks (C26) --------------------------------------------------------------------

func fixedSize(t types.Type) bool {
	switch x := under(t).(type) {
	case *types.Basic:
		switch x.Kind() {
		case types.Bool, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.Complex64, types.Complex128:
			return true
		}
	case *types.Array:
		return fixedSize(x.Elem())
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if !x.Field(i).Exported() && x.Field(i).Name() != "_" || !fixedSize(x.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (c *Ctx) shapeRules() {
	msgI := c.R.typ(c.R.Mod, "Message")
	diaI := c.R.typ(c.R.Mod, "Dialect")
	if !c.ob(msgI != nil && diaI != nil, "interfaces", "root package", "", "the interfaces Message and Dialect are missing") {
		return
	}
	mi, ok1 := under(msgI).(*types.Interface)
	di, ok2 := under(diaI).(*types.Interface)
	if !c.ob(ok1 && ok2, "interfaces", "root package", "", "Message and Dialect are no interfaces") {
		return
	}
	for _, pkg := range specPkgs() {
		t := c.dialectType(pkg)
		if c.ob(t != nil, "dialect type", pkg, "", "package %s has no type Dialect", pkg) {
			c.ob(types.Implements(t, di) || types.Implements(newPtr(t), di), "the dialect is a Dialect", pkg, c.In.pos(t.Obj().Pos()), "%s does not implement Dialect", t)
		}
	}
	for _, m := range c.messages(nil) {
		pos := c.In.pos(m.T.Obj().Pos())
		c.ob(types.Implements(newPtr(m.T), mi), "the message is a Message", m.key(), pos, "*%s does not implement Message", m.T)
		s := under(m.T).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			c.ob(f.Exported() && fixedSize(f.Type()), "payload structs have only exported fixed-size fields", m.key()+"."+f.Name(), c.In.pos(f.Pos()), "field %s of type %s cannot be encoded", f.Name(), f.Type())
		}
	}
}
