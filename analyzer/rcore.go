package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about frames, checksums, validation, dialect lists and frame building.

func (c *Ctx) coreType(name string) *types.Named {
	t := c.R.typ(c.R.Mod, name)
	c.ob(t != nil, "the type exists", name, "", "type %s does not exist", name)
	return t
}

// errIs: v is the package's error value of that name.
func errIs(st *State, v Val, name string) bool {
	return errClass(st, v) == "err" && strings.HasSuffix(errName(st, v), "."+name)
}

func (c *Ctx) u8(seq *Seq, off Lin) Lin { return c.In.U.ByteAt(seq, off) }

// sliceIs: v holds exactly want (n bytes).
func sliceIs(st *State, v Val, want Content, n Lin) bool {
	switch x := st.resolve(v).(type) {
	case VSlice:
		if x.Obj == nil {
			return st.proveEq(n, K(0))
		}
		return st.proveEq(x.Len, n) && st.contentEq(st.sliceBytes(x), want, n)
	case VIface:
		if x.Dyn != nil {
			return sliceIs(st, x.V, want, n)
		}
	}
	return false
}

func intIs(st *State, v Val, want Lin) bool {
	x, ok := st.resolve(v).(VInt)
	return ok && (st.proveEq(x.L, want) || st.proveEq(st.refresh(x.L, 0), st.refresh(want, 0)))
}

// accessorRules: C05 (values) or C04 (no panic only).
func (c *Ctx) accessorRules(ver int, values bool) {
	in := c.In
	t := c.coreType(fmt.Sprintf("FrameV%d", ver))
	if t == nil {
		return
	}
	type exp struct {
		name string
		want func(fi FrameIn) func(*State, Val) bool
		say  string
	}
	num := func(f func(fi FrameIn) Lin) func(FrameIn) func(*State, Val) bool {
		return func(fi FrameIn) func(*State, Val) bool {
			return func(s *State, v Val) bool { return intIs(s, v, f(fi)) }
		}
	}
	at := func(i int64) func(FrameIn) func(*State, Val) bool {
		return num(func(fi FrameIn) Lin { return c.u8(fi.Seq, K(i)) })
	}
	span := func(from func(fi FrameIn) Lin, n func(fi FrameIn) Lin) func(FrameIn) func(*State, Val) bool {
		return func(fi FrameIn) func(*State, Val) bool {
			return func(s *State, v Val) bool {
				return sliceIs(s, v, s.cut(s.sliceBytes(fi.Slice), from(fi), n(fi)), n(fi))
			}
		}
	}
	sh := int64(0)
	if ver == 2 {
		sh = 2
	}
	es := []exp{
		{"GetVersion", num(func(FrameIn) Lin { return K(int64(ver)) }), "the protocol version"},
		{"GetMessageLength", at(1), "byte 1"},
		{"GetMessageSequence", at(2 + sh), fmt.Sprintf("byte %d", 2+sh)},
		{"GetSenderSystemID", at(3 + sh), fmt.Sprintf("byte %d", 3+sh)},
		{"GetSenderComponentID", at(4 + sh), fmt.Sprintf("byte %d", 4+sh)},
		{"GetMessageID", num(func(fi FrameIn) Lin {
			if ver == 1 {
				return c.u8(fi.Seq, K(5))
			}
			return c.u8(fi.Seq, K(7)).AddMul(c.u8(fi.Seq, K(8)), 256).AddMul(c.u8(fi.Seq, K(9)), 65536)
		}), "the message id bytes, little-endian"},
		{"GetMessageBytes", span(func(fi FrameIn) Lin { return K(fi.Hdr) }, func(fi FrameIn) Lin { return fi.L }), "the payload"},
		{"GetChecksum", num(func(fi FrameIn) Lin {
			return c.u8(fi.Seq, fi.L.AddK(fi.Hdr)).AddMul(c.u8(fi.Seq, fi.L.AddK(fi.Hdr+1)), 256)
		}), "the two bytes after the payload, little-endian"},
		{"GetChecksumInput", span(func(fi FrameIn) Lin { return K(1) }, func(fi FrameIn) Lin { return fi.L.AddK(fi.Hdr - 1) }), "everything after the start byte up to the end of the payload"},
		{"Bytes", span(func(fi FrameIn) Lin { return K(0) }, func(fi FrameIn) Lin { return fi.Len }), "the whole frame"},
		{"String", nil, ""},
	}
	if ver == 2 {
		es = append(es, exp{"GetIncompatibilityFlags", at(2), "byte 2"}, exp{"GetCompatibilityFlags", at(3), "byte 3"}, exp{"GetSignature", func(fi FrameIn) func(*State, Val) bool {
			return func(s *State, v Val) bool {
				if s.proveEq(fi.Sig, K(1)) {
					return sliceIs(s, v, s.cut(s.sliceBytes(fi.Slice), fi.L.AddK(12), K(13)), K(13))
				}
				return sliceIs(s, v, nil, K(0))
			}
		}, "the 13 bytes after the checksum of a signed frame, nothing for an unsigned one"})
	}
	for _, e := range es {
		fn := c.R.method(t, e.name)
		where := t.Obj().Name() + "." + e.name
		if !c.ob(fn != nil, "the accessor exists", where, c.In.pos(t.Obj().Pos()), "no method %s", e.name) {
			continue
		}
		in.reset()
		st := in.NewState()
		fi := c.frame(st, ver, nil, nil, Lin{})
		mem := st.heap[cell{fi.Slice.Obj, ""}]
		var recv Val = fi.Slice
		if _, isP := fn.Params[0].Type().Underlying().(*types.Pointer); isP {
			o := in.newObj(OSym, "*framep", t, nil)
			st.storeCell(o, "", t, fi.Slice)
			recv = VPtr{Obj: o}
		}
		outs, ok := c.run(fn, []Val{recv}, st)
		if !ok || !c.noPanic("accessors never panic on a complete frame", where, outs) || e.want == nil && !values {
			continue
		}
		for _, o := range outs {
			for sig := int64(0); sig <= 1; sig++ {
				s := o.St.Clone()
				if ver == 2 && !s.assume(Eq0(fi.Sig.AddK(-sig))) || ver == 1 && sig == 1 {
					continue
				}
				if values {
					if e.want != nil {
						c.ob(e.want(fi)(s, o.Rets[0]), "the accessor reports its field", where, c.pos(fn), "%s reports %s, not %s [%s]", e.name, valString(o.Rets[0]), e.say, c.short(s.pathString()))
					}
					c.ob(c.frameUnchanged(s, fi, mem), "accessors leave the frame alone", where, c.pos(fn), "the frame becomes %s", valString(s.heap[cell{fi.Slice.Obj, ""}]))
				}
			}
		}
	}
}

func propC05(c *Ctx) {
	c.accessorRules(1, true)
	c.accessorRules(2, true)
}

// ---- frame construction from bytes (C04) -------------------------------------

func (c *Ctx) fromBytesRules() {
	in := c.In
	fn := c.R.SSA[c.R.Mod].Func("FrameFromBytes")
	where := "FrameFromBytes"
	if !c.ob(fn != nil, "the function exists", where, "", "no function FrameFromBytes") {
		return
	}
	in.reset()
	st := in.NewState()
	raw := in.symVal(st, "raw", types.NewSlice(types.Typ[types.Uint8])).(VSlice)
	fl := in.symVal(st, "frameLength", types.Typ[types.Uint16])
	cp := in.symVal(st, "makeCopy", types.Typ[types.Bool])
	outs, ok := c.run(fn, []Val{raw, fl, cp}, st)
	if !ok || !c.noPanic("building a frame from bytes never panics", where, outs) {
		return
	}
	flen := fl.(VInt).L
	for _, o := range outs {
		// fewer bytes than announced
		s := o.St.Clone()
		if s.assume(Ge(flen.Sub(raw.Len).AddK(-1))) {
			fr, isI := s.resolve(o.Rets[0]).(VIface)
			isNil, known := false, false
			if isI {
				isNil, known = isNilVal(fr)
			}
			c.ob(errClass(s, o.Rets[1]) == "err" && known && isNil, "fewer bytes than announced are refused", where, c.pos(fn), "with fewer bytes than the announced length the result is (%s, %s) [%s]", valString(o.Rets[0]), errName(s, o.Rets[1]), c.short(s.pathString()))
		}
		// no bytes
		s = o.St.Clone()
		if s.assume(Eq0(raw.Len)) {
			c.ob(errClass(s, o.Rets[1]) == "err", "no bytes are refused", where, c.pos(fn), "without bytes the error is %s", errName(s, o.Rets[1]))
		}
		// enough bytes
		s = o.St.Clone()
		if !s.assume(Ge(raw.Len.Sub(flen))) || !s.assume(Ge(flen.AddK(-1))) {
			continue
		}
		b0 := in.U.ByteAt(in.U.Seq("raw"), K(0))
		for _, v := range []struct {
			magic int64
			typ   string
		}{{0xFE, "FrameV1"}, {0xFD, "FrameV2"}, {-1, ""}} {
			t := s.Clone()
			if v.magic >= 0 {
				if !t.assume(Eq0(b0.AddK(-v.magic))) {
					continue
				}
			} else if !t.addNe(b0.AddK(-0xFE)) || !t.addNe(b0.AddK(-0xFD)) {
				continue
			}
			cls := errClass(t, o.Rets[1])
			if v.magic < 0 {
				c.ob(errIs(t, o.Rets[1], "ErrUnknownStartByte"), "an unknown start byte is refused", where, c.pos(fn), "for another start byte the error is %s [%s]", errName(t, o.Rets[1]), c.short(t.pathString()))
				continue
			}
			fr, isI := t.resolve(o.Rets[0]).(VIface)
			typeOK := isI && fr.Dyn != nil && types.Identical(fr.Dyn, c.R.typ(c.R.Mod, v.typ))
			c.ob(cls == "nil" && typeOK, "a known start byte gives the frame of that version", where+" "+v.typ, c.pos(fn), "the result is (%s, %s) [%s]", valString(o.Rets[0]), errName(t, o.Rets[1]), c.short(t.pathString()))
			if !typeOK {
				continue
			}
			sl, isS := fr.V.(VSlice)
			want := Content{SrcSeg(in.U.Seq("raw"), K(0), flen)}
			c.ob(isS && sl.Obj != nil && t.proveGe(sl.Len, flen) && t.contentEq(t.sliceBytes(sl), want, flen), "the frame holds the bytes given", where+" "+v.typ, c.pos(fn), "the frame is %s [%s]", valString(fr.V), c.short(t.pathString()))
			// a copy is a copy of exactly the frame
			u := t.Clone()
			if u.assume(cp.(VBool).C) && isS {
				c.ob(u.proveEq(sl.Len, flen) && sl.Obj != raw.Obj, "a copied frame is private and exact", where+" "+v.typ, c.pos(fn), "the copy is %s [%s]", valString(fr.V), c.short(u.pathString()))
			}
		}
	}
}

// ---- checksum (C07) --------------------------------------------------------------

func propC07(c *Ctx) {
	in := c.In
	t := c.coreType("X25CRC")
	if t == nil {
		return
	}
	st, ok := under(t).(*types.Struct)
	if !c.ob(ok && st.NumFields() >= 1, "the checksum state", "X25CRC", in.pos(t.Obj().Pos()), "not a struct") {
		return
	}
	get := func(name string) (fn *ssa.Function, ok bool) {
		f := c.R.method(t, name)
		return f, c.ob(f != nil, "the method exists", "X25CRC."+name, in.pos(t.Obj().Pos()), "no method %s", name)
	}
	reset, ok1 := get("Reset")
	write, ok2 := get("Write")
	sum, ok3 := get("Sum")
	if !ok1 || !ok2 || !ok3 {
		return
	}
	// the accumulator: what Sum reads; found as the 16 state bits Sum appends
	// after Reset the sum is ff ff
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	sumOf := func(s *State, p VPtr, where string) (lo, hi Lin, s2 *State, ok bool) {
		b := in.symVal(s, "b", bytesT).(VSlice)
		before := map[cell]Val{}
		for k, v := range s.heap {
			if k.o == p.Obj {
				before[k] = v
			}
		}
		outs, ok := c.run(sum, []Val{p, b}, s)
		if !ok || !c.noPanic("the checksum never panics", "X25CRC.Sum", outs) {
			return
		}
		for _, o := range outs {
			r, isS := o.St.resolve(o.Rets[0]).(VSlice)
			if !c.ob(isS && r.Obj != nil && o.St.proveEq(r.Len, b.Len.AddK(2)), "the sum is two bytes", "X25CRC.Sum", c.pos(sum), "the result is %s", valString(o.Rets[0])) {
				return lo, hi, nil, false
			}
			ct := o.St.sliceBytes(r)
			c.ob(o.St.contentEq(ct, Content{SrcSeg(in.U.Seq("b"), K(0), b.Len)}, b.Len), "the sum is appended", "X25CRC.Sum", c.pos(sum), "the result is %s", ct)
			same := true
			for k, v := range o.St.heap {
				if k.o == p.Obj {
					w, have := before[k]
					if !have {
						w = o.St.in.symVal(o.St, strings.TrimPrefix(p.Obj.Name, "*")+k.path, cellType(p.Obj.Typ, k.path))
					}
					same = same && valKey(w) == valKey(v)
				}
			}
			c.ob(same, "asking for the sum leaves the state alone", "X25CRC.Sum", c.pos(sum), "the state changes")
			l, h := o.St.byteAt(ct, b.Len), o.St.byteAt(ct, b.Len.AddK(1))
			if s2 != nil && !(l.Eq(lo) && h.Eq(hi)) {
				c.ob(false, "the sum is two bytes", "X25CRC.Sum", c.pos(sum), "the sum depends on the argument")
			}
			lo, hi, s2 = l, h, o.St
		}
		return lo, hi, s2, s2 != nil
	}
	in.reset()
	s := in.NewState()
	p := VPtr{Obj: in.symObj("*hash", t)}
	outs, ok := c.run(reset, []Val{p}, s)
	if ok && c.noPanic("the checksum never panics", "X25CRC.Reset", outs) {
		for _, o := range outs {
			lo, hi, _, ok := sumOf(o.St.Clone(), p, "after Reset")
			if ok {
				c.ob(lo.Eq(K(0xff)) && hi.Eq(K(0xff)), "a reset starts from 0xffff", "X25CRC.Reset", c.pos(reset), "the sum after a reset is %s %s", lo, hi)
			}
		}
	}
	// what it says about its sizes
	for _, e := range []struct {
		meth string
		ok   func(*State, Val) bool
		say  string
	}{
		{"Size", func(s *State, v Val) bool { return intIs(s, v, K(2)) }, "2"},
		{"BlockSize", func(s *State, v Val) bool {
			i, ok := s.resolve(v).(VInt)
			return ok && s.proveGe(i.L, K(1))
		}, "at least 1"},
	} {
		fn, ok := get(e.meth)
		if !ok {
			continue
		}
		in.reset()
		p := VPtr{Obj: in.symObj("*hash", t)}
		outs, ok := c.run(fn, []Val{p}, in.NewState())
		if ok && c.noPanic("the checksum never panics", "X25CRC."+e.meth, outs) {
			for _, o := range outs {
				c.ob(e.ok(o.St, o.Rets[0]), "the size it reports is the size of its sum", "X25CRC."+e.meth, c.pos(fn), "%s gives %s instead of %s", e.meth, valString(o.Rets[0]), e.say)
			}
		}
	}
	// one write from any state
	var acc []Bit
	{
		in.reset()
		s := in.NewState()
		p := VPtr{Obj: in.symObj("*hash", t)}
		lo, hi, _, ok := sumOf(s, p, "of any state")
		if !ok {
			return
		}
		acc = append(append([]Bit(nil), in.U.BitsOf(lo, 8)...), in.U.BitsOf(hi, 8)...)
		// the state bits must be independent unknowns: 16 different bits
		seen := map[string]bool{}
		for _, b := range acc {
			seen[b.Key()] = true
		}
		free := len(seen) == 16
		for _, b := range acc {
			free = free && len(b.X) == 1
		}
		if !c.ob(free, "the sum is the state, low byte first", "X25CRC.Sum", c.pos(sum), "the sum of a state is %s %s", lo, hi) {
			return
		}
		// in order: the low byte holds the low bits
		ord := true
		for i, b := range acc {
			ord = ord && len(b.X) == 1 && b.X[0].A == acc[0].X[0].A && b.X[0].I == i && !b.C
		}
		c.ob(ord, "the sum is the state, low byte first", "X25CRC.Sum", c.pos(sum), "the sum of a state is %s %s", lo, hi)
	}
	in.reset()
	s = in.NewState()
	p = VPtr{Obj: in.symObj("*hash", t)}
	input := in.symVal(s, "input", bytesT).(VSlice)
	lo, hi, _, ok := sumOf(s.Clone(), p, "before Write")
	if !ok {
		return
	}
	acc = append(append([]Bit(nil), in.U.BitsOf(lo, 8)...), in.U.BitsOf(hi, 8)...)
	outs, ok = c.run(write, []Val{p, input}, s)
	if !ok || !c.noPanic("the checksum never panics", "X25CRC.Write", outs) {
		return
	}
	for _, o := range outs {
		c.ob(intIs(o.St, o.Rets[0], input.Len) && errClass(o.St, o.Rets[1]) == "nil", "a write reports all bytes", "X25CRC.Write", c.pos(write), "a write reports (%s, %s)", valString(o.Rets[0]), errName(o.St, o.Rets[1]))
		mem, isA := o.St.heap[cell{input.Obj, ""}].(VArr)
		c.ob(isA && o.St.contentEq(mem.C, Content{SrcSeg(in.U.Seq("input"), K(0), input.Cap)}, input.Cap), "a write leaves its input alone", "X25CRC.Write", c.pos(write), "the input becomes %s", valString(mem))
		s2 := o.St.Clone()
		lo, hi, s3, ok := sumOf(s2, p, "after Write")
		if !ok {
			continue
		}
		got := append(append([]Bit(nil), in.U.BitsOf(lo, 8)...), in.U.BitsOf(hi, 8)...)
		got = c.expandBits(s3, got, map[*Atom][]Bit{})
		want := c.crcOf(s3, acc, Content{SrcSeg(in.U.Seq("input"), K(0), input.Len)})
		eq, _ := c.sameWord(s3, got, want)
		if !eq {
			eq = in.U.FromBits(c.expandBits(s3, want, map[*Atom][]Bit{})).Eq(in.U.FromBits(got))
		}
		c.ob(eq, "every byte of a write updates the checksum by the polynomial 0x8408", "X25CRC.Write", c.pos(write), "the state after a write is %s [%s]", in.U.FromBits(got), c.short(o.St.pathString()))
	}
}
