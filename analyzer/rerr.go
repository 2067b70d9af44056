package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C36: an error names its cause ------------------------------------------

func (c *Ctx) names(rule, where, pos string, s *State, err Val, want ...string) {
	ok := false
	say := ""
	for _, w := range want {
		ok = ok || errIs(s, err, w)
		if say != "" {
			say += " or "
		}
		say += w
	}
	c.ob(ok, rule, where, pos, "the error is %s instead of %s [%s]", errName(s, err), say, c.short(s.pathString()))
}

func propC36(c *Ctx) {
	c.fromBytesErrors()
	ms := c.messages(nil)
	c.parallel(len(ms), func(c *Ctx, i int) { c.messageErrors(ms[i]) })
	for _, ver := range []int64{0, 1, 2} {
		for n := int64(0); n <= 1; n++ {
			c.buildErrors(n, ver)
		}
	}
	pk := specPkgs()
	c.parallel(len(pk), func(c *Ctx, i int) { c.lookupErrors(pk[i]) })
}

func (c *Ctx) fromBytesErrors() {
	in := c.In
	fn := c.R.SSA[c.R.Mod].Func("FrameFromBytes")
	where := "FrameFromBytes"
	if !c.ob(fn != nil, "the function exists", where, "", "no function FrameFromBytes") {
		return
	}
	in.reset()
	st := in.NewState()
	raw := in.symVal(st, "raw", types.NewSlice(types.Typ[types.Uint8])).(VSlice)
	fl := in.symVal(st, "frameLength", types.Typ[types.Uint16]).(VInt).L
	cp := in.symVal(st, "makeCopy", types.Typ[types.Bool])
	outs, ok := c.run(fn, []Val{raw, VInt{fl}, cp}, st)
	if !ok || !c.noPanic("building a frame from bytes never panics", where, outs) {
		return
	}
	pos := c.pos(fn)
	b0 := in.U.ByteAt(in.U.Seq("raw"), K(0))
	for _, o := range outs {
		err := o.Rets[1]
		if s := o.St.Clone(); s.pin(raw.Len) {
			c.names("too few bytes are named as the cause", where, pos, s, err, "ErrFrameTooShort")
		}
		some := o.St.Clone()
		if !some.addGe(raw.Len.AddK(-1)) {
			continue
		}
		for _, magic := range []int64{0xFE, 0xFD, -1} {
			t := some.Clone()
			if magic >= 0 && !t.assume(Eq0(b0.AddK(-magic))) || magic < 0 && (!t.addNe(b0.AddK(-0xFE)) || !t.addNe(b0.AddK(-0xFD))) {
				continue
			}
			if s := t.Clone(); s.assume(Ge(fl.Sub(raw.Len).AddK(-1))) {
				if magic < 0 {
					c.names("too few bytes are named as the cause", where, pos, s, err, "ErrFrameTooShort", "ErrUnknownStartByte")
				} else {
					c.names("too few bytes are named as the cause", where, pos, s, err, "ErrFrameTooShort")
				}
			}
			if s := t.Clone(); magic < 0 && s.assume(Ge(raw.Len.Sub(fl))) {
				c.names("an unknown start byte is named as the cause", where, pos, s, err, "ErrUnknownStartByte")
			}
		}
	}
}

func (c *Ctx) messageErrors(m *MsgT) {
	in := c.In
	decode := func(ver int64) {
		read := c.R.method(m.T, "Read")
		if read == nil {
			return
		}
		in.reset()
		st := in.NewState()
		f := VIface{Atom: "f", Typ: c.R.typ(c.R.Mod, "Frame")}
		v := L1(in.intAtom("f.GetVersion()"))
		if ver == 0 {
			st.addNe(v.AddK(-1))
			st.addNe(v.AddK(-2))
		} else if !st.pin(v.AddK(-ver)) {
			return
		}
		outs, ok := c.run(read, []Val{c.receiver(m, "m"), f}, st)
		if !ok || !c.noPanic("decoding never panics", m.key()+".Read", outs) {
			return
		}
		for _, o := range outs {
			if ver == 0 {
				c.names("an unsupported version is named as the cause", m.key()+".Read", c.pos(read), o.St, o.Rets[0], "ErrUnsupportedVersion")
			} else {
				c.names("a version that cannot carry the message is named as the cause", m.key()+".Read", c.pos(read), o.St, o.Rets[0], "ErrDecodeV2MessageV1Frame")
			}
		}
	}
	encode := func(ver int) {
		outs, _, w, ok := c.encodeOutcomes(m, ver, nil)
		if !ok || !c.noPanic("encoding never panics", m.key()+".Write", outs) {
			return
		}
		for _, o := range outs {
			if ver == 0 {
				c.names("an unsupported version is named as the cause", m.key()+".Write", c.pos(w), o.St, o.Rets[1], "ErrUnsupportedVersion")
			} else {
				c.names("a version that cannot carry the message is named as the cause", m.key()+".Write", c.pos(w), o.St, o.Rets[1], "ErrEncodeV2MessageV1Frame")
			}
		}
	}
	decode(0)
	encode(0)
	if m.S.ID > 255 {
		decode(1)
		encode(1)
	}
}

// buildErrors: Dialects.GetFrame.
func (c *Ctx) buildErrors(n, ver int64) {
	in := c.In
	t := c.coreType("Dialects")
	if t == nil {
		return
	}
	fn := c.R.valMethod(t, "GetFrame")
	where := fmt.Sprintf("Dialects.GetFrame v%d", ver)
	if ver == 0 {
		where = "Dialects.GetFrame other version"
	}
	if !c.ob(fn != nil, "the method exists", "Dialects.GetFrame", in.pos(t.Obj().Pos()), "no method GetFrame") {
		return
	}
	outs, id, ok := c.buildOutcomes(fn, n, ver)
	if !ok || !c.noPanic("building a frame never panics", where, outs) {
		return
	}
	pos := c.pos(fn)
	for _, o := range outs {
		s := o.St.Clone()
		if !c.expandState(s) {
			continue
		}
		err := o.Rets[1]
		if errClass(s, err) != "err" {
			continue // C06
		}
		passed := false
		var length Lin
		for _, e := range s.Events() {
			switch e.Name {
			case "dialect.GetMeta", "message.Write":
				r := e.Res[len(e.Res)-1]
				passed = passed || c.sameVal(s, s.resolve(err), s.resolve(r))
				if sl, isS := s.resolve(e.Res[0]).(VSlice); isS && e.Name == "message.Write" {
					length = sl.Len
				}
			}
		}
		if passed {
			continue // the answer of a dialect or the message itself
		}
		var want []string
		if n == 0 || c.allUnknown(s) {
			want = append(want, "ErrUnknownMessage")
		}
		if ver == 0 {
			want = append(want, "ErrUnsupportedVersion")
		}
		if ver == 1 && s.prove(id.AddK(-256)) {
			want = append(want, "ErrEncodeV2MessageV1Frame")
		}
		if !length.IsConst() && s.prove(length.AddK(-256)) {
			want = append(want, "ErrMessageTooLong")
		}
		c.names("the reason why no frame is built is named", where, pos, s, err, want...)
	}
}

// allUnknown: dialects were asked and none knew the message.
func (c *Ctx) allUnknown(s *State) bool {
	n := 0
	for _, e := range s.Events() {
		if e.Name == "dialect.GetMeta" || e.Name == "dialect.GetMessage" {
			n++
			if c.answerKind(s, e.Res[1]) != "unknown" {
				return false
			}
		}
	}
	return n > 0
}

func (c *Ctx) buildOutcomes(fn *ssa.Function, n, ver int64) (outs []Outcome, id Lin, ok bool) {
	in := c.In
	in.reset()
	st := in.NewState()
	d := c.dialectList(st, n)
	u8 := func(name string) Val { return in.symVal(st, name, types.Typ[types.Uint8]) }
	sys, comp, seq := u8("senderSystemID"), u8("senderComponentID"), u8("messageSequence")
	msg := VIface{Atom: "message", Typ: c.R.typ(c.R.Mod, "Message")}
	v := Val(vint(ver))
	if ver == 0 {
		a := in.intAtom("version")
		st.addNe(L1(a).AddK(-1))
		st.addNe(L1(a).AddK(-2))
		v = VInt{L1(a)}
	}
	id = in.symVal(st, "message.GetID()", types.Typ[types.Uint32]).(VInt).L
	outs, ok = c.run(fn, []Val{d, v, sys, comp, seq, msg}, st)
	return
}

// lookupErrors: a dialect says that it does not know an id with the error for
// that.
func (c *Ctx) lookupErrors(pkg string) {
	listed := map[int64]bool{}
	for _, s := range specByPkg(pkg) {
		if s.Registered {
			listed[s.ID] = true
		}
	}
	metaKnows := false
	for _, meth := range []string{"GetMeta", "GetMessage"} {
		outs, f, ok := c.dialectCall(pkg, meth, func(st *State) []Val {
			name, arg := "id", Val(nil)
			if meth == "GetMessage" {
				name, arg = "f.GetMessageID()", VIface{Atom: "f", Typ: c.R.typ(c.R.Mod, "Frame")}
			}
			a := L1(c.In.U.Atom(name, KOpaque, 0, 1<<32-1))
			for id := range listed {
				st.addNe(a.AddK(-id))
			}
			if arg == nil {
				arg = VInt{a}
			}
			return []Val{arg}
		})
		if !ok || !c.noPanic("looking up never panics", pkg+"."+meth, outs) {
			continue
		}
		for _, o := range outs {
			cls := errClass(o.St, o.Rets[1])
			if meth == "GetMeta" && cls == "nil" {
				metaKnows = true
			}
			if cls == "nil" || metaKnows && meth == "GetMessage" {
				continue // an id added to the tables (C11)
			}
			c.names("an unknown message is named as the cause", pkg+"."+meth, c.pos(f), o.St, o.Rets[1], "ErrUnknownMessage")
		}
	}
}
