package main

import (
	"fmt"
	"go/types"
)

// ---- C38: from a message to a frame and back ---------------------------------

func propC38(c *Ctx) {
	type job struct {
		m   *MsgT
		ver int
		pl  int64
	}
	var jobs []job
	for _, m := range c.messages(func(m *SpecMsg) bool { return m.Registered }) {
		if !c.fieldTypes(m, "field type") {
			continue
		}
		for ver := 1; ver <= 2; ver++ {
			if ver == 1 && m.S.ID > 255 {
				continue
			}
			pls := []int64{0}
			if m.S.Variable {
				// C25 and C29 decide every length of a payload; here it only
				// matters how the steps fit together
				pls = []int64{0, 1, 2, 3, 4, 7, 8, 16, 31, 32, 64, 100, 248, 249}
			}
			for _, pl := range pls {
				jobs = append(jobs, job{m, ver, pl})
			}
		}
	}
	c.parallel(len(jobs), func(c *Ctx, i int) { c.chain(jobs[i].m, jobs[i].ver, jobs[i].pl) })
}

// chain builds the frame of a message with unknown contents, makes a frame of
// its bytes, validates and decodes it, all with the dialect of the message.
func (c *Ctx) chain(m *MsgT, ver int, pl int64) {
	in := c.In
	where := fmt.Sprintf("%s v%d", m.key(), ver)
	if m.S.Variable {
		where += fmt.Sprintf(" payload of %d", pl)
	}
	dt := c.dialectType(m.S.Pkg)
	lt := c.coreType("Dialects")
	if lt == nil || !c.ob(dt != nil, "dialect type", m.S.Pkg, "", "package %s has no type Dialect", m.S.Pkg) {
		return
	}
	build, valid, get := c.R.valMethod(lt, "GetFrame"), c.R.valMethod(lt, "Validate"), c.R.valMethod(lt, "GetMessage")
	parse := c.R.SSA[c.R.Mod].Func("FrameFromBytes")
	if !c.ob(build != nil && valid != nil && get != nil && parse != nil, "the functions exist", "Dialects", in.pos(lt.Obj().Pos()), "GetFrame, Validate, GetMessage or FrameFromBytes is missing") {
		return
	}
	in.reset()
	st := in.NewState()
	el := c.R.typ(c.R.Mod, "Dialect")
	lo := in.symObj("*d", lt)
	st.storeCell(lo, "[0]", el, VIface{Dyn: dt, V: c.dialectVal(dt)})
	d := VSlice{Obj: lo, Off: K(0), Len: K(1), Cap: K(1), Elem: el}
	u8 := func(name string) Val { return in.symVal(st, name, types.Typ[types.Uint8]) }
	p := c.receiver(m, "m")
	if m.S.Variable {
		c.setPayloadLen(st, m, p, pl)
	}
	mt := types.NewPointer(m.T)
	outs, ok := c.run(build, []Val{d, vint(int64(ver)), u8("senderSystemID"), u8("senderComponentID"), u8("messageSequence"), VIface{Dyn: mt, V: p}}, st)
	if !ok || !c.noPanic("building a frame never panics", where, outs) {
		return
	}
	orig := map[string]Val{}
	for _, o := range outs {
		s := o.St
		fr, isI := s.resolve(o.Rets[0]).(VIface)
		if !c.ob(errClass(s, o.Rets[1]) == "nil" && isI && fr.Dyn != nil, "the frame of a message is built", where, c.pos(build), "building fails with %s [%s]", errName(s, o.Rets[1]), c.short(s.pathString())) {
			continue
		}
		for _, f := range m.S.Fields {
			orig[f.Go] = c.fieldVal(s, m, p, f)
		}
		raw, isS := fr.V.(VSlice)
		if !c.ob(isS, "the frame of a message is built", where, c.pos(build), "the frame is %s", valString(fr.V)) {
			continue
		}
		in.reset()
		s1 := s.Clone()
		cp := in.symVal(s1, "makeCopy", types.Typ[types.Bool])
		outs1, ok := c.run(parse, []Val{raw, VInt{raw.Len}, cp}, s1)
		if !ok || !c.noPanic("making a frame of a frame's bytes never panics", where, outs1) {
			return
		}
		for _, o1 := range outs1 {
			f1, isI := o1.St.resolve(o1.Rets[0]).(VIface)
			if !c.ob(errClass(o1.St, o1.Rets[1]) == "nil" && isI && f1.Dyn != nil, "the bytes of a built frame are a frame", where, c.pos(parse), "the frame is refused with %s [%s]", errName(o1.St, o1.Rets[1]), c.short(o1.St.pathString())) {
				continue
			}
			in.reset()
			outs2, ok := c.run(valid, []Val{d, f1}, o1.St.Clone())
			if !ok || !c.noPanic("validating a built frame never panics", where, outs2) {
				return
			}
			for _, o2 := range outs2 {
				if errClass(o2.St, o2.Rets[0]) != "nil" && c.impossible(o2.St, raw.Len) {
					continue
				}
				c.ob(errClass(o2.St, o2.Rets[0]) == "nil", "a built frame is valid", where, c.pos(valid), "validation fails with %s [%s]", errName(o2.St, o2.Rets[0]), c.short(o2.St.pathString()))
			}
			in.reset()
			outs3, ok := c.run(get, []Val{d, f1}, o1.St.Clone())
			if !ok || !c.noPanic("decoding a built frame never panics", where, outs3) {
				return
			}
			for _, o3 := range outs3 {
				s3 := o3.St
				g, isI := s3.resolve(o3.Rets[0]).(VIface)
				if !c.ob(errClass(s3, o3.Rets[1]) == "nil" && isI && g.Dyn != nil && types.Identical(g.Dyn, mt), "a built frame decodes to its message", where, c.pos(get), "decoding gives (%s, %s) [%s]", valString(o3.Rets[0]), errName(s3, o3.Rets[1]), c.short(s3.pathString())) {
					continue
				}
				q, isP := g.V.(VPtr)
				if !isP {
					continue
				}
				c.sameFields(m, ver, pl, where, c.pos(get), s3, q, orig, raw.Len.AddK(-6-4*int64(ver-1)-2))
			}
		}
	}
}

// impossible: the facts about checksums contradict each other. How they read
// may depend on whether the frame is as short as it can be.
func (c *Ctx) impossible(st *State, n Lin) bool {
	if !c.expandState(st.Clone()) {
		return true
	}
	n = st.iterSubst(n)
	if n.IsConst() {
		return false
	}
	lo := st.least(n)
	short, long := st.Clone(), st.Clone()
	if short.pin(n.AddK(-lo)) && c.expandState(short) {
		return false
	}
	return !long.addGe(n.AddK(-lo-1)) || !c.expandState(long)
}

// least is a lower bound of l that the facts prove together.
func (st *State) least(l Lin) int64 {
	k := st.lower(l)
	for i := 0; i < 64 && st.prove(l.AddK(-k-1)); i++ {
		k++
	}
	return k
}

// sameFields: the fields of the message q are those noted in orig.
func (c *Ctx) sameFields(m *MsgT, ver int, pl int64, where, pos string, s *State, q VPtr, orig map[string]Val, enc Lin) {
	for _, f := range m.S.Fields {
		if ver == 1 && f.Ext {
			continue
		}
		got := c.fieldVal(s, m, q, f)
		ok := c.sameVal(s, got, orig[f.Go])
		if m.S.Variable && f.Go == "Payload" {
			ok = c.samePrefix(s, got, orig[f.Go], pl, substConst(s, enc))
		} else if n := substConst(s, enc); !ok && n.IsConst() {
			t := s.Clone()
			t.pinRanges()
			ok = c.sameBytes(t, got, orig[f.Go], c.structField(m.T, f.Go).Type())
		} else if !ok {
			ok = true
			for l := int64(0); l <= m.S.FullLen && ok; l++ {
				t := s.Clone()
				if t.pin(enc.AddK(-l)) {
					t.pinRanges()
					ok = c.sameVal(t, got, orig[f.Go]) || c.sameBytes(t, got, orig[f.Go], c.structField(m.T, f.Go).Type())
				}
			}
		}
		c.ob(ok, "a field survives the way into a frame and back", where+" "+f.Go, pos, "%s becomes %s [%s]", valString(orig[f.Go]), valString(got), c.short(s.pathString()))
	}
}
