package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C41: from a valid frame to a message and back ----------------------------

func propC41(c *Ctx) {
	type job struct {
		m   *MsgT
		ver int
	}
	var jobs []job
	for _, m := range c.messages(func(m *SpecMsg) bool { return m.Registered }) {
		if !c.fieldTypes(m, "field type") {
			continue
		}
		for ver := 1; ver <= 2; ver++ {
			if ver == 1 && m.S.ID > 255 {
				continue
			}
			jobs = append(jobs, job{m, ver})
		}
	}
	c.parallel(len(jobs), func(c *Ctx, i int) { c.back(jobs[i].m, jobs[i].ver) })
}

// back validates a frame with unknown contents and the id of a message; if it
// is valid it must decode to that message, and encoding the message must give
// the payload back.
func (c *Ctx) back(m *MsgT, ver int) {
	in := c.In
	where := fmt.Sprintf("%s v%d", m.key(), ver)
	dt := c.dialectType(m.S.Pkg)
	lt := c.coreType("Dialects")
	if lt == nil || !c.ob(dt != nil, "dialect type", m.S.Pkg, "", "package %s has no type Dialect", m.S.Pkg) {
		return
	}
	valid, get := c.R.valMethod(lt, "Validate"), c.R.valMethod(lt, "GetMessage")
	write := c.R.method(m.T, "Write")
	if !c.ob(valid != nil && get != nil && write != nil, "the functions exist", "Dialects", in.pos(lt.Obj().Pos()), "Validate, GetMessage or Write is missing") {
		return
	}
	in.reset()
	st := in.NewState()
	el := c.R.typ(c.R.Mod, "Dialect")
	lo := in.symObj("*d", lt)
	st.storeCell(lo, "[0]", el, VIface{Dyn: dt, V: c.dialectVal(dt)})
	d := VSlice{Obj: lo, Off: K(0), Len: K(1), Cap: K(1), Elem: el}
	fi := c.frame(st, ver, &m.S.ID, nil, Lin{})
	mt := types.NewPointer(m.T)
	outs, ok := c.run(valid, []Val{d, fi.V}, st)
	if !ok || !c.noPanic("validating never panics", where, outs) {
		return
	}
	accepted := 0
	for _, o := range outs {
		if errClass(o.St, o.Rets[0]) == "err" {
			continue
		}
		accepted++
		in.reset()
		outs1, ok := c.run(get, []Val{d, fi.V}, o.St.Clone())
		if !ok || !c.noPanic("decoding a valid frame never panics", where, outs1) {
			return
		}
		for _, o1 := range outs1 {
			s := o1.St
			g, isI := s.resolve(o1.Rets[0]).(VIface)
			if !c.ob(errClass(s, o1.Rets[1]) == "nil" && isI && g.Dyn != nil && types.Identical(g.Dyn, mt), "a valid frame decodes to its message", where, c.pos(get), "decoding gives (%s, %s) [%s]", valString(o1.Rets[0]), errName(s, o1.Rets[1]), c.short(s.pathString())) {
				continue
			}
			if !m.S.Variable {
				c.encodeBack(m, ver, -1, where, s, g.V, fi, write)
				continue
			}
			for l := int64(0); l <= m.S.FullLen; l++ {
				t := s.Clone()
				if t.pin(fi.L.AddK(-l)) {
					t.pinRanges()
					if p, isP := g.V.(VPtr); isP {
						for cl, v := range t.heap {
							if cl.o == p.Obj {
								t.heap[cl] = t.refreshVal(v)
							}
						}
					}
					c.encodeBack(m, ver, l, fmt.Sprintf("%s payload of %d", where, l), t, g.V, fi, write)
				}
			}
		}
	}
	c.ob(accepted > 0, "some frames of every message are valid", where, c.pos(valid), "none is")
}

// encodeBack encodes the decoded message in the version it came in.
func (c *Ctx) encodeBack(m *MsgT, ver int, l int64, where string, st *State, msg Val, fi FrameIn, write *ssa.Function) {
	c.In.reset()
	s0 := st.Clone()
	outs, ok := c.run(write, []Val{msg, vint(int64(ver))}, s0)
	if !ok || !c.noPanic("encoding a decoded message never panics", where, outs) {
		return
	}
	pos := c.pos(write)
	for _, o := range outs {
		s := o.St
		out, isS := s.resolve(o.Rets[0]).(VSlice)
		if !c.ob(errClass(s, o.Rets[1]) == "nil" && isS && out.Obj != nil, "a decoded message can be encoded", where, pos, "encoding fails with %s [%s]", errName(s, o.Rets[1]), c.short(s.pathString())) {
			continue
		}
		full := m.S.FullLen
		if ver == 1 {
			full = m.S.BaseLen
		}
		if m.S.Variable {
			full = l
			if l < 5 {
				full = 5
			}
		}
		if !m.S.Variable {
			t := s.Clone()
			want := Content{SrcSeg(fi.Seq, K(fi.Hdr), fi.L), ZeroSeg(K(m.S.FullLen).Sub(fi.L))}
			good := false
			if ver == 1 {
				good = t.proveEq(out.Len, K(full)) && t.contentEq(t.sliceBytes(out), want, K(full))
			} else {
				good, _ = c.truncated(t, t.sliceBytes(out), out.Len, t.norm(want), full)
			}
			if good {
				c.ob(true, "encoding a decoded message gives its payload back", where, pos, "")
				continue
			}
		}
		hi := m.S.FullLen
		for n := int64(0); n <= hi; n++ {
			t := s.Clone()
			if !t.pin(fi.L.AddK(-n)) {
				continue
			}
			t.pinRanges()
			have := n
			if have > full {
				have = full
			}
			want := Content{SrcSeg(fi.Seq, K(fi.Hdr), K(have))}
			if full > have {
				want = append(want, ZeroSeg(K(full-have)))
			}
			want = t.norm(want)
			sl, _ := t.refreshVal(out).(VSlice)
			got := t.sliceBytes(sl)
			var good bool
			var why string
			if ver == 1 {
				good = t.proveEq(sl.Len, K(full)) && t.contentEq(got, want, K(full))
				if !good {
					why = fmt.Sprintf("the encoding is %s (%s bytes) instead of %s", got, sl.Len, want)
				}
			} else {
				good, why = c.truncated(t, got, sl.Len, want, full)
			}
			if !c.ob(good, "encoding a decoded message gives its payload back", where, pos, "for a payload of %d bytes: %s [%s]", n, why, c.short(s.pathString())) {
				break
			}
		}
	}
}
