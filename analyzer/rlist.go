package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about lists of dialects: validation (C08), lookup order (C09),
// building frames (C06).

// dialectList makes a list of n unknown dialects.
func (c *Ctx) dialectList(st *State, n int64) VSlice {
	t := c.R.typ(c.R.Mod, "Dialects")
	el := c.R.typ(c.R.Mod, "Dialect")
	o := c.In.symObj("*d", t)
	for i := int64(0); i < n; i++ {
		st.storeCell(o, fmt.Sprintf("[%d]", i), el, VIface{Atom: fmt.Sprintf("d[%d]", i), Typ: el})
	}
	return VSlice{Obj: o, Off: K(0), Len: K(n), Cap: K(n), Elem: el}
}

func dialectIndex(v Val) int {
	if i, ok := v.(VIface); ok && strings.HasPrefix(i.Atom, "d[") {
		var k int
		if n, _ := fmt.Sscanf(i.Atom, "d[%d]", &k); n == 1 {
			return k
		}
	}
	return -1
}

// asked gives the results of asking dialects 0..n-1 (want: the event name)
// under st, in list order, up to the first answer other than "unknown".
type answer struct {
	I    int
	Res  []Val
	Kind string // unknown, nil, err
}

// lookups checks the order in which dialects were asked and returns the
// decisive answer (Kind "none" if all said unknown).
func (c *Ctx) lookups(st *State, call string, n int, arg Val, rule, where, pos string) (answer, bool) {
	next := 0
	last := answer{I: -1, Kind: "none"}
	for _, e := range st.Events() {
		if e.Kind == "unknowncall" {
			continue
		}
		if e.Name != "dialect.GetMeta" && e.Name != "dialect.GetMessage" {
			continue
		}
		i := dialectIndex(e.Recv)
		if e.Name != call {
			return last, c.ob(false, rule, where, pos, "%s is asked instead of %s [%s]", e.Name, call, c.short(st.pathString()))
		}
		if arg != nil && (len(e.Args) != 2 || !c.sameVal(st, e.Args[1], arg)) {
			return last, c.ob(false, rule, where, pos, "dialect %d is asked about %s instead of %s", i, valString(e.Args[1]), valString(arg))
		}
		if i >= 0 && i == last.I && last.Kind != "none" {
			continue // the same dialect again: the same answer
		}
		if i != next || last.Kind == "nil" || last.Kind == "err" {
			return last, c.ob(false, rule, where, pos, "dialect %d is asked although dialect %d was next (the answer of %d: %s) [%s]", i, next, last.I, last.Kind, c.short(st.pathString()))
		}
		next++
		last = answer{I: i, Res: e.Res, Kind: c.answerKind(st, e.Res[1])}
		if last.Kind == "?" {
			return last, c.ob(false, rule, where, pos, "the answer of dialect %d is not looked at [%s]", i, c.short(st.pathString()))
		}
	}
	if last.Kind == "unknown" || last.Kind == "none" {
		if next != n {
			return last, c.ob(false, rule, where, pos, "only %d of %d dialects are asked although none knew the message [%s]", next, n, c.short(st.pathString()))
		}
		last = answer{I: -1, Kind: "none"}
	}
	return last, c.ob(true, rule, where, pos, "")
}

// splitAnswers looks at the outcomes of every kind of answer apart, where the
// code did not need to know it (it may pass on an error without looking).
func (c *Ctx) splitAnswers(outs []Outcome) []Outcome {
	unk := c.sentinel("ErrUnknownMessage")
	var res []Outcome
	var split func(o Outcome, from int)
	split = func(o Outcome, from int) {
		evs := o.St.Events()
		for i := from; i < len(evs); i++ {
			e := evs[i]
			if e.Name != "dialect.GetMeta" && e.Name != "dialect.GetMessage" || len(e.Res) < 2 {
				continue
			}
			v, ok := o.St.resolve(e.Res[1]).(VIface)
			if !ok {
				continue
			}
			isUnk, isNil := Cond{Op: CIs, A: v, B: unk}, Cond{Op: CIs, A: v, B: VIface{Typ: v.Typ}}
			var alts [][]Cond
			switch c.answerKind(o.St, v) {
			case "?":
				alts = [][]Cond{{isUnk}, {isUnk.Not(), isNil}, {isUnk.Not(), isNil.Not()}}
			case "other":
				alts = [][]Cond{{isNil}, {isNil.Not()}}
			default:
				continue
			}
			for _, a := range alts {
				n := o
				n.St = o.St.Clone()
				ok := true
				for _, k := range a {
					ok = ok && n.St.assume(k)
				}
				if ok {
					split(n, i+1)
				}
			}
			return
		}
		res = append(res, o)
	}
	for _, o := range outs {
		split(o, 0)
	}
	return res
}

// answerKind: "unknown", "nil", "err" (another error) or "?".
func (c *Ctx) answerKind(st *State, v Val) string {
	unk := c.sentinel("ErrUnknownMessage")
	if b, k := st.decide(Cond{Op: CIs, A: v, B: unk}); k {
		if b {
			return "unknown"
		}
		switch errClass(st, v) {
		case "nil":
			return "nil"
		case "err":
			return "err"
		}
		return "other" // not unknown, maybe nil
	}
	return "?"
}

func (c *Ctx) sentinel(name string) Val {
	st := c.In.NewState()
	g := c.R.SSA[c.R.Mod].Var(name)
	if g == nil {
		return VOpq{"no " + name}
	}
	v, ok := c.In.globalCell(c.In.globalObj(g), "", deref(g.Type()))
	if !ok {
		return VOpq{"changing " + name}
	}
	_ = st
	return v
}

// ---- validation (C08) -------------------------------------------------------

func (c *Ctx) validateRules(n int64, ver int) {
	in := c.In
	t := c.coreType("Dialects")
	if t == nil {
		return
	}
	fn := c.R.valMethod(t, "Validate")
	where := fmt.Sprintf("Dialects.Validate v%d", ver)
	if !c.ob(fn != nil, "the method exists", "Dialects.Validate", in.pos(t.Obj().Pos()), "no method Validate") {
		return
	}
	in.reset()
	st := in.NewState()
	d := c.dialectList(st, n)
	fi := c.frame(st, ver, nil, nil, Lin{})
	mem := st.heap[cell{fi.Slice.Obj, ""}]
	outs, ok := c.run(fn, []Val{d, fi.V}, st)
	if !ok || !c.noPanic("validation never panics", where, outs) {
		return
	}
	pos := c.pos(fn)
	id := c.frameID(fi)
	verdict := func(o Outcome, s *State) {
		if !c.expandState(s) {
			return // cannot happen
		}
		c.ob(c.frameUnchanged(s, fi, mem), "validation leaves the frame alone", where, pos, "the frame becomes %s [%s]", valString(s.heap[cell{fi.Slice.Obj, ""}]), c.short(s.pathString()))
		a, okA := c.lookups(s, "dialect.GetMeta", int(n), VInt{id}, "the dialects are asked in order", where, pos)
		if !okA {
			return
		}
		r := o.Rets[0]
		bad := func(f string, args ...interface{}) {
			c.ob(false, "the verdict fits length and checksum", where, pos, f+" [%s]", append(args, c.short(s.pathString()))...)
		}
		good := func() { c.ob(true, "the verdict fits length and checksum", where, pos, "") }
		switch a.Kind {
		case "none":
			c.ob(errIs(s, r, "ErrUnknownMessage"), "a message no dialect knows is reported", where, pos, "the verdict is %s [%s]", errName(s, r), c.short(s.pathString()))
			return
		case "err":
			c.ob(c.sameVal(s, s.resolve(r), s.resolve(a.Res[1])), "another error of a dialect is passed on", where, pos, "the verdict is %s, the dialect said %s", errName(s, r), valString(a.Res[1]))
			return
		case "other":
			bad("the dialect's error is not looked at")
			return
		}
		meta, isS := a.Res[0].(VStruct)
		if !isS {
			bad("no metadata")
			return
		}
		get := func(name string) Lin {
			mt := under(meta.T).(*types.Struct)
			for i := 0; i < mt.NumFields(); i++ {
				if mt.Field(i).Name() == name {
					if x, ok := meta.F[i].(VInt); ok {
						return x.L
					}
				}
			}
			return L1(in.U.Atom("no "+name, KOpaque, negInf, posInf))
		}
		min, max, extra := get("MinimumLength"), get("MaximumLength"), get("CRCExtra")
		if !s.addGe(max.Sub(min)) {
			return
		}
		short := func() (bool, bool) { // (holds, refuted)
			if ver != 1 {
				return false, true
			}
			return s.prove(min.Sub(fi.L).AddK(-1)), s.proveGe(fi.L, min)
		}
		long := func() (bool, bool) {
			return s.prove(fi.L.Sub(max).AddK(-1)), s.proveGe(max, fi.L)
		}
		sh, nsh := short()
		lo, nlo := long()
		L := substConst(s, fi.L)
		crc := c.crcOf(s, crcInit(), Content{SrcSeg(fi.Seq, K(1), L.AddK(fi.Hdr-1))})
		crc = crcStep(crc, in.U.BitsOf(extra, 8))
		ck := append(append([]Bit(nil), in.U.BitsOf(c.u8(fi.Seq, L.AddK(fi.Hdr)), 8)...), in.U.BitsOf(c.u8(fi.Seq, L.AddK(fi.Hdr+1)), 8)...)
		fresh := func(b []Bit) []Bit { return in.U.BitsOf(s.refresh(in.U.FromBits(b), 0), 16) }
		crc, ck = fresh(crc), fresh(ck)
		switch {
		case errIs(s, r, "ErrMessageTooShort"):
			if sh {
				good()
			} else {
				bad("a frame is rejected as too short although it need not be")
			}
		case errIs(s, r, "ErrMessageTooLong"):
			if nsh && lo {
				good()
			} else {
				bad("a frame is rejected as too long although it need not be, or a too short one is called too long")
			}
		case errIs(s, r, "ErrInvalidChecksum"):
			_, ne := c.sameWord(s, crc, ck)
			if nsh && nlo && ne {
				good()
			} else {
				bad("a frame is rejected for its checksum although the checksum may fit or the length may not (not short: %v, not long: %v, differs: %v)", nsh, nlo, ne)
			}
		case errClass(s, r) == "nil":
			eq, _ := c.sameWord(s, crc, ck)
			if nsh && nlo && eq {
				good()
			} else {
				bad("a frame is accepted although it may not fit (not too short: %v, not too long: %v, checksum equal: %v)", nsh, nlo, eq)
			}
		default:
			bad("the verdict is %s", errName(s, r))
		}
		for _, ch := range s.changedCells(d.Obj) {
			if !strings.Contains(ch, "= d[") {
				c.ob(false, "validation leaves the dialects alone", where, pos, "changes %s", ch)
			}
		}
	}
	for _, o := range c.splitAnswers(outs) {
		splitLen(o.St, fi.L, func(s *State) { verdict(o, s) })
	}
}

func (c *Ctx) frameID(fi FrameIn) Lin {
	if fi.Ver == 1 {
		return c.u8(fi.Seq, K(5))
	}
	return c.u8(fi.Seq, K(7)).AddMul(c.u8(fi.Seq, K(8)), 256).AddMul(c.u8(fi.Seq, K(9)), 65536)
}

func propC08(c *Ctx) {
	for n := int64(0); n <= c.listMax(); n++ {
		c.validateRules(n, 1)
		c.validateRules(n, 2)
	}
}

// listMax bounds the length of dialect lists that are enumerated.
func (c *Ctx) listMax() int64 {
	if c.Tier == "thorough" {
		return 6
	}
	return 3
}

// ---- lookup (C09) ---------------------------------------------------------------

func (c *Ctx) getMessageRules(n int64, ver int) {
	in := c.In
	t := c.coreType("Dialects")
	if t == nil {
		return
	}
	fn := c.R.valMethod(t, "GetMessage")
	where := fmt.Sprintf("Dialects.GetMessage v%d", ver)
	if !c.ob(fn != nil, "the method exists", "Dialects.GetMessage", in.pos(t.Obj().Pos()), "no method GetMessage") {
		return
	}
	in.reset()
	st := in.NewState()
	d := c.dialectList(st, n)
	fi := c.frame(st, ver, nil, nil, Lin{})
	mem := st.heap[cell{fi.Slice.Obj, ""}]
	outs, ok := c.run(fn, []Val{d, fi.V}, st)
	if !ok || !c.noPanic("looking up a message never panics", where, outs) {
		return
	}
	pos := c.pos(fn)
	for _, o := range c.splitAnswers(outs) {
		s := o.St
		c.ob(c.frameUnchanged(s, fi, mem), "looking up a message leaves the frame alone", where, pos, "the frame becomes %s", valString(s.heap[cell{fi.Slice.Obj, ""}]))
		a, okA := c.lookups(s, "dialect.GetMessage", int(n), nil, "the dialects are asked in order", where, pos)
		if !okA {
			continue
		}
		for _, e := range s.Events() {
			if e.Name == "dialect.GetMessage" {
				f, isI := s.resolve(e.Args[1]).(VIface)
				c.ob(isI && c.sameVal(s, f, fi.V), "the dialects are asked about the frame", where, pos, "asked about %s", valString(e.Args[1]))
			}
		}
		if a.Kind != "none" {
			c.ob(c.sameVal(s, s.resolve(o.Rets[0]), s.resolve(a.Res[0])) && c.sameVal(s, s.resolve(o.Rets[1]), s.resolve(a.Res[1])), "the first answer is passed on", where, pos, "the result is (%s, %s) instead of (%s, %s) [%s]", valString(o.Rets[0]), errName(s, o.Rets[1]), valString(a.Res[0]), valString(a.Res[1]), c.short(s.pathString()))
			continue
		}
		c.ob(errIs(s, o.Rets[1], "ErrUnknownMessage"), "an unknown message is reported", where, pos, "the error is %s [%s]", errName(s, o.Rets[1]), c.short(s.pathString()))
		c.unknownMessage(s, s.resolve(o.Rets[0]), fi, where, pos)
	}
}

// unknownMessage checks the placeholder.
func (c *Ctx) unknownMessage(s *State, v Val, fi FrameIn, where, pos string) {
	rule := "the placeholder holds id, version and a private copy of the payload"
	um := c.R.typ(c.R.Mod, "UnknownMessage")
	m, isI := v.(VIface)
	if !isI || m.Dyn == nil || um == nil {
		c.ob(false, rule, where, pos, "the message is %s [%s]", valString(v), c.short(s.pathString()))
		return
	}
	p, isP := m.V.(VPtr)
	if !isP || p.Obj == nil || !types.Identical(deref(m.Dyn), um) {
		c.ob(false, rule, where, pos, "the message is a %s", m.Dyn)
		return
	}
	fld := func(name string) Val {
		f := c.structField(um, name)
		if f == nil {
			return nil
		}
		return s.loadCell(p.Obj, p.Path+"."+name, f.Type())
	}
	c.ob(intIs(s, fld("ID"), c.frameID(fi)), rule, where+" ID", pos, "its id is %s [%s]", valString(fld("ID")), c.short(s.pathString()))
	c.ob(intIs(s, fld("Version"), K(int64(fi.Ver))), rule, where+" Version", pos, "its version is %s", valString(fld("Version")))
	raw := fld("Raw")
	sl, isS := s.resolve(raw).(VSlice)
	c.ob(isS && sliceIs(s, sl, s.cut(s.sliceBytes(fi.Slice), K(fi.Hdr), fi.L), fi.L), rule, where+" Raw", pos, "its content is %s [%s]", valString(raw), c.short(s.pathString()))
	c.ob(isS && (sl.Obj == nil || sl.Obj != fi.Slice.Obj), rule, where+" Raw", pos, "its content is memory of the frame")
}

// buildRules: Dialects.GetFrame with unknown dialects and message (C06, C09).
func (c *Ctx) buildRules(n int64, ver int64, order bool) {
	in := c.In
	t := c.coreType("Dialects")
	if t == nil {
		return
	}
	fn := c.R.valMethod(t, "GetFrame")
	where := fmt.Sprintf("Dialects.GetFrame v%d", ver)
	if ver == 0 {
		where = "Dialects.GetFrame other version"
	}
	if !c.ob(fn != nil, "the method exists", "Dialects.GetFrame", in.pos(t.Obj().Pos()), "no method GetFrame") {
		return
	}
	in.reset()
	st := in.NewState()
	d := c.dialectList(st, n)
	u8 := func(name string) Val { return in.symVal(st, name, types.Typ[types.Uint8]) }
	sys, comp, seq := u8("senderSystemID"), u8("senderComponentID"), u8("messageSequence")
	msg := VIface{Atom: "message", Typ: c.R.typ(c.R.Mod, "Message")}
	v := Val(vint(ver))
	if ver == 0 {
		a := in.intAtom("version")
		st.addNe(L1(a).AddK(-1))
		st.addNe(L1(a).AddK(-2))
		v = VInt{L1(a)}
	}
	id := in.symVal(st, "message.GetID()", types.Typ[types.Uint32]).(VInt).L
	outs, ok := c.run(fn, []Val{d, v, sys, comp, seq, msg}, st)
	if !ok || !c.noPanic("building a frame never panics", where, outs) {
		return
	}
	pos := c.pos(fn)
	for _, o := range c.splitAnswers(outs) {
		s := o.St.Clone()
		if !c.expandState(s) {
			continue
		}
		fr, isI := s.resolve(o.Rets[0]).(VIface)
		noFrame := false
		if isI {
			b, k := isNilVal(fr)
			noFrame = b && k
		}
		err := o.Rets[1]
		cls := errClass(s, err)
		// version refusal may come before or after the lookup
		a, okA := answer{Kind: "skip"}, true
		asked := false
		for _, e := range s.Events() {
			asked = asked || e.Name == "dialect.GetMeta" || e.Name == "dialect.GetMessage"
		}
		if ver == 0 {
			c.ob(cls == "err" && noFrame, "an impossible version is refused without a frame", where, pos, "the result is (%s, %s) [%s]", valString(o.Rets[0]), errName(s, err), c.short(s.pathString()))
			continue
		}
		if !asked && n > 0 && cls == "err" && noFrame && ver == 1 && s.prove(id.AddK(-256)) {
			continue // refused for the id before asking
		}
		if !asked && n > 0 && cls == "err" && noFrame && c.encodeFailed(s) != nil {
			continue
		}
		if asked || n == 0 {
			a, okA = c.lookups(s, "dialect.GetMeta", int(n), VInt{id}, "the dialects are asked in order", where, pos)
			if !okA {
				continue
			}
		}
		switch a.Kind {
		case "none":
			c.ob(errIs(s, err, "ErrUnknownMessage") && noFrame, "an unknown message is refused", where, pos, "the result is (%s, %s) [%s]", valString(o.Rets[0]), errName(s, err), c.short(s.pathString()))
			continue
		case "err":
			c.ob(c.sameVal(s, s.resolve(err), s.resolve(a.Res[1])) && noFrame, "another error of a dialect is passed on", where, pos, "the result is (%s, %s), the dialect said %s", valString(o.Rets[0]), errName(s, err), valString(a.Res[1]))
			continue
		case "nil":
		default:
			c.ob(false, "the dialects are asked in order", where, pos, "the dialect's answer is not looked at [%s]", c.short(s.pathString()))
			continue
		}
		if order {
			continue
		}
		meta, isS := a.Res[0].(VStruct)
		if !isS {
			continue
		}
		c.splitEncoding(s, func(s *State) {
			if c.expandState(s) {
				c.builtFrame(s, o, fr, noFrame, cls, ver, sys, comp, seq, id, meta, where, pos)
			}
		})
	}
}

// splitEncoding looks at empty and other encodings apart.
func (c *Ctx) splitEncoding(s *State, f func(*State)) {
	for _, e := range s.Events() {
		if e.Name != "message.Write" {
			continue
		}
		if pl, ok := s.resolve(e.Res[0]).(VSlice); ok {
			splitLen(s, pl.Len, f)
			return
		}
	}
	f(s)
}

// splitLen looks at short lengths apart.
func splitLen(s *State, l Lin, f func(*State)) {
	for k := int64(0); k < 3; k++ {
		if t := s.Clone(); t.pin(l.AddK(-k)) {
			f(t)
		}
	}
	if t := s.Clone(); t.addGe(l.AddK(-3)) {
		f(t)
	}
}

// encodeFailed: the event of a message.Write that returned an error.
func (c *Ctx) encodeFailed(s *State) *Event {
	for _, e := range s.Events() {
		if e.Name == "message.Write" && errClass(s, e.Res[1]) == "err" {
			return e
		}
	}
	return nil
}

func (c *Ctx) builtFrame(s *State, o Outcome, fr VIface, noFrame bool, cls string, ver int64, sys, comp, seq Val, id Lin, meta VStruct, where, pos string) {
	in := c.In
	rule := "a built frame carries what was asked for"
	err := o.Rets[1]
	var wr *Event
	for _, e := range s.Events() {
		if e.Name == "message.Write" {
			c.ob(wr == nil || valKeys(wr.Res) == valKeys(e.Res), "the message is encoded once", where, pos, "the message is encoded again")
			wr = e
			c.ob(len(e.Args) == 2 && intIs(s, e.Args[1], K(ver)), "the message is encoded for the requested version", where, pos, "encoded for version %s", valString(e.Args[1]))
		}
	}
	if cls == "err" {
		c.ob(noFrame, "an error comes without a frame", where, pos, "error %s comes with the frame %s", errName(s, err), valString(fr))
	}
	if ver == 1 {
		if s.prove(id.AddK(-256)) {
			c.ob(cls == "err" && noFrame, "an id that does not fit version 1 is refused", where, pos, "the result is (%s, %s) [%s]", valString(fr), errName(s, err), c.short(s.pathString()))
			return
		}
	}
	if cls == "err" {
		// one of the reasons must hold
		if wr == nil {
			c.ob(false, rule, where, pos, "building fails with %s without a reason [%s]", errName(s, err), c.short(s.pathString()))
			return
		}
		if errClass(s, wr.Res[1]) == "err" {
			c.ob(c.sameVal(s, s.resolve(err), s.resolve(wr.Res[1])), "an encoding error is passed on", where, pos, "the error is %s, encoding said %s", errName(s, err), valString(wr.Res[1]))
			return
		}
		ml, isS := s.resolve(wr.Res[0]).(VSlice)
		c.ob(isS && s.prove(ml.Len.AddK(-256)), rule, where, pos, "building fails with %s without a reason [%s]", errName(s, err), c.short(s.pathString()))
		return
	}
	if !c.ob(cls == "nil" && wr != nil, rule, where, pos, "the result is (%s, %s) [%s]", valString(fr), errName(s, err), c.short(s.pathString())) {
		return
	}
	c.ob(errClass(s, wr.Res[1]) == "nil", "an encoding error is passed on", where, pos, "a frame is built although encoding may have failed [%s]", c.short(s.pathString()))
	pl, isS := s.resolve(wr.Res[0]).(VSlice)
	if !c.ob(isS, rule, where, pos, "the encoding is %s", valString(wr.Res[0])) {
		return
	}
	L := pl.Len
	if !c.ob(s.proveGe(K(255), L), "a payload that does not fit the header is refused", where, pos, "a frame is built for a payload of %s bytes [%s]", L, c.short(s.pathString())) {
		return
	}
	ft := c.R.typ(c.R.Mod, fmt.Sprintf("FrameV%d", ver))
	fs, isF := fr.V.(VSlice)
	if !c.ob(fr.Dyn != nil && types.Identical(fr.Dyn, ft) && isF && fs.Obj != nil, rule, where, pos, "the frame is %s of type %s", valString(fr), fr.Dyn) {
		return
	}
	hdr := K(6)
	if ver == 2 {
		hdr = K(10)
	}
	c.ob(s.proveEq(fs.Len, hdr.Add(L).AddK(2)), "the frame has exactly the bytes of header, payload and checksum", where, pos, "the frame has %s bytes [%s]", fs.Len, c.short(s.pathString()))
	ct := s.sliceBytes(fs)
	byteIs := func(i int64, want Lin, what string) {
		got := s.byteAt(ct, K(i))
		c.ob(s.proveEq(got, want) || s.proveEq(s.refresh(got, 0), s.refresh(want, 0)), rule, where+" "+what, pos, "byte %d (%s) is %s instead of %s [%s]", i, what, got, want, c.short(s.pathString()))
	}
	idb := in.U.BitsOf(id, 32)
	byteOf := func(k int) Lin { return in.U.FromBits(idb[8*k : 8*k+8]) }
	num := func(v Val) Lin { return v.(VInt).L }
	if ver == 1 {
		byteIs(0, K(0xFE), "start byte")
		byteIs(1, L, "payload length")
		byteIs(2, num(seq), "sequence")
		byteIs(3, num(sys), "system id")
		byteIs(4, num(comp), "component id")
		byteIs(5, id, "message id")
	} else {
		byteIs(0, K(0xFD), "start byte")
		byteIs(1, L, "payload length")
		byteIs(2, K(0), "incompatibility flags")
		byteIs(3, K(0), "compatibility flags")
		byteIs(4, num(seq), "sequence")
		byteIs(5, num(sys), "system id")
		byteIs(6, num(comp), "component id")
		byteIs(7, byteOf(0), "message id")
		byteIs(8, byteOf(1), "message id")
		byteIs(9, byteOf(2), "message id")
	}
	var payload Content
	if pl.Obj != nil {
		payload = s.sliceBytes(pl)
	}
	c.ob(s.proveEq(L, K(0)) || s.contentEq(s.cut(ct, hdr, L), payload, L), rule, where+" payload", pos, "the payload is %s instead of %s [%s]", s.cut(ct, hdr, L), payload, c.short(s.pathString()))
	// the checksum over what the header should hold
	var extra Lin
	mt := under(meta.T).(*types.Struct)
	for i := 0; i < mt.NumFields(); i++ {
		if mt.Field(i).Name() == "CRCExtra" {
			extra = meta.F[i].(VInt).L
		}
	}
	end := hdr.Add(L)
	lo, hi := s.byteAt(ct, end), s.byteAt(ct, end.AddK(1))
	stored := append(append([]Bit(nil), in.U.BitsOf(lo, 8)...), in.U.BitsOf(hi, 8)...)
	want := c.crcOf(s, crcInit(), s.cut(ct, K(1), end.AddK(-1)))
	want = crcStep(want, in.U.BitsOf(extra, 8))
	got := c.expandBits(s, stored, map[*Atom][]Bit{})
	eq, _ := c.sameWord(s, got, want)
	c.ob(eq, "the checksum of a built frame fits", where, pos, "the checksum is %s instead of %s [%s]", in.U.FromBits(got), in.U.FromBits(want), c.short(s.pathString()))
	if pl.Obj != nil {
		c.ob(fs.Obj != pl.Obj, "the frame does not share the message's memory", where, pos, "the frame is memory of the encoding")
	}
}

func propC06(c *Ctx) {
	for _, ver := range []int64{1, 2, 0} {
		c.buildRules(1, ver, false)
		c.buildRules(0, ver, false)
	}
	c.buildRules(2, 1, false)
	c.buildRules(2, 2, false)
}

func propC09(c *Ctx) {
	for n := int64(0); n <= c.listMax(); n++ {
		for ver := 1; ver <= 2; ver++ {
			c.getMessageRules(n, ver)
			c.buildRules(n, int64(ver), true)
			c.validateOrder(n, ver)
		}
	}
}

// validateOrder: only the lookup part of validation.
func (c *Ctx) validateOrder(n int64, ver int) {
	t := c.coreType("Dialects")
	if t == nil {
		return
	}
	fn := c.R.valMethod(t, "Validate")
	where := fmt.Sprintf("Dialects.Validate v%d", ver)
	if !c.ob(fn != nil, "the method exists", "Dialects.Validate", "", "no method Validate") {
		return
	}
	c.In.reset()
	st := c.In.NewState()
	d := c.dialectList(st, n)
	fi := c.frame(st, ver, nil, nil, Lin{})
	outs, ok := c.run(fn, []Val{d, fi.V}, st)
	if !ok || !c.noPanic("validation never panics", where, outs) {
		return
	}
	for _, o := range c.splitAnswers(outs) {
		a, okA := c.lookups(o.St, "dialect.GetMeta", int(n), VInt{c.frameID(fi)}, "the dialects are asked in order", where, c.pos(fn))
		if okA && a.Kind == "none" {
			c.ob(errIs(o.St, o.Rets[0], "ErrUnknownMessage"), "an unknown message is reported", where, c.pos(fn), "the verdict is %s", errName(o.St, o.Rets[0]))
		}
		if okA && a.Kind == "err" {
			c.ob(c.sameVal(o.St, o.St.resolve(o.Rets[0]), o.St.resolve(a.Res[1])), "the first answer is passed on", where, c.pos(fn), "the verdict is %s, the dialect said %s", errName(o.St, o.Rets[0]), valString(a.Res[1]))
		}
	}
}

var _ = (*ssa.Function)(nil)
