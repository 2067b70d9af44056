package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// Rules about text renderings of frames (C30), what messages say about
// themselves (C31), frames made from bytes (C32), the error values (C33) and
// the helpers for payloads (C34).

// ---- C30 --------------------------------------------------------------------

type shown struct {
	label string
	pre   string // literal text in front of the value
	val   Val    // nil: the value is literal text
	verb  string
	lit   string
}

// lines takes a rendered text apart into lines "label: value".
func lines(text Content) (out []shown, bad string) {
	cur := ""
	var vals []Seg
	flush := func() {
		defer func() { cur, vals = "", nil }()
		if strings.Trim(cur, " \t") == "" && len(vals) == 0 {
			return
		}
		i := strings.IndexByte(cur, ':')
		if i < 0 || strings.IndexByte(cur[:i], 0) >= 0 {
			bad = fmt.Sprintf("the line %q has no label", cur)
			return
		}
		l := shown{label: strings.TrimSpace(cur[:i])}
		rest := strings.TrimSpace(cur[i+1:])
		switch len(vals) {
		case 0:
			l.lit = rest
		case 1:
			j := strings.IndexByte(rest, 0)
			l.pre = rest[:j]
			g := vals[0]
			l.verb = g.Verb
			l.val = g.Arg
			if g.Kind != SegFmt {
				l.val = VStr{Content{g}, g.Len}
			}
			if v, ok := l.val.(VIface); ok && v.Dyn != nil {
				l.val = v.V
			}
			if strings.TrimSpace(rest[j+1:]) != "" {
				bad = fmt.Sprintf("the line %q has more than a value", cur)
			}
		default:
			bad = fmt.Sprintf("the line %q shows several values", cur)
		}
		out = append(out, l)
	}
	for _, g := range text {
		if g.Kind != SegLit {
			cur += "\x00"
			vals = append(vals, g)
			continue
		}
		for i, s := range strings.Split(g.Lit, "\n") {
			if i > 0 {
				flush()
			}
			cur += s
		}
	}
	flush()
	return out, bad
}

// showsInt: the line shows the number.
func (l shown) showsInt(s *State, want Lin) bool {
	if l.val == nil {
		w := substConst(s, want)
		if !w.IsConst() {
			return false
		}
		return l.lit == fmt.Sprint(w.C) || l.lit == fmt.Sprintf("0x%x", w.C) || l.lit == fmt.Sprintf("0x%X", w.C)
	}
	return intIs(s, l.val, want)
}

func (l shown) showsBool(s *State, want bool) bool {
	if l.val == nil {
		return l.lit == fmt.Sprint(want)
	}
	b, ok := s.resolve(l.val).(VBool)
	if !ok {
		return false
	}
	v, k := s.decide(b.C)
	return k && v == want
}

func (c *Ctx) frameText(ver int) {
	in := c.In
	t := c.coreType(fmt.Sprintf("FrameV%d", ver))
	if t == nil {
		return
	}
	fn := c.R.method(t, "String")
	where := t.Obj().Name() + ".String"
	if !c.ob(fn != nil, "the method exists", where, in.pos(t.Obj().Pos()), "no method String") {
		return
	}
	in.reset()
	st := in.NewState()
	fi := c.frame(st, ver, nil, nil, Lin{})
	mem := st.heap[cell{fi.Slice.Obj, ""}]
	var recv Val = fi.Slice
	if _, isP := fn.Params[0].Type().Underlying().(*types.Pointer); isP {
		o := in.newObj(OSym, "*framep", t, nil)
		st.storeCell(o, "", t, fi.Slice)
		recv = VPtr{Obj: o}
	}
	outs, ok := c.run(fn, []Val{recv}, st)
	if !ok || !c.noPanic("rendering a frame never panics", where, outs) {
		return
	}
	pos := c.pos(fn)
	for _, o := range outs {
		for sig := int64(0); sig <= 1; sig++ {
			s := o.St.Clone()
			if ver == 2 && !s.assume(Eq0(fi.Sig.AddK(-sig))) || ver == 1 && sig == 1 {
				continue
			}
			v, isS := s.resolve(o.Rets[0]).(VStr)
			if !c.ob(isS, "rendering gives a text", where, pos, "the result is %s", valString(o.Rets[0])) {
				continue
			}
			at := where
			if ver == 2 {
				at += []string{" unsigned", " signed"}[sig]
			}
			ls, bad := lines(flatText(s.flatten(v.C)))
			if !c.ob(bad == "", "every value is shown on a line of its own under a name", at, pos, "%s", bad) {
				continue
			}
			sh := int64(0)
			if ver == 2 {
				sh = 2
			}
			num := func(l Lin) func(shown) bool { return func(x shown) bool { return x.showsInt(s, l) } }
			type want struct {
				ok   func(shown) bool
				must bool
			}
			ws := map[string]want{
				"Version":           {num(K(int64(ver))), true},
				"MessageLength":     {num(fi.L), true},
				"MessageSequence":   {num(c.u8(fi.Seq, K(2+sh))), false},
				"SenderSystemID":    {num(c.u8(fi.Seq, K(3+sh))), true},
				"SenderComponentID": {num(c.u8(fi.Seq, K(4+sh))), true},
				"MessageID":         {num(c.frameID(fi)), true},
				"Checksum":          {num(c.u8(fi.Seq, fi.L.AddK(fi.Hdr)).AddMul(c.u8(fi.Seq, fi.L.AddK(fi.Hdr+1)), 256)), true},
			}
			if ver == 2 {
				ws["IncompatibilityFlags"] = want{num(c.u8(fi.Seq, K(2))), true}
				ws["CompatibilityFlags"] = want{num(c.u8(fi.Seq, K(3))), true}
				ws["Signed"] = want{func(x shown) bool { return x.showsBool(s, sig == 1) }, true}
				if sig == 1 {
					ws["Signature"] = want{func(x shown) bool {
						return x.val != nil && sliceIs(s, x.val, s.cut(s.sliceBytes(fi.Slice), fi.L.AddK(12), K(13)), K(13))
					}, true}
				}
			}
			n := map[string]int{}
			for _, l := range ls {
				n[l.label]++
				w, known := ws[l.label]
				if !c.ob(known, "nothing else is shown", at+" "+l.label, pos, "the text shows %q", l.label) {
					continue
				}
				c.ob(w.ok(l), "the value shown is the frame's", at+" "+l.label, pos, "under %q the text shows %s%s [%s]", l.label, valStringOr(l.val), l.lit, c.short(s.pathString()))
			}
			for _, name := range sortedKeys(ws) {
				k := n[name]
				c.ob(k == 1 || k == 0 && !ws[name].must, "every header field is shown once", at+" "+name, pos, "%q is shown %d times [%s]", name, k, c.short(s.pathString()))
			}
			c.ob(c.frameUnchanged(s, fi, mem), "rendering leaves the frame alone", at, pos, "the frame's bytes are modified")
		}
	}
}

func valStringOr(v Val) string {
	if v == nil {
		return ""
	}
	return valString(v)
}

// unknownText: the placeholder's text.
func (c *Ctx) unknownText() {
	in := c.In
	t := c.coreType("UnknownMessage")
	if t == nil {
		return
	}
	fn := c.R.method(t, "String")
	if !c.ob(fn != nil, "the method exists", "UnknownMessage.String", in.pos(t.Obj().Pos()), "no method String") {
		return
	}
	in.reset()
	st := in.NewState()
	p := VPtr{Obj: in.symObj("*unknown", t)}
	fld := func(s *State, n string) Val {
		f := c.structField(t, n)
		if f == nil {
			return nil
		}
		return s.loadCell(p.Obj, "."+n, f.Type())
	}
	outs, ok := c.run(fn, []Val{p}, st)
	if !ok || !c.noPanic("rendering a placeholder never panics", "UnknownMessage", outs) {
		return
	}
	pos := c.pos(fn)
	for _, o := range outs {
		s := o.St
		v, isS := s.resolve(o.Rets[0]).(VStr)
		if !c.ob(isS, "rendering gives a text", "UnknownMessage", pos, "the result is %s", valString(o.Rets[0])) {
			continue
		}
		ls, bad := lines(flatText(s.flatten(v.C)))
		if !c.ob(bad == "", "every value is shown on a line of its own under a name", "UnknownMessage", pos, "%s", bad) {
			continue
		}
		n := map[string]int{}
		for _, l := range ls {
			n[l.label]++
			var okV bool
			switch l.label {
			case "ID", "Version":
				i, isI := fld(s, l.label).(VInt)
				okV = isI && l.showsInt(s, i.L)
			case "Raw":
				sl, isSl := s.resolve(fld(s, "Raw")).(VSlice)
				okV = isSl && l.val != nil && sliceIs(s, l.val, s.sliceBytes(sl), sl.Len)
			default:
				c.ob(false, "nothing else is shown", "UnknownMessage "+l.label, pos, "the text shows %q", l.label)
				continue
			}
			c.ob(okV, "the value shown is the placeholder's", "UnknownMessage "+l.label, pos, "under %q the text shows %s%s", l.label, valStringOr(l.val), l.lit)
		}
		for _, name := range []string{"ID", "Version", "Raw"} {
			c.ob(n[name] == 1, "every field of the placeholder is shown once", "UnknownMessage "+name, pos, "%q is shown %d times", name, n[name])
		}
		ch := s.changedCells(p.Obj)
		c.ob(len(ch) == 0, "rendering leaves the placeholder alone", "UnknownMessage", pos, "changes %s", strings.Join(ch, "; "))
	}
}

func propC30(c *Ctx) {
	c.frameText(1)
	c.frameText(2)
	c.unknownText()
}

// ---- C31 --------------------------------------------------------------------

func propC31(c *Ctx) {
	ms := c.messages(nil)
	c.parallel(len(ms), func(c *Ctx, i int) { c.selfRules(ms[i]) })
	c.placeholderRules()
}

func (c *Ctx) selfRules(m *MsgT) {
	in := c.In
	tpos := in.pos(m.T.Obj().Pos())
	f := c.R.method(m.T, "HasExtensionFields")
	if c.ob(f != nil, "method", m.key()+".HasExtensionFields", tpos, "no method HasExtensionFields") {
		in.reset()
		outs, ok := c.run(f, []Val{c.receiver(m, "m")}, in.NewState())
		if ok && c.noPanic("what a message says never panics", m.key()+".HasExtensionFields", outs) {
			for _, o := range outs {
				b, isB := o.St.resolve(o.Rets[0]).(VBool)
				got, k := false, false
				if isB {
					got, k = o.St.decide(b.C)
				}
				c.ob(k && got == m.S.HasExt(), "a message says whether its definition has extension fields", m.key(), c.pos(f), "HasExtensionFields gives %s, the definition has extension fields: %v", valString(o.Rets[0]), m.S.HasExt())
			}
		}
	}
	f = c.R.method(m.T, "GetVersion")
	if !c.ob(f != nil, "method", m.key()+".GetVersion", tpos, "no method GetVersion") {
		return
	}
	in.reset()
	st := in.NewState()
	p := c.receiver(m, "m")
	fl := c.structField(m.T, "HasExtensionFieldValues")
	if !c.ob(fl != nil, "a message notes whether it has extension values", m.key(), tpos, "no field HasExtensionFieldValues") {
		return
	}
	outs, ok := c.run(f, []Val{p}, st)
	if !ok || !c.noPanic("what a message says never panics", m.key()+".GetVersion", outs) {
		return
	}
	for _, o := range outs {
		for _, ext := range []bool{false, true} {
			s := o.St.Clone()
			cond := s.loadCell(p.Obj, ".HasExtensionFieldValues", fl.Type()).(VBool).C
			if !ext {
				cond = cond.Not()
			}
			if !s.assume(cond) {
				continue
			}
			want := int64(1)
			if ext {
				want = 2
			}
			c.ob(intIs(s, o.Rets[0], K(want)), "a message says which version its values need", fmt.Sprintf("%s (extension values: %v)", m.key(), ext), c.pos(f), "GetVersion gives %s instead of %d [%s]", valString(o.Rets[0]), want, c.short(s.pathString()))
			ch := s.changedCells(p.Obj)
			c.ob(len(ch) == 0, "asking does not change the message", m.key(), c.pos(f), "changes %s", strings.Join(ch, "; "))
		}
	}
}

// placeholderRules: what the placeholder of an unknown message says.
func (c *Ctx) placeholderRules() {
	in := c.In
	t := c.coreType("UnknownMessage")
	if t == nil {
		return
	}
	type q struct {
		meth string
		ok   func(s *State, p VPtr, rets []Val) bool
		say  string
	}
	fld := func(s *State, p VPtr, n string) Val {
		f := c.structField(t, n)
		if f == nil {
			return VOpq{"no field"}
		}
		return s.loadCell(p.Obj, "."+n, f.Type())
	}
	num := func(n string) func(*State, VPtr, []Val) bool {
		return func(s *State, p VPtr, r []Val) bool {
			i, ok := fld(s, p, n).(VInt)
			return ok && intIs(s, r[0], i.L)
		}
	}
	str := func(s *State, p VPtr, r []Val) bool {
		x, ok := s.resolve(r[0]).(VStr)
		if !ok {
			return false
		}
		b, k := constBytes(x.C)
		return k && b == "unknown"
	}
	for _, e := range []q{
		{"GetID", num("ID"), "its id"},
		{"GetVersion", num("Version"), "its version"},
		{"GetDialect", str, `"unknown"`},
		{"GetMessageName", str, `"unknown"`},
		{"Write", func(s *State, p VPtr, r []Val) bool {
			raw, ok := s.resolve(fld(s, p, "Raw")).(VSlice)
			if !ok || errClass(s, r[1]) != "nil" {
				return false
			}
			var want Content
			if raw.Obj != nil {
				want = s.sliceBytes(raw)
			}
			return sliceIs(s, r[0], want, raw.Len)
		}, "its raw payload, without error"},
	} {
		fn := c.R.method(t, e.meth)
		where := "UnknownMessage." + e.meth
		if !c.ob(fn != nil, "the method exists", where, in.pos(t.Obj().Pos()), "no method %s", e.meth) {
			continue
		}
		in.reset()
		st := in.NewState()
		p := VPtr{Obj: in.symObj("*unknown", t)}
		args := []Val{p}
		if e.meth == "Write" {
			args = append(args, VInt{L1(in.intAtom("version"))})
		}
		outs, ok := c.run(fn, args, st)
		if !ok || !c.noPanic("what a message says never panics", where, outs) {
			continue
		}
		for _, o := range outs {
			var got []string
			for _, r := range o.Rets {
				got = append(got, valString(r))
			}
			c.ob(e.ok(o.St, p, o.Rets), "the placeholder reports what it was read from", where, c.pos(fn), "%s gives %s instead of %s [%s]", e.meth, strings.Join(got, ", "), e.say, c.short(o.St.pathString()))
			ch := o.St.changedCells(p.Obj)
			c.ob(len(ch) == 0, "asking does not change the message", where, c.pos(fn), "changes %s", strings.Join(ch, "; "))
		}
	}
	// and it is read from the frame
	read := c.R.method(t, "Read")
	if !c.ob(read != nil, "the method exists", "UnknownMessage.Read", in.pos(t.Obj().Pos()), "no method Read") {
		return
	}
	for ver := 1; ver <= 2; ver++ {
		in.reset()
		st := in.NewState()
		p := VPtr{Obj: in.symObj("*unknown", t)}
		fi := c.frame(st, ver, nil, nil, Lin{})
		where := fmt.Sprintf("UnknownMessage.Read v%d", ver)
		outs, ok := c.run(read, []Val{p, fi.V}, st)
		if !ok || !c.noPanic("what a message says never panics", where, outs) {
			continue
		}
		for _, o := range outs {
			c.ob(errClass(o.St, o.Rets[0]) == "nil", "a placeholder can be read from any frame", where, c.pos(read), "the error is %s", errName(o.St, o.Rets[0]))
			c.unknownMessage(o.St, VIface{Dyn: newPtr(t), V: p}, fi, where, c.pos(read))
		}
	}
}

// ---- C32 --------------------------------------------------------------------

func propC32(c *Ctx) { c.fromBytesRules() }

// ---- C33 --------------------------------------------------------------------

// propC33: the exported error values are there, and no two are equal.
func propC33(c *Ctx) {
	in := c.In
	for _, u := range in.InitUndecided {
		c.ob(false, "the initialisation can be evaluated", "init", u, "%s", u)
	}
	byVal := map[string][]string{}
	n := 0
	for _, p := range c.R.Pkgs {
		sp := c.R.SSA[p.PkgPath]
		if sp == nil {
			continue
		}
		for _, name := range sortedKeys(sp.Members) {
			g := sp.Var(name)
			if g == nil || g.Object() == nil || !g.Object().Exported() || !types.Implements(deref(g.Type()), errIface.Underlying().(*types.Interface)) {
				continue
			}
			n++
			key := strings.TrimPrefix(p.PkgPath, c.R.Mod+"/") + "." + name
			if p.PkgPath == c.R.Mod {
				key = name
			}
			pos := in.pos(g.Pos())
			v, ok := in.globalCell(in.globalObj(g), "", deref(g.Type()))
			if !c.ob(ok, "an error value does not change after initialisation", key, pos, "it is %s", in.gdirty[g]) {
				continue
			}
			i, isI := v.(VIface)
			isNil, known := true, false
			if isI {
				isNil, known = isNilVal(i)
			} else if ptr, isP := v.(VPtr); isP {
				isNil, known = ptr.Obj == nil, true
			}
			c.ob(known && !isNil, "an error value is not nil", key, pos, "its value is %s", valString(v))
			byVal[valKey(v)] = append(byVal[valKey(v)], key)
			c.ob(isI && i.Dyn != nil, "an error value is made by the initialisation", key, pos, "its value is %s", valString(v))
		}
	}
	for _, k := range sortedKeys(byVal) {
		l := byVal[k]
		sort.Strings(l)
		for _, x := range l {
			c.ob(len(l) == 1, "no two error values are equal", x, "", "%s are the same value", strings.Join(l, " and "))
		}
	}
	c.note("error values", n)
}

// ---- C34 --------------------------------------------------------------------

func propC34(c *Ctx) {
	in := c.In
	sp := c.R.SSA[c.R.Mod+"/util"]
	if !c.ob(sp != nil, "the package exists", "util", "", "no package util") {
		return
	}
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	run := func(name string, f func(s *State, raw VSlice, v Val, pos string)) {
		fn := sp.Func(name)
		where := "util." + name
		if !c.ob(fn != nil, "the function exists", where, "", "no function %s", name) {
			return
		}
		for _, isNil := range []bool{false, true} {
			in.reset()
			st := in.NewState()
			raw := in.symVal(st, "input", bytesT).(VSlice)
			if isNil {
				raw = VSlice{Off: K(0), Len: K(0), Cap: K(0), Elem: types.Typ[types.Uint8]}
			}
			outs, ok := c.run(fn, []Val{raw}, st)
			if !ok || !c.noPanic("the helper never panics", where, outs) {
				continue
			}
			for _, o := range outs {
				if raw.Obj != nil {
					got, isA := o.St.heap[cell{raw.Obj, ""}].(VArr)
					c.ob(isA && o.St.contentEq(got.C, Content{SrcSeg(in.U.Seq("input"), K(0), raw.Cap)}, raw.Cap), "the helper leaves its input alone", where, c.pos(fn), "the input becomes %s", valString(o.St.heap[cell{raw.Obj, ""}]))
				}
				f(o.St, raw, o.Rets[0], c.pos(fn))
			}
		}
	}
	run("TruncateV2", func(s *State, raw VSlice, v Val, pos string) {
		where := "util.TruncateV2"
		r, isS := s.resolve(v).(VSlice)
		if !c.ob(isS, "the result is a part of the input", where, pos, "the result is %s", valString(v)) {
			return
		}
		q := in.U.Seq("input")
		k, n := r.Len, raw.Len
		if r.Obj == nil {
			k = K(0)
		}
		c.ob(s.proveGe(n, k) && (s.proveEq(k, K(0)) || s.contentEq(s.sliceBytes(r), Content{SrcSeg(q, K(0), n)}, k)), "the result is the beginning of the input", where, pos, "the result is %s [%s]", valString(r), c.short(s.pathString()))
		c.ob(s.rangeFact(q, k, n, true, 0), "only zero bytes are cut off", where, pos, "bytes from %s to %s are cut off although they may be non-zero [%s]", k, n, c.short(s.pathString()))
		some := s.Clone()
		c.ob(!some.assume(Ge(n.AddK(-1))) || some.prove(k.AddK(-1)), "one byte is kept", where, pos, "the result has %s bytes [%s]", k, c.short(s.pathString()))
		last := k.AddK(-1)
		c.ob(s.proveGe(K(1), k) || s.rangeFact(q, last, k, false, 0) || s.proveNe(in.U.ByteAt(q, last)), "no trailing zero byte is kept", where, pos, "the last of the %s bytes kept may be zero [%s]", k, c.short(s.pathString()))
	})
	run("CStrLen", func(s *State, raw VSlice, v Val, pos string) {
		where := "util.CStrLen"
		i, isI := s.resolve(v).(VInt)
		if !c.ob(isI, "the result is a length", where, pos, "the result is %s", valString(v)) {
			return
		}
		q := in.U.Seq("input")
		k, n := i.L, raw.Len
		c.ob(s.prove(k) && s.proveGe(n, k), "the length is within the input", where, pos, "the length is %s of %s [%s]", k, n, c.short(s.pathString()))
		c.ob(s.rangeFact(q, K(0), k, false, 0), "no byte before the end is zero", where, pos, "the length is %s although a byte before it may be zero [%s]", k, c.short(s.pathString()))
		c.ob(s.proveEq(k, n) || s.proveEq(in.U.ByteAt(q, k), K(0)) || s.rangeFact(q, k, k.AddK(1), true, 0), "the text ends with a zero byte or the input", where, pos, "the length is %s although that byte may be non-zero [%s]", k, c.short(s.pathString()))
	})
}

// ---- C35 --------------------------------------------------------------------

var reportLabels = map[string]*regexp.Regexp{
	"version":      regexp.MustCompile(`(?i)\bversion\W*?(\x00|0[xX][0-9a-fA-F]+|\d+)`),
	"message id":   regexp.MustCompile(`(?i)\bmessage ?id\W*?(\x00|0[xX][0-9a-fA-F]+|\d+)`),
	"system id":    regexp.MustCompile(`(?i)\bsystem ?id\W*?(\x00|0[xX][0-9a-fA-F]+|\d+)`),
	"component id": regexp.MustCompile(`(?i)\bcomponent ?id\W*?(\x00|0[xX][0-9a-fA-F]+|\d+)`),
}

// reports: what the reader prints in a stretch. A rejected candidate may be
// reported, with its own values, if it has not been before.
func (rd *reader) reports(t *State, cd candidate, p0 Lin, evs []*Event, say func(ok bool, rule, f string, a ...interface{}) bool) {
	b := func(i int64) Lin { return rd.c.In.U.ByteAt(rd.c.In.U.Seq(streamSeq), p0.AddK(i)) }
	want := map[string]Lin{"version": K(1), "message id": b(5), "system id": b(3), "component id": b(4)}
	if cd.name != "version 1 candidate" {
		want = map[string]Lin{"version": K(2), "message id": b(7).AddMul(b(8), 256).AddMul(b(9), 65536), "system id": b(5), "component id": b(6)}
	}
	var text Content
	printed, unknown, rejected := false, "", false
	var reads, ups []*Event
	for _, e := range evs {
		switch {
		case e.Kind == "call" && e.Name == opValidate:
			rejected = errClass(t, e.Res[0]) == "err"
		case e.Kind == "print":
			say(rejected && !cd.none, "only rejected candidates are reported", "something else is printed at %s", rd.c.In.pos(e.Pos))
			printed = true
			if len(e.Snap) == 0 {
				unknown = "the text printed at " + rd.c.In.pos(e.Pos) + " is unknown"
			} else {
				text = append(text, e.Snap[0]...)
			}
		case e.Kind == "mapread" && rd.shared[e.Obj] && rejected:
			reads = append(reads, e)
		case e.Kind == "mapupdate" && rd.shared[e.Obj] && rejected:
			ups = append(ups, e)
		}
	}
	if !rejected || cd.none {
		return
	}
	// is there an entry for this kind of candidate?
	var hit, miss *Event
	full, byValue := false, false
	bad := ""
	for _, e := range reads {
		if why := keyFits(t, e.Args[0], want); why != "" {
			bad = why
			continue
		}
		if len(e.L) == 0 {
			continue
		}
		zero, nonzero := false, true // the value that was looked at
		if len(e.Res) > 0 {
			zero, nonzero = zeroness(t, e.Res[0])
			byValue = true
		}
		switch {
		case t.prove(e.L[0].Neg()) || zero:
			miss = e
		case t.prove(e.L[0].AddK(-1)) && nonzero:
			hit = e
		}
	}
	for o := range rd.shared {
		// the length of anything but a map is not known to be positive
		full = full || t.prove(rd.c.In.mapLen(t, VMap{Obj: o}).AddK(-1))
	}
	if bad == "" {
		bad = "it is not looked up"
	}
	if !printed {
		say(hit != nil || full, "a rejected candidate is reported unless one like it was", "nothing is printed although no earlier report is found (%s)", bad)
		return
	}
	say(miss != nil, "a rejected candidate is reported only once", "it is reported although earlier reports are not looked for (%s)", bad)
	stored := false
	for _, e := range ups {
		_, nonzero := zeroness(t, e.Args[1])
		stored = stored || miss != nil && e.Obj == miss.Obj && t.valEq(e.Args[0], miss.Args[0]) && (nonzero || !byValue)
	}
	say(stored, "a report is remembered", "no entry is made for it")
	if !say(unknown == "", "a report can be read", "%s", unknown) {
		return
	}
	str := ""
	var vals []Val
	for _, g := range flatText(t.flatten(text)) {
		if g.Kind == SegLit {
			str += g.Lit
			continue
		}
		v := g.Arg
		if g.Kind != SegFmt {
			v = VStr{Content{g}, g.Len}
		}
		if i, ok := v.(VIface); ok && i.Dyn != nil {
			v = i.V
		}
		vals = append(vals, v)
		str += "\x00"
	}
	for _, n := range sortedKeys(reportLabels) {
		m := reportLabels[n].FindAllStringSubmatchIndex(str, -1)
		if !say(len(m) == 1, "a report has version, message, system and component id", "the text %q shows the %s %d times", strings.ReplaceAll(str, "\x00", "%"), n, len(m)) {
			continue
		}
		l := shown{lit: str[m[0][2]:m[0][3]]}
		if l.lit == "\x00" {
			l = shown{val: vals[strings.Count(str[:m[0][2]], "\x00")]}
		}
		say(l.showsInt(t, want[n]), "a report shows the values of the candidate", "as %s it shows %s%s", n, valStringOr(l.val), l.lit)
	}
}

// zeroness: is the value (an integer or a bool) known to be zero, or known not to be?
func zeroness(t *State, v Val) (zero, nonzero bool) {
	switch x := t.resolve(v).(type) {
	case VBool:
		b, known := t.decide(x.C)
		return known && !b, known && b
	case VInt:
		return t.proveEq(x.L, K(0)), t.prove(x.L.AddK(-1)) || t.prove(x.L.Neg().AddK(-1))
	}
	return false, false
}

// keyFits: the key is made of exactly the values wanted.
func keyFits(s *State, key Val, want map[string]Lin) string {
	var parts []Lin
	var add func(v Val) string
	add = func(v Val) string {
		switch x := s.resolve(v).(type) {
		case VInt:
			parts = append(parts, substConst(s, x.L))
		case VStruct:
			for _, f := range x.F {
				if w := add(f); w != "" {
					return w
				}
			}
		case VArray:
			for _, f := range x.E {
				if w := add(f); w != "" {
					return w
				}
			}
		case VArr:
			if n := substConst(s, x.N); n.IsConst() {
				for i := int64(0); i < n.C; i++ {
					parts = append(parts, substConst(s, s.byteAt(x.C, K(i))))
				}
			}
		case VStr:
			for _, g := range flatText(s.flatten(x.C)) {
				if g.Kind == SegFmt {
					if w := add(g.Arg); w != "" {
						return w
					}
				} else if g.Kind != SegLit {
					return "the key is " + valString(v)
				}
			}
		case VIface:
			if x.Dyn != nil {
				return add(x.V)
			}
			return "the key is " + valString(v)
		default:
			return "the key is " + valString(v)
		}
		return ""
	}
	if w := add(key); w != "" {
		return w
	}
	may := map[*Atom]bool{}
	for _, w := range want {
		baseAtoms(substConst(s, w), may)
	}
	have := map[*Atom]bool{}
	consts := false
	for _, p := range parts {
		if p.C != 0 {
			consts = true
		}
		baseAtoms(p, have)
	}
	for a := range have {
		if !may[a] {
			return "the key depends on " + L1(a).String()
		}
	}
	for _, n := range sortedKeys(want) {
		w := substConst(s, want[n])
		if w.IsConst() {
			found := consts
			for _, p := range parts {
				found = found || s.proveEq(p, w)
			}
			if !found {
				return "the key lacks the " + n
			}
			continue
		}
		l := map[*Atom]bool{}
		baseAtoms(w, l)
		for a := range l {
			if !have[a] {
				return "the key lacks the " + n
			}
		}
	}
	return ""
}

// baseAtoms collects the atoms of l, those of bit vectors one by one.
func baseAtoms(l Lin, m map[*Atom]bool) {
	for _, t := range l.T {
		if t.A.Kind != KBits {
			m[t.A] = true
			continue
		}
		for _, b := range t.A.Bits {
			for _, x := range b.X {
				baseAtoms(L1(x.A), m)
			}
		}
	}
}
