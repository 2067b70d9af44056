package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the frame stream. The stream is constructed by interpreting its
// constructor; the loops are then interpreted from that state. Behaviour is
// cut into segments at the loop heads; the reader's window (the received but
// not yet consumed bytes) is the loop invariant.

type stream struct {
	c       *Ctx
	ctor    string
	t       *types.Named
	obj     *Obj
	recv    VPtr
	base    *State
	shared  map[*Obj]bool
	rwc     VIface
	logger  Val
	retInv  Val
	ctx     VIface
	in      string
	out     string
	closed  string
	methods map[string]*ssa.Function
	ghost   *Obj
	vol     map[cell]bool
	ctorEvs []*Event
}

var streamMethods = []string{"Write", "Read", "Close", "Closed", "GetCloseErr", "WriteContext", "ReadContext"}

func (r *stream) ob(prop string, ok bool, rule, where, pos, detail string, a ...interface{}) bool {
	if r.c.Prop != prop {
		return ok
	}
	return r.c.ob(ok, rule, where, pos, detail, a...)
}

// newStream interprets a constructor of the stream.
func (c *Ctx) newStream(ctor string) *stream {
	in := c.In
	t := c.coreType("FrameStream")
	fn := c.R.SSA[c.R.Mod].Func(ctor)
	if t == nil || !c.ob(fn != nil, "the constructor exists", ctor, "", "no function %s", ctor) {
		return nil
	}
	r := &stream{c: c, ctor: ctor, t: t, shared: map[*Obj]bool{}, methods: map[string]*ssa.Function{}}
	for _, m := range streamMethods {
		f := c.R.method(t, m)
		if !c.ob(f != nil, "the method exists", "FrameStream."+m, in.pos(t.Obj().Pos()), "no method %s", m) {
			return nil
		}
		r.methods[m] = f
	}
	in.reset()
	st := in.NewState()
	notNil := func(v VIface) VIface {
		st.setIf(v.Atom, func(f *ifFact) { f.ne["nil"] = true })
		return v
	}
	r.ctx = notNil(VIface{Atom: "ctx", Typ: r.methods["ReadContext"].Params[1].Type()})
	r.logger = VIface{Typ: errIface}
	r.in = "input"
	var args []Val
	for _, p := range fn.Params {
		switch ty := p.Type(); {
		case types.IsInterface(ty) && p.Type().String() == "io.ReadWriteCloser":
			r.rwc = notNil(VIface{Atom: "rwc", Typ: ty})
			args = append(args, r.rwc)
		case types.IsInterface(ty):
			r.logger = VIface{Atom: "logger", Typ: ty}
			args = append(args, r.logger)
		default:
			switch ty.Underlying().(type) {
			case *types.Chan:
				args = append(args, VChan{r.in})
			case *types.Basic:
				r.retInv = in.symVal(st, "returnInvalidFrames", ty)
				args = append(args, r.retInv)
			default:
				args = append(args, in.symVal(st, p.Name(), ty))
			}
		}
	}
	outs, ok := c.run(fn, args, st)
	if !ok || !c.noPanic("constructing a stream never panics", ctor, outs) {
		return nil
	}
	if !c.ob(len(outs) == 1, "constructing a stream has one outcome", ctor, c.pos(fn), "%d outcomes", len(outs)) {
		return nil
	}
	r.base = outs[0].St
	p, isP := outs[0].Rets[0].(VPtr)
	if !c.ob(isP && p.Obj != nil && p.Obj.Kind == OAlloc, "a constructor makes a new stream", ctor, c.pos(fn), "the result is %s", valString(outs[0].Rets[0])) {
		return nil
	}
	r.recv, r.obj = p, p.Obj
	r.reach(p)
	for o := range r.shared {
		o.Shared = true
	}
	r.ctorEvs = r.base.Events()
	r.base.ev = nil
	r.watch()
	ch := func(m string) string {
		outs, ok := c.run(r.methods[m], []Val{r.recv}, r.base.Clone())
		if !ok || !c.noPanic("a stream's channels are there from the start", "FrameStream."+m, outs) {
			return ""
		}
		k := ""
		for _, o := range outs {
			v, isC := o.Rets[0].(VChan)
			good := isC && v.Key != "" && (k == "" || k == v.Key)
			c.ob(good, "a stream's channels are there from the start", ctor+" "+m, c.pos(r.methods[m]), "%s of a new stream gives %s", m, valString(o.Rets[0]))
			k = v.Key
		}
		return k
	}
	r.out, r.closed = ch("Read"), ch("Closed")
	r.ob("C19", ch("Write") == r.in, "the write channel is the channel the stream was made with", ctor, c.pos(fn), "Write gives %s", ch("Write"))
	if r.out == "" || r.closed == "" {
		return nil
	}
	defer func() {
		r.vol = r.stored(r.thread("Close"), r.thread("WriteContext"))
	}()
	c.ob(r.out != r.closed && r.out != r.in && r.closed != r.in, "a stream's channels are there from the start", ctor, c.pos(fn), "two channels are the same")
	return r
}

// reach collects the objects of the stream.
func (r *stream) reach(v Val) {
	do := func(o *Obj) {
		if o == nil || r.shared[o] || o.Kind != OAlloc {
			return
		}
		r.shared[o] = true
		for c, x := range r.base.heap {
			if c.o == o {
				r.reach(x)
			}
		}
	}
	switch x := v.(type) {
	case VPtr:
		do(x.Obj)
	case VSlice:
		do(x.Obj)
	case VMap:
		do(x.Obj)
	case VIface:
		if x.Dyn != nil {
			r.reach(x.V)
		}
	case VStruct:
		for _, f := range x.F {
			r.reach(f)
		}
	case VFunc:
		for _, f := range x.Bind {
			r.reach(f)
		}
	}
}

// cells lists the cells of the stream's objects with their types.
func (r *stream) cells() map[cell]types.Type {
	m := map[cell]types.Type{}
	var walk func(o *Obj, path string, t types.Type, d int)
	walk = func(o *Obj, path string, t types.Type, d int) {
		if s, ok := under(t).(*types.Struct); ok && d < 5 {
			if n, isN := t.(*types.Named); isN && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), r.c.R.Mod) {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				walk(o, path+"."+s.Field(i).Name(), s.Field(i).Type(), d+1)
			}
			return
		}
		m[cell{o, path}] = t
	}
	for o := range r.shared {
		if o.Typ != nil {
			walk(o, "", o.Typ, 0)
		}
	}
	return m
}

func (r *stream) cellVal(s *State, c cell, t types.Type) Val {
	if v, ok := s.heap[c]; ok {
		return s.resolve(v)
	}
	return s.resolve(s.Clone().loadCell(c.o, c.path, t))
}

func cellName(c cell) string { return strings.TrimPrefix(c.path, ".") }

// ---- the window ------------------------------------------------------------------

type window struct {
	r      *stream
	buf    cell
	n      Lin
	lo, hi *cell
}

func (w *window) String() string {
	s := "0"
	if w.lo != nil {
		s = cellName(*w.lo)
	}
	return fmt.Sprintf("%s[%s:%s]", w.buf.o.Name, s, cellName(*w.hi))
}

func (w *window) Owns(c cell) (bool, bool) {
	switch {
	case c == w.buf:
		return true, false
	case c == *w.hi, w.lo != nil && c == *w.lo:
		return true, true
	}
	return false, false
}

func (w *window) bounds(st *State) (lo, hi Lin, ok bool) {
	ok = true
	get := func(c *cell) Lin {
		if c == nil {
			return K(0)
		}
		v, isI := st.heap[*c].(VInt)
		if !isI {
			ok = st.heap[*c] == nil && ok
			return K(0)
		}
		return v.L
	}
	return get(w.lo), get(w.hi), ok
}

func (w *window) Enter(st *State, l *Loop) {
	in := st.in
	P := L1(in.U.Atom(in.U.Fresh("pos"), KOpaque, 0, 1<<50))
	A, B := K(0), L1(in.U.Atom(in.U.Fresh("end"), KOpaque, 0, 1<<40))
	if w.lo != nil {
		A = L1(in.U.Atom(in.U.Fresh("start"), KOpaque, 0, 1<<40))
		st.heap[*w.lo] = VInt{A}
	}
	st.heap[*w.hi] = VInt{B}
	st.addGe(B.Sub(A))
	st.addGe(w.n.Sub(B))
	j1, j2 := in.U.Seq(in.U.Fresh("junk")), in.U.Seq(in.U.Fresh("junk"))
	ct := Content{SrcSeg(j1, K(0), A), SrcSeg(in.U.Seq(streamSeq), P, B.Sub(A)), SrcSeg(j2, K(0), w.n.Sub(B))}
	st.heap[w.buf] = VArr{st.norm(ct), w.n}
	st.ghost["rpos"] = P.Add(B).Sub(A)
	w.cut(st, P)
}

func (w *window) cut(st *State, P Lin) {
	st.ghost["p0"] = P
	st.ghost["nobj"] = K(int64(st.in.nobj))
	st.Event(&Event{Kind: "cut"})
	st.ev.E.Node = st.Clone()
}

// Pos: the position up to which bytes are consumed.
func (w *window) Pos(st *State) (Lin, bool) {
	lo, hi, ok := w.bounds(st)
	return st.in.readPos(st).Sub(hi.Sub(lo)), ok
}

// holds: the memory between the bounds is the end of what was received.
func (w *window) holds(st *State) (bool, string) {
	lo, hi, ok := w.bounds(st)
	if !ok {
		return false, "the bounds are unknown"
	}
	n := hi.Sub(lo)
	if !st.prove(lo) || !st.prove(n) || !st.proveGe(w.n, hi) {
		return false, fmt.Sprintf("the window [%s, %s) may leave the buffer of %s bytes", lo, hi, w.n)
	}
	arr, isA := st.heap[w.buf].(VArr)
	if !isA {
		return st.proveEq(n, K(0)), "the buffer's content is unknown"
	}
	want := Content{SrcSeg(st.in.U.Seq(streamSeq), st.in.readPos(st).Sub(n), n)}
	if st.proveEq(n, K(0)) || st.contentEq(st.cut(arr.C, lo, n), want, n) {
		return true, ""
	}
	return false, fmt.Sprintf("the bytes kept are %s instead of the last %s received", st.cut(arr.C, lo, n), n)
}

// windows lists the ways in which the stream may keep its window.
func (r *stream) windows() []*window {
	var bufs []cell
	sizes := map[cell]Lin{}
	var ints []cell
	for c, t := range r.cells() {
		v := r.cellVal(r.base, c, t)
		switch x := v.(type) {
		case VSlice:
			if x.Obj != nil && isByte(x.Elem) && r.shared[x.Obj] && x.Off.IsConst() && x.Off.C == 0 {
				if a, ok := r.base.heap[cell{x.Obj, x.Path}].(VArr); ok {
					b := cell{x.Obj, x.Path}
					bufs = append(bufs, b)
					sizes[b] = a.N
				}
			}
		case VInt:
			if x.L.IsConst() && x.L.C == 0 && isInteger(t) {
				ints = append(ints, c)
			}
		}
		if at, ok := under(t).(*types.Array); ok && isByte(at.Elem()) {
			bufs = append(bufs, c)
			sizes[c] = K(at.Len())
		}
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i].path < ints[j].path })
	sort.Slice(bufs, func(i, j int) bool { return bufs[i].o.ID < bufs[j].o.ID })
	var out []*window
	for _, b := range bufs {
		for i := range ints {
			out = append(out, &window{r: r, buf: b, n: sizes[b], hi: &ints[i]})
		}
	}
	for _, b := range bufs {
		for i := range ints {
			for j := range ints {
				if i != j {
					out = append(out, &window{r: r, buf: b, n: sizes[b], lo: &ints[j], hi: &ints[i]})
				}
			}
		}
	}
	return out
}

// ---- the reader ---------------------------------------------------------------------

type segm struct {
	kind string // enter, back, out
	what string
	st   *State
}

type reader struct {
	*stream
	w       *window
	segs    []segm
	raw     []Segment
	outs    []Outcome
	wit     map[cell]string // cells that tell that the transport has failed
	problem string
}

const opValidate = "validate"

// readLoop interprets the reader with a window.
func (r *stream) readLoop(w *window) *reader {
	c, in := r.c, r.c.In
	in.Opaque = func(fn *ssa.Function, ps *PS, args []Val) (string, bool) {
		if fn.Name() == "Validate" && fn.Signature.Recv() != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == c.R.Mod && len(args) == 2 {
			return opValidate, true
		}
		return "", false
	}
	in.Tmpl, in.RecordSegs, in.Segs = w, true, nil
	in.Undecided = map[string]string{}
	r.hooks()
	defer func() { in.Tmpl = nil; r.unhook() }()
	st := r.base.Clone()
	st.ghost["rpos"] = K(0)
	w.cut(st, K(0))
	sub := NewCtx(c.R, in, c.Prop, c.Tier)
	fn := r.methods["ReadContext"]
	outs, _ := sub.run(fn, []Val{r.recv, r.ctx}, st)
	rd := &reader{stream: r, w: w, outs: outs}
	for _, o := range sub.Obs {
		if !o.OK {
			rd.problem = o.Detail
		}
	}
	rd.raw = in.Segs
	for _, s := range in.Segs {
		if !s.Tmpl {
			continue
		}
		rd.segs = append(rd.segs, segm{s.Kind, c.short(s.Loop.ID), s.St})
		if ok, why := w.holds(s.St); !ok && rd.problem == "" {
			rd.problem = fmt.Sprintf("at the head of the loop of %s (%s) %s [%s]", c.short(s.Loop.Fn.String()), s.Kind, why, c.short(s.St.pathString()))
		}
	}
	if len(rd.segs) == 0 && rd.problem == "" {
		rd.problem = "no loop of the reader changes it"
	}
	for _, o := range outs {
		if !o.Panic {
			rd.segs = append(rd.segs, segm{"out", "", o.St})
		}
	}
	c.merge(&Ctx{Funcs: sub.Funcs, Paths: sub.Paths, Steps: sub.Steps, Calls: sub.Calls, Forks: sub.Forks})
	rd.witnesses()
	return rd
}

// reader finds the window for which the reader keeps its invariant.
func (r *stream) reader() *reader {
	var best *reader
	n := 0
	for _, w := range r.windows() {
		rd := r.readLoop(w)
		if rd.problem == "" {
			r.c.Notes["window "+w.String()]++
			return rd
		}
		if best == nil || len(rd.segs) > n {
			best, n = rd, len(rd.segs)
		}
	}
	return best
}

// segEvents gives the events since the last cut and the state at the cut.
func segEvents(s *State) ([]*Event, *State) {
	evs := s.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "cut" {
			return evs[i+1:], evs[i].Node
		}
	}
	return evs, nil
}

func failedRead(s *State, evs []*Event) *Event {
	for _, e := range evs {
		if e.Kind == "read" && len(e.Res) == 2 && errClass(s, e.Res[1]) == "err" {
			return e
		}
	}
	return nil
}

// witnesses: error and bool cells that only ever change when a read fails.
func (rd *reader) witnesses() {
	rd.wit = map[cell]string{}
	for c, t := range rd.cells() {
		kind := ""
		switch {
		case isErrorType(t):
			if i, ok := rd.cellVal(rd.base, c, t).(VIface); ok {
				if b, k := isNilVal(i); k && b {
					kind = "error"
				}
			}
		case types.Identical(t.Underlying(), types.Typ[types.Bool]):
			if b, ok := rd.cellVal(rd.base, c, t).(VBool); ok {
				if v, k := rd.base.decide(b.C); k && !v {
					kind = "bool"
				}
			}
		}
		if kind == "" {
			continue
		}
		used := false
		for _, g := range rd.segs {
			if g.kind == "out" {
				continue
			}
			evs, n0 := segEvents(g.st)
			if n0 == nil {
				kind = ""
				break
			}
			v0, v1 := rd.cellVal(n0, c, t), rd.cellVal(g.st, c, t)
			if g.st.valEq(v0, v1) {
				continue
			}
			f := failedRead(g.st, evs)
			if f == nil {
				// nil stays nil although the read did not fail: v1 may be the nil result
				if kind == "error" && errClass(g.st, v0) == "nil" && errClass(g.st, v1) == "nil" {
					continue
				}
				kind = ""
				break
			}
			if kind == "error" {
				if !g.st.valEq(g.st.resolve(f.Res[1]), v1) {
					kind = ""
					break
				}
			}
			used = true
		}
		if kind != "" && used {
			rd.wit[c] = kind
		}
	}
}

// ended: the transport is known to have failed before the segment.
func (rd *reader) ended(s, n0 *State) (bool, []Val) {
	if n0 == nil {
		return false, nil
	}
	var vs []Val
	for c, k := range rd.wit {
		v := rd.cellVal(n0, c, rd.cells()[c])
		switch k {
		case "error":
			if errClass(s, v) == "err" {
				vs = append(vs, v)
			}
		case "bool":
			if b, ok := v.(VBool); ok {
				if t, known := s.decide(b.C); known && t {
					vs = append(vs, nil)
				}
			}
		}
	}
	return len(vs) > 0, vs
}

// candidate is what the bytes at a position are.
type candidate struct {
	name string
	F    Lin // length, 9 if no frame starts here (the end of the shortest frame that can follow)
	st   *State
	none bool
}

// split distinguishes what starts at position p.
func (rd *reader) split(s *State, p Lin) []candidate {
	in := rd.c.In
	b := func(i int64) Lin { return in.U.ByteAt(in.U.Seq(streamSeq), p.AddK(i)) }
	var out []candidate
	if t := s.Clone(); t.pin(b(0).AddK(-0xFE)) {
		out = append(out, candidate{"version 1 candidate", b(1).AddK(8), t, false})
	}
	bit := in.U.FromBits(in.U.BitsOf(b(2), 8)[:1])
	for sig := int64(0); sig <= 1; sig++ {
		if t := s.Clone(); t.pin(b(0).AddK(-0xFD)) && t.assume(Eq0(bit.AddK(-sig))) {
			n := "unsigned version 2 candidate"
			if sig == 1 {
				n = "signed version 2 candidate"
			}
			out = append(out, candidate{n, b(1).AddK(12 + 13*sig), t, false})
		}
	}
	if t := s.Clone(); t.addNe(b(0).AddK(-0xFE)) && t.addNe(b(0).AddK(-0xFD)) {
		out = append(out, candidate{"no start byte", K(9), t, true})
	}
	return out
}

type attempt struct {
	e      *Event
	i      int // index in the segment
	val    Val
	ct     Content
	chosen bool
}

func (rd *stream) attempts(evs []*Event) []attempt {
	var out []attempt
	isOut := func(v Val) bool { c, ok := v.(VChan); return ok && c.Key == rd.out }
	for i, e := range evs {
		switch e.Kind {
		case "send":
			if isOut(e.Recv) {
				out = append(out, attempt{e, i, e.Args[0], e.Snap[0], true})
			}
		case "select":
			for k, cs := range e.Cases {
				if cs.Send && isOut(cs.Ch) {
					out = append(out, attempt{e, i, cs.Val, e.Snap[k], e.Case == k})
				}
			}
		}
	}
	return out
}

// chose: a receive from the channel succeeded in the events.
func (r *stream) chose(evs []*Event, key string) bool {
	for _, e := range evs {
		switch e.Kind {
		case "select":
			if e.Case >= 0 && e.Case < len(e.Cases) && !e.Cases[e.Case].Send {
				if c, ok := e.Cases[e.Case].Ch.(VChan); ok && c.Key == key {
					return true
				}
			}
		case "recv":
			if c, ok := e.Recv.(VChan); ok && c.Key == key {
				return true
			}
		}
	}
	return false
}

// sawErr: the context was asked and is done.
func (r *stream) sawErr(s *State, evs []*Event) bool {
	for _, e := range evs {
		if e.Kind == "ctxerr" && "done("+valKey(e.Recv)+")" == r.done() && errClass(s, e.Res[0]) == "err" {
			return true
		}
	}
	return false
}

func (r *stream) done() string { return "done(" + valKey(r.ctx) + ")" }

// frameBytes: the bytes behind a frame value.
func frameSlice(s *State, v Val) (VSlice, bool) {
	x := s.resolve(v)
	if i, ok := x.(VIface); ok && i.Dyn != nil {
		x = i.V
	}
	sl, ok := x.(VSlice)
	return sl, ok && sl.Obj != nil
}

// whole: content (of a slice of length n) is exactly the F bytes at p.
func (rd *reader) whole(s *State, ct Content, n, p, F Lin) bool {
	want := Content{SrcSeg(rd.c.In.U.Seq(streamSeq), p, F)}
	return s.proveEq(n, F) && s.contentEq(ct, want, F)
}

// noStart: more than zero bytes were consumed, and those from lo to hi are no
// start bytes.
func (rd *reader) noStart(s *State, lo, hi Lin) bool {
	q := rd.c.In.U.Seq(streamSeq)
	return s.proveGe(hi, lo) && s.rangeFact(q, lo, hi, false, 0xFE) && s.rangeFact(q, lo, hi, false, 0xFD)
}

func (rd *reader) segPos(evs []*Event) string {
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Pos.IsValid() {
			return rd.c.In.pos(evs[i].Pos)
		}
	}
	return rd.c.pos(rd.methods["ReadContext"])
}

func (rd *reader) check() {
	c := rd.c
	where := rd.ctor + " ReadContext"
	pos := c.pos(rd.methods["ReadContext"])
	if !c.ob(rd.problem == "", "the reader keeps exactly the received and not yet consumed bytes", where, pos, "with the window %s: %s", rd.w, rd.problem) {
		return
	}
	c.noPanic("reading never panics", where, rd.outs)
	if c.Notes["segments"] == 0 {
		c.note("segments", len(rd.segs))
	}
	for _, g := range rd.segs {
		rd.segment(g)
	}
}

func (rd *reader) segment(g segm) {
	c, s := rd.c, g.st
	evs, n0 := segEvents(s)
	if !c.ob(n0 != nil, "analysable", rd.ctor+" ReadContext", "", "a stretch of the reader without a start") {
		return
	}
	where := rd.ctor + " ReadContext"
	pos := rd.segPos(evs)
	p0 := n0.ghost["p0"]
	p1, okP := rd.w.Pos(s)
	if !okP {
		return
	}
	cons := p1.Sub(p0)
	atts := rd.attempts(evs)
	wasEnded, _ := rd.ended(s, n0)
	fr := failedRead(s, evs)
	stopped := rd.chose(evs, rd.done()) || rd.chose(evs, rd.closed) || rd.sawErr(s, evs)

	// reading after a failure
	failed := wasEnded
	for _, e := range evs {
		if e.Kind != "read" {
			continue
		}
		rd.ob("C18", !failed, "the reader does not go on reading after a failure", where, c.In.pos(e.Pos), "the transport is read again after it failed [%s]", c.short(s.pathString()))
		if errClass(s, e.Res[1]) == "err" {
			failed = true
		}
	}
	// bytes asked for
	for _, e := range evs {
		if e.Kind != "read" {
			continue
		}
		pe := e.L[4]
		av := e.L[3].Sub(pe)
		for _, cd := range rd.split(s, pe) {
			rd.ob("C21", cd.st.prove(cd.F.Sub(e.L[0]).Sub(av)), "a read asks for no byte beyond the end of the candidate", where+", "+cd.name, c.In.pos(e.Pos), "holding %s bytes of a %s of %s bytes, %s more are required [%s]", av, cd.name, cd.F, e.L[0], c.short(cd.st.pathString()))
			rd.ob("C21", cd.st.prove(cd.F.Sub(av).AddK(-1)), "the reader reads only when the bytes it holds do not settle the candidate", where+", "+cd.name, c.In.pos(e.Pos), "the transport is read although %s bytes of a %s of %s bytes are there [%s]", av, cd.name, cd.F, c.short(cd.st.pathString()))
		}
	}
	for _, cd := range rd.split(s, p0) {
		t := cd.st
		say := func(prop string, ok bool, rule, f string, a ...interface{}) bool {
			return rd.ob(prop, ok, rule, where+", "+cd.name, pos, f+" (%s) [%s]", append(a, g.kind, c.short(t.pathString()))...)
		}
		avail := c.In.readPos(t).Sub(p0)
		// what validation said about this candidate
		accepted, rejected := false, false
		for _, e := range evs {
			if e.Kind != "call" || e.Name != opValidate {
				continue
			}
			sl, isS := frameSlice(t, e.Args[1])
			match := !cd.none && isS && t.proveGe(sl.Len, cd.F) && t.contentEq(t.cut(e.Snap[1], K(0), cd.F), Content{SrcSeg(c.In.U.Seq(streamSeq), p0, cd.F)}, cd.F)
			say("C04", match, "the frames the reader makes are complete", "a frame is looked at whose bytes (%s) are not those of a complete candidate (%s bytes)", e.Snap[1], cd.F)
			good := say("C01", match, "what is validated is the complete candidate", "the bytes validated (%s) are not those of the candidate (%s bytes)", e.Snap[1], cd.F)
			say("C01", t.proveGe(avail, cd.F), "what is validated is the complete candidate", "a candidate of %s bytes is validated when %s bytes are there", cd.F, avail)
			typeOK := false
			if i, ok := t.resolve(e.Args[1]).(VIface); ok && i.Dyn != nil {
				want := "FrameV2"
				if cd.name == "version 1 candidate" {
					want = "FrameV1"
				}
				typeOK = types.Identical(i.Dyn, c.R.typ(c.R.Mod, want))
			}
			say("C01", typeOK, "a candidate is validated as a frame of its version", "it is validated as %s", valString(e.Args[1]))
			if !good {
				continue
			}
			switch errClass(t, e.Res[0]) {
			case "nil":
				accepted = true
			case "err":
				rejected = true
			}
		}
		retInv, retKnown := false, false
		if b, ok := rd.retInv.(VBool); ok {
			retInv, retKnown = t.decide(b.C)
		}
		// deliveries
		for _, a := range atts {
			say("C01", !cd.none && (accepted || rejected && retKnown && retInv), "only an accepted frame is delivered, or a rejected one if asked for", "a frame is offered that was not accepted (rejected: %v, invalid frames wanted: %v)", rejected, retKnown && retInv)
			sl, isS := frameSlice(t, a.val)
			exact := !cd.none && isS && rd.whole(t, a.ct, sl.Len, p0, cd.F)
			say("C03", exact, "a delivered frame has exactly its bytes", "the frame offered is %s", valString(a.val))
			say("C04", !cd.none && isS && t.proveGe(sl.Len, cd.F) && t.contentEq(t.cut(a.ct, K(0), cd.F), Content{SrcSeg(c.In.U.Seq(streamSeq), p0, cd.F)}, cd.F), "the frames the reader makes are complete", "a frame is offered that is not a complete candidate (%s bytes)", cd.F)
			if !isS {
				continue
			}
			say("C03", sl.Obj.Kind == OAlloc && !sl.Obj.Shared && int64(sl.Obj.ID) > n0.ghost["nobj"].C, "a delivered frame is fresh memory", "the frame offered is in the memory %s", sl.Obj.Name)
			say("C03", t.contentEq(t.sliceBytes(sl), a.ct, sl.Len), "a delivered frame is not touched any more", "after it was offered the frame becomes %s", t.sliceBytes(sl))
			held := ""
			for cl, v := range t.heap {
				if rd.shared[cl.o] && mentions(v, sl.Obj) {
					held = cl.o.Name + cl.path
				}
			}
			say("C03", held == "", "the stream keeps no reference to a delivered frame", "%s refers to it", held)
			typ := ""
			if i, ok := t.resolve(a.val).(VIface); ok && i.Dyn != nil {
				typ = i.Dyn.String()
			}
			want := "FrameV2"
			if cd.name == "version 1 candidate" {
				want = "FrameV1"
			}
			say("C03", strings.HasSuffix(typ, "."+want), "a delivered frame has the type of its version", "it is a %s", typ)
		}
		if len(atts) > 1 {
			say("C20", false, "a frame is offered once", "it is offered %d times", len(atts))
		}
		if rd.c.Prop == "C35" {
			rd.reports(t, cd, p0, evs, func(ok bool, rule, f string, a ...interface{}) bool { return say("C35", ok, rule, f, a...) })
		}
		// logging
		lognil, logKnown := false, false
		if l, ok := rd.logger.(VIface); ok {
			lognil, logKnown = isNilVal(t.resolve(l).(VIface))
			if !logKnown && errClass(t, l) == "err" {
				lognil, logKnown = false, true
			}
		}
		nlog := 0
		for i, e := range evs {
			if e.Kind != "logread" {
				if e.Kind == "logwritten" {
					say("C20", false, "only frames read are logged as read", "LogWritten is called by the reader")
				}
				continue
			}
			nlog++
			say("C20", !cd.none && (accepted || rejected && retKnown && retInv), "only frames that are delivered are logged as read", "a frame is logged that is not delivered")
			sl, isS := frameSlice(t, e.Args[0])
			say("C20", !cd.none && isS && rd.whole(t, e.Snap[0], sl.Len, p0, cd.F), "what is logged is exactly the frame's bytes", "logged is %s", valString(e.Args[0]))
			if isS {
				say("C03", sl.Obj.Kind == OAlloc && !sl.Obj.Shared && int64(sl.Obj.ID) > n0.ghost["nobj"].C, "a logged frame is memory of its own", "the bytes logged are in the memory %s", sl.Obj.Name)
				say("C03", t.contentEq(t.sliceBytes(sl), e.Snap[0], sl.Len), "a logged frame is not touched any more", "after it was logged the frame becomes %s", t.sliceBytes(sl))
			}
			for _, a := range atts {
				say("C20", i < a.i, "a frame is logged before it is offered", "it is logged afterwards")
			}
		}
		say("C20", nlog <= 1, "a frame is logged once", "it is logged %d times", nlog)
		deliver := accepted || rejected && retKnown && retInv
		if len(atts) > 0 && logKnown {
			say("C20", lognil == (nlog == 0), "every frame offered is logged if there is a logger", "it is logged %d times", nlog)
		} else if len(atts) > 0 {
			say("C20", false, "every frame offered is logged if there is a logger", "whether there is a logger is not looked at")
		}
		if deliver && !stopped {
			say("C20", len(atts) == 1, "every frame the reader accepts is offered", "it is not offered")
		}
		if rejected && !retKnown {
			say("C01", false, "only an accepted frame is delivered, or a rejected one if asked for", "whether invalid frames are wanted is not looked at")
		}
		if rejected && retKnown && !retInv {
			say("C01", len(atts) == 0, "only an accepted frame is delivered, or a rejected one if asked for", "a rejected frame is offered")
		}
		// consumption
		switch {
		case t.proveEq(cons, K(0)):
			if g.kind != "out" {
				say("C02", !deliver, "a delivered frame is consumed", "it stays in the window")
				say("C02", !rejected, "a rejected candidate is skipped", "it stays in the window")
				if g.kind == "back" {
					moved := false
					for _, e := range evs {
						moved = moved || e.Kind == "read"
					}
					say("C02", moved || stopped, "the reader makes progress", "nothing is read and nothing consumed")
				}
			}
		case t.proveEq(cons, K(1)) || !(!cd.none && t.proveEq(cons, cd.F)) && rd.noStart(t, p0.AddK(1), p1):
			// the bytes that follow, if any, are no start bytes
			say("C02", t.proveGe(avail, cons), "only received bytes are consumed", "a byte is consumed that was not received")
			ok := cd.none || rejected && !accepted || (wasEnded || fr != nil) && t.prove(cd.F.Sub(avail).AddK(-1)) && len(atts) == 0
			say("C02", ok, "a byte is skipped only if no valid frame starts there", "a byte is skipped (rejected: %v, accepted: %v, stream ended: %v, %s of %s bytes)", rejected, accepted, wasEnded || fr != nil, avail, cd.F)
		case !cd.none && t.proveEq(cons, cd.F):
			say("C02", accepted, "only an accepted frame is consumed as a whole", "the candidate is consumed as a whole (rejected: %v)", rejected)
			say("C02", t.proveGe(avail, cd.F), "only received bytes are consumed", "%s bytes are consumed, %s are there", cd.F, avail)
		case g.kind == "out" && (wasEnded || fr != nil) && len(atts) == 0 && t.prove(K(7).Sub(avail)):
			// the rest of a stream that has ended, too short for a frame
		default:
			say("C02", false, "exactly the delivered frame or one byte is consumed", "%s bytes are consumed", cons)
		}
		// the end
		if g.kind == "out" {
			left := c.In.readPos(t).Sub(p1)
			if !stopped {
				say("C02", (wasEnded || fr != nil) && t.prove(K(7).Sub(left)), "the reader ends only when no complete frame can be left", "the reader ends (transport failed: %v) with %s bytes left", wasEnded || fr != nil, left)
			}
		}
	}
}

// mentions: v refers to memory of o.
func mentions(v Val, o *Obj) bool {
	switch x := v.(type) {
	case VPtr:
		return x.Obj == o
	case VSlice:
		return x.Obj == o
	case VMap:
		return x.Obj == o
	case VIface:
		return x.Dyn != nil && mentions(x.V, o)
	case VStruct:
		for _, f := range x.F {
			if mentions(f, o) {
				return true
			}
		}
	case VFunc:
		for _, f := range x.Bind {
			if mentions(f, o) {
				return true
			}
		}
	case VTuple:
		for _, f := range x.E {
			if mentions(f, o) {
				return true
			}
		}
	case *MapVal:
		for i := range x.K {
			if mentions(x.K[i], o) || mentions(x.V[i], o) {
				return true
			}
		}
	}
	return false
}

var streamCtors = []string{"NewFrameStreamWithLogger", "NewFrameStream"}

func (c *Ctx) readerRules() {
	for _, k := range streamCtors {
		r := c.newStream(k)
		if r == nil {
			continue
		}
		rd := r.reader()
		if !c.ob(rd != nil, "the reader keeps exactly the received and not yet consumed bytes", k+" ReadContext", c.pos(r.methods["ReadContext"]), "the stream has no buffer and counter") {
			continue
		}
		rd.check()
	}
}

func propReader(c *Ctx) { c.readerRules() }
