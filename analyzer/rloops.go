package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the two loops of a stream and about closing it. Every method is
// interpreted as a thread of its own. An observer notes along each path (and
// across loop heads) what the loop has been told: that the context is done,
// the stream closed, the input channel closed, a transport operation failed.

type thread struct {
	r     *stream
	name  string
	fn    *ssa.Function
	multi bool // several of these may run at once
	outs  []Outcome
	segs  []Segment
	rd    *reader
	err   string
}

// watch installs the observer.
func (r *stream) watch() {
	in := r.c.In
	errT := errIface
	boolT := types.Typ[types.Bool]
	f := func(n string, t types.Type) *types.Var { return types.NewField(token.NoPos, nil, n, t, false) }
	r.ghost = in.newObj(OAlloc, "observer", types.NewStruct([]*types.Var{f("done", boolT), f("closed", boolT), f("chosen", boolT), f("inclosed", boolT), f("werr", errT), f("rerr", errT)}, nil), nil)
	for _, n := range []string{"done", "closed", "chosen", "inclosed"} {
		r.base.heap[cell{r.ghost, "." + n}] = VBool{CFalse()}
	}
	for _, n := range []string{"werr", "rerr"} {
		r.base.heap[cell{r.ghost, "." + n}] = VIface{Typ: errT}
	}
}

func (r *stream) told(st *State, n string) bool {
	switch x := st.heap[cell{r.ghost, "." + n}].(type) {
	case VBool:
		v, k := st.decide(x.C)
		return k && v
	case VIface:
		return errClass(st, x) == "err"
	}
	return false
}

func (r *stream) observe(st *State, e *Event) {
	var known []string
	for _, n := range []string{"done", "closed", "chosen", "inclosed", "werr", "rerr"} {
		if r.told(st, n) {
			known = append(known, n)
		}
	}
	e.After = strings.Join(known, ",")
	set := func(n string, v Val) { st.heap[cell{r.ghost, "." + n}] = v }
	got := func(ch Val, ok Val) {
		c, isC := ch.(VChan)
		if !isC {
			return
		}
		switch c.Key {
		case r.done():
			set("done", VBool{CTrue()})
		case r.closed:
			set("closed", VBool{CTrue()})
			set("chosen", VBool{CTrue()})
		case r.in:
			if b, isB := ok.(VBool); isB {
				set("inclosed", VBool{b.C.Not()})
			}
		}
	}
	switch e.Kind {
	case "select":
		if e.Case >= 0 && e.Case < len(e.Cases) && !e.Cases[e.Case].Send {
			got(e.Cases[e.Case].Ch, e.Res[1])
		}
	case "recv":
		got(e.Recv, e.Res[1])
	case "ctxerr":
		if "done("+valKey(e.Recv)+")" == r.done() && errClass(st, e.Res[0]) == "err" {
			set("done", VBool{CTrue()})
		}
	case "once":
		set("closed", VBool{CTrue()})
	case "twrite":
		if len(e.Res) == 2 {
			set("werr", e.Res[1])
		}
	case "read":
		if len(e.Res) == 2 {
			set("rerr", e.Res[1])
		}
	}
}

func after(e *Event, what ...string) bool {
	for _, k := range strings.Split(e.After, ",") {
		for _, w := range what {
			if k == w {
				return true
			}
		}
	}
	return false
}

// volatileCells: what the given threads store.
func (r *stream) stored(ts ...*thread) map[cell]bool {
	m := map[cell]bool{}
	for _, t := range ts {
		for _, e := range t.events() {
			switch e.Kind {
			case "store":
				if r.shared[e.Obj] {
					m[cell{e.Obj, e.Path}] = true
				}
			case "mapupdate", "mapdelete":
				if r.shared[e.Obj] {
					m[cell{e.Obj, "#map"}] = true
				}
			}
		}
	}
	return m
}

func (t *thread) states() []*State {
	var out []*State
	for _, s := range t.segs {
		out = append(out, s.St)
	}
	for _, o := range t.outs {
		out = append(out, o.St)
	}
	return out
}

// events gives every event of every path once.
func (t *thread) events() []*Event {
	seen := map[*EvNode]bool{}
	var out []*Event
	for _, s := range t.states() {
		for n := s.ev; n != nil && !seen[n]; n = n.Prev {
			seen[n] = true
			out = append(out, n.E)
		}
	}
	return out
}

func (r *stream) hooks() {
	in := r.c.In
	vol := r.vol
	in.Volatile = func(o *Obj, path string) bool { return vol[cell{o, path}] }
	in.OnEvent = r.observe
}

func (r *stream) unhook() {
	in := r.c.In
	in.Volatile, in.OnEvent, in.RecordSegs, in.Opaque = nil, nil, false, nil
}

// thread interprets a method on its own.
func (r *stream) thread(m string) *thread {
	c, in := r.c, r.c.In
	t := &thread{r: r, name: m, fn: r.methods[m], multi: m != "ReadContext" && m != "WriteContext"}
	if m == "ReadContext" {
		rd := r.reader()
		if rd == nil {
			t.err = "the stream has no buffer and counter"
			return t
		}
		t.rd, t.outs, t.segs, t.err = rd, rd.outs, rd.raw, rd.problem
		return t
	}
	r.hooks()
	in.RecordSegs, in.Segs, in.Undecided = true, nil, map[string]string{}
	defer r.unhook()
	args := []Val{r.recv}
	if len(t.fn.Params) == 2 {
		args = append(args, r.ctx)
	}
	sub := NewCtx(c.R, in, c.Prop, c.Tier)
	t.outs, _ = sub.run(t.fn, args, r.base.Clone())
	for _, o := range sub.Obs {
		if !o.OK {
			t.err = o.Detail
		}
	}
	t.segs = in.Segs
	c.merge(&Ctx{Funcs: sub.Funcs, Paths: sub.Paths, Steps: sub.Steps, Calls: sub.Calls, Forks: sub.Forks})
	return t
}

// threads interprets all methods, each with what the others may store unknown.
func (r *stream) threads() map[string]*thread {
	m := map[string]*thread{}
	for _, n := range streamMethods {
		if n != "ReadContext" {
			m[n] = r.thread(n)
		}
	}
	m["ReadContext"] = r.thread("ReadContext")
	w := r.stored(m["ReadContext"], m["Close"])
	save := r.vol
	r.vol = w
	m["WriteContext"] = r.thread("WriteContext")
	r.vol = save
	for _, n := range streamMethods {
		t := m[n]
		r.c.ob(t.err == "", "the method is analysable as a thread", r.ctor+" "+n, r.c.pos(t.fn), "%s", t.err)
	}
	return m
}

// causeCell: where the cause of closing is kept.
func (r *stream) causeCell() (cell, bool) {
	c := r.c
	for cl, t := range r.cells() {
		if !isErrorType(t) {
			continue
		}
		st := r.base.Clone()
		mark := VIface{Atom: "cause", Typ: t}
		st.setIf("cause", func(f *ifFact) { f.ne["nil"] = true })
		st.heap[cl] = mark
		outs, ok := c.run(r.methods["GetCloseErr"], []Val{r.recv}, st)
		if !ok {
			return cell{}, false
		}
		all := len(outs) > 0
		for _, o := range outs {
			all = all && !o.Panic && len(o.Rets) == 1 && o.St.valEq(o.St.resolve(o.Rets[0]), mark)
		}
		if all {
			return cl, true
		}
	}
	return cell{}, false
}

type onceRun struct {
	key  string
	evs  []*Event // of the body
	st   *State
	head *Event
	i    int
}

// bodies: the runs of once bodies on a path.
func bodies(s *State) []onceRun {
	var out []onceRun
	evs := s.Events()
	for i, e := range evs {
		if e.Kind != "once" || e.Case != 1 {
			continue
		}
		b := onceRun{key: e.Name, st: s, head: e, i: i}
		for _, x := range evs[i+1:] {
			if x.Kind == "onceend" && x.Name == e.Name {
				break
			}
			b.evs = append(b.evs, x)
		}
		out = append(out, b)
	}
	return out
}

func chanKey(v Val) string {
	c, _ := v.(VChan)
	return c.Key
}

func hasCase(e *Event, key string) bool {
	for _, cs := range e.Cases {
		if !cs.Send && chanKey(cs.Ch) == key {
			return true
		}
	}
	return false
}

func plainLocks(e *Event) []string {
	var out []string
	for _, l := range e.Locks {
		if !strings.HasPrefix(l, "once:") {
			out = append(out, l)
		}
	}
	return out
}

func bare(l string) string { return strings.TrimPrefix(l, "R:") }

// ---- C18 ----------------------------------------------------------------------

func (r *stream) stopRules(t *thread, cause cell) {
	c := r.c
	where := r.ctor + " " + t.name
	at := func(e *Event) string { return c.In.pos(e.Pos) }
	for _, e := range t.events() {
		w := where + " " + at(e)
		switch e.Kind {
		case "select":
			if e.Block && !after(e, "closed") {
				c.ob(hasCase(e, r.done()), "no wait goes on when the context is done", w, at(e), "the select has no case for the context being done")
				c.ob(hasCase(e, r.closed), "no wait goes on when the stream is closed", w, at(e), "the select has no case for the stream being closed")
			}
		case "send", "recv":
			if !(e.Kind == "recv" && (chanKey(e.Recv) == r.closed && after(e, "closed") || chanKey(e.Recv) == r.done() && after(e, "done"))) {
				c.ob(false, "no wait goes on when the context is done", w, at(e), "a %s without alternative can wait forever", e.Kind)
			}
		case "read":
			c.ob(!after(e, "rerr"), "the loop does not go on after a failure", w, at(e), "the transport is read again after it failed")
		case "twrite":
			c.ob(!after(e, "werr"), "the loop does not go on after a failure", w, at(e), "the transport is written to after it failed")
		}
	}
	for _, g := range t.segs {
		if g.Kind != "back" {
			continue
		}
		evs := g.St.Events()
		var head *Event
		for i := len(evs) - 1; i >= 0; i-- {
			if evs[i].Kind == "loop" && evs[i].Name == g.Loop.ID {
				head = evs[i]
				break
			}
		}
		if head == nil {
			continue
		}
		c.ob(!after(head, "done", "closed", "inclosed", "werr"), "a loop that is told to stop ends", where+" "+c.short(g.Loop.ID), c.pos(t.fn), "after %s the loop goes on [%s]", head.After, c.short(g.St.pathString()))
	}
	ctxErr := VIface{Atom: "ctxerr(" + valKey(r.ctx) + ")", Typ: errIface}
	closedErr := c.sentinel("ErrWriteChannelClosed")
	for _, o := range t.outs {
		s := o.St
		if o.Panic {
			c.ob(false, "the loop does not panic", where, c.pos(t.fn), "it panics: %s", panicString(s))
			continue
		}
		if !c.ob(r.told(s, "closed"), "the stream is closed when the loop returns", where, r.lastPos(s, t.fn), "the loop returns without closing the stream [%s]", c.short(s.pathString())) {
			continue
		}
		for _, b := range bodies(s) {
			if after(b.head, "chosen") || after(b.head, "closed") {
				continue // the body has run already
			}
			var v Val
			pos := at(b.head)
			for _, e := range b.evs {
				if e.Kind == "store" && (cell{e.Obj, e.Path}) == cause {
					v, pos = e.Args[0], at(e)
				}
			}
			if !c.ob(v != nil, "the loop closes the stream with the right cause", where, pos, "no cause is recorded") {
				continue
			}
			v = s.resolve(v)
			var why []string
			ok := false
			add := func(n string, w Val) {
				why = append(why, n)
				ok = ok || s.valEq(v, s.resolve(w))
			}
			if r.told(s, "done") || errClass(s, ctxErr) == "err" {
				add("the context is done", ctxErr)
			}
			if after(b.head, "inclosed") {
				add("the write channel is closed", closedErr)
			}
			for _, e := range s.Events() {
				if (e.Kind == "twrite" || e.Kind == "read") && len(e.Res) == 2 && errClass(s, e.Res[1]) == "err" {
					add("the transport failed", e.Res[1])
				}
			}
			if t.rd != nil {
				_, n0 := segEvents(s)
				_, vs := t.rd.ended(s, n0)
				for _, x := range vs {
					if x != nil {
						add("the transport had failed", x)
					}
				}
			}
			c.ob(ok, "the loop closes the stream with the right cause", where+" "+strings.Join(dedup(why), ", "), r.lastPos(s, t.fn), "it is closed with %s when %s [%s]", valString(v), strings.Join(dedup(why), " and "), c.short(s.pathString()))
		}
	}
}

func dedup(l []string) []string {
	var out []string
	for _, s := range l {
		if len(out) == 0 || out[len(out)-1] != s {
			out = append(out, s)
		}
	}
	return out
}

func panicString(s *State) string {
	if s.panicV != nil {
		return s.panicV.Msg
	}
	return "unknown"
}

// lastPos: the last event before closing.
func (r *stream) lastPos(s *State, fn *ssa.Function) string {
	evs := s.Events()
	p := r.c.pos(fn)
	for _, e := range evs {
		if e.Kind == "once" {
			for i := len(e.Stack) - 1; i >= 0; i-- {
				return e.Stack[i]
			}
			return p
		}
		if e.Pos.IsValid() {
			p = r.c.In.pos(e.Pos)
		}
	}
	return p
}

// ---- C19 ----------------------------------------------------------------------

// takes: the event takes a frame from the input channel.
func (r *stream) takes(e *Event) (Val, Val, bool) {
	switch e.Kind {
	case "select":
		if e.Case >= 0 && e.Case < len(e.Cases) && !e.Cases[e.Case].Send && chanKey(e.Cases[e.Case].Ch) == r.in {
			return e.Res[0], e.Res[1], true
		}
	case "recv":
		if chanKey(e.Recv) == r.in {
			return e.Res[0], e.Res[1], true
		}
	}
	return nil, nil, false
}

func (r *stream) writerRules(t *thread) {
	c := r.c
	where := r.ctor + " " + t.name
	// the loops around taking frames
	taking := map[string]bool{}
	for _, g := range t.segs {
		if g.Kind != "back" {
			continue
		}
		evs := g.St.Events()
		for i := len(evs) - 1; i >= 0 && !(evs[i].Kind == "loop" && evs[i].Name == g.Loop.ID); i-- {
			if _, _, ok := r.takes(evs[i]); ok {
				taking[g.Loop.ID] = true
			}
		}
	}
	if !c.ob(len(taking) > 0, "the writer takes frames in a loop", where, c.pos(t.fn), "no loop of the writer takes frames from the input channel") {
		return
	}
	stretch := func(s *State, kind string) {
		evs := s.Events()
		from := 0
		for i, e := range evs {
			if e.Kind == "loop" && taking[e.Name] {
				from = i + 1
			}
		}
		r.written(t, where, s, evs[from:], kind)
	}
	for _, g := range t.segs {
		if taking[g.Loop.ID] {
			stretch(g.St, g.Kind)
		}
	}
	for _, o := range t.outs {
		if !o.Panic {
			stretch(o.St, "out")
		}
	}
}

func (r *stream) written(t *thread, where string, s *State, evs []*Event, kind string) {
	c := r.c
	at := func(e *Event) string { return c.In.pos(e.Pos) }
	say := func(ok bool, rule string, e *Event, f string, a ...interface{}) bool {
		pos := c.pos(t.fn)
		if e != nil {
			pos = at(e)
		}
		return c.ob(ok, rule, where, pos, f+" [%s]", append(a, c.short(s.pathString()))...)
	}
	type take struct {
		e      *Event
		v      Val
		writes []*Event
		logs   []*Event
	}
	var ts []*take
	stray := func(e *Event) {
		say(false, "only frames taken from the input are written", e, "%s without a frame", e.Kind)
	}
	for _, e := range evs {
		if v, ok, is := r.takes(e); is {
			b, isB := ok.(VBool)
			known, open := false, false
			if isB {
				open, known = s.decide(b.C)
			}
			if say(known, "the writer distinguishes a frame from the closing of the input", e, "whether the input channel is closed is not looked at") && open {
				ts = append(ts, &take{e: e, v: v})
			}
			continue
		}
		switch e.Kind {
		case "twrite":
			if len(ts) == 0 {
				stray(e)
				continue
			}
			k := ts[len(ts)-1]
			k.writes = append(k.writes, e)
		case "logwritten":
			if len(ts) == 0 {
				stray(e)
				continue
			}
			k := ts[len(ts)-1]
			k.logs = append(k.logs, e)
			say(len(k.writes) > 0, "a frame is logged as written after its write", e, "it is logged before it is written")
		case "logread":
			say(false, "a frame is logged as written after its write", e, "LogRead is called by the writer")
		case "go":
			say(false, "every frame is written once, in order", e, "the writer starts a goroutine")
		}
	}
	lognil, logKnown := false, false
	if l, ok := r.logger.(VIface); ok {
		lognil, logKnown = isNilVal(s.resolve(l).(VIface))
		if !logKnown && errClass(s, l) == "err" {
			lognil, logKnown = false, true
		}
	}
	for _, k := range ts {
		if !say(len(k.writes) == 1, "every frame is written once, in order", k.e, "it is written %d times", len(k.writes)) {
			continue
		}
		w := k.writes[0]
		say(s.valEq(s.resolve(w.Recv), r.rwc), "frames are written to the transport", w, "they are written to %s", valString(w.Recv))
		say(r.isFrame(s, k.v, w), "a frame is written with all its bytes", w, "written is %s of %s", valString(w.Args[0]), valString(k.v))
		switch errClass(s, w.Res[1]) {
		case "err":
			say(len(k.logs) == 0, "a frame whose write failed is not logged", w, "it is logged")
		case "nil":
			if !say(logKnown, "every frame written is logged if there is a logger", w, "whether there is a logger is not looked at") {
				continue
			}
			if !say((len(k.logs) == 1) == !lognil && len(k.logs) <= 1, "every frame written is logged if there is a logger", w, "it is logged %d times (logger: %v)", len(k.logs), !lognil) {
				continue
			}
			for _, l := range k.logs {
				say(r.isFrame(s, k.v, l), "what is logged is exactly what was written", l, "logged is %s", valString(l.Args[0]))
				say(s.valEq(s.resolve(l.Recv), s.resolve(r.logger)), "what is logged is exactly what was written", l, "it is logged to %s", valString(l.Recv))
			}
			say(kind != "out", "the writer goes on after a frame was written", w, "it ends")
		default:
			say(false, "the writer looks at the result of a write", w, "the error is not looked at")
		}
	}
}

// isFrame: the event's first argument is all bytes of the frame.
func (r *stream) isFrame(s *State, frame Val, e *Event) bool {
	i, ok := s.resolve(frame).(VIface)
	sl, ok2 := e.Args[0].(VSlice)
	if !ok || !ok2 || i.Atom == "" || sl.Obj == nil {
		return false
	}
	st := r.base.Clone()
	want, ok := r.c.In.symVal(st, i.Atom+".Bytes()", sliceOfBytes).(VSlice)
	if !ok || !s.proveEq(sl.Len, want.Len) {
		return false
	}
	ct := st.sliceBytes(want)
	return s.contentEq(e.Snap[0], ct, want.Len)
}

var sliceOfBytes = types.NewSlice(types.Typ[types.Byte])

func (c *Ctx) eachStream(f func(r *stream)) {
	for _, k := range streamCtors {
		if r := c.newStream(k); r != nil {
			f(r)
		}
	}
}

func propC18(c *Ctx) {
	c.eachStream(func(r *stream) {
		cause, ok := r.causeCell()
		if !c.ob(ok, "the cause of closing can be read", r.ctor+" GetCloseErr", c.pos(r.methods["GetCloseErr"]), "GetCloseErr gives no stored error") {
			return
		}
		m := r.threads()
		for _, n := range []string{"ReadContext", "WriteContext"} {
			if m[n].err == "" {
				r.stopRules(m[n], cause)
			}
		}
		if rd := m["ReadContext"].rd; rd != nil && rd.problem == "" {
			rd.check()
		}
	})
}

func propC19(c *Ctx) {
	c.eachStream(func(r *stream) {
		m := r.threads()
		if m["WriteContext"].err == "" {
			r.writerRules(m["WriteContext"])
		}
		for _, n := range streamMethods {
			if n == "WriteContext" {
				continue
			}
			bad := ""
			var p token.Pos
			for _, e := range m[n].events() {
				if e.Kind == "twrite" || e.Kind == "logwritten" {
					bad, p = e.Kind, e.Pos
				}
				if _, _, ok := r.takes(e); ok {
					bad, p = "taking a frame", e.Pos
				}
			}
			pos := c.pos(m[n].fn)
			if bad != "" {
				pos = c.In.pos(p)
			}
			c.ob(bad == "", "only the writer takes, writes and logs frames", r.ctor+" "+n, pos, "%s", bad)
		}
	})
}

// ---- C17 ----------------------------------------------------------------------

func propC17(c *Ctx) {
	c.eachStream(func(r *stream) {
		cause, ok := r.causeCell()
		if !c.ob(ok, "the cause of closing can be read", r.ctor+" GetCloseErr", c.pos(r.methods["GetCloseErr"]), "GetCloseErr gives no stored error") {
			return
		}
		r.closeRules(r.threads(), cause)
	})
}

func (r *stream) closeRules(m map[string]*thread, cause cell) {
	c := r.c
	at := func(e *Event) string { return c.In.pos(e.Pos) }
	names := streamMethods
	inOnce := func(e *Event) string {
		for _, l := range e.Locks {
			if strings.HasPrefix(l, "once:") {
				return l
			}
		}
		return ""
	}
	// the once objects under which the channels are closed
	keys := map[string]bool{}
	for _, n := range names {
		for _, e := range m[n].events() {
			where := r.ctor + " " + n + " " + at(e)
			switch e.Kind {
			case "close":
				k := chanKey(e.Recv)
				if !c.ob(k == r.out || k == r.closed, "only the stream's own channels are closed", where, at(e), "%s is closed", valString(e.Recv)) {
					continue
				}
				if c.ob(inOnce(e) != "", "a channel is closed only by the code that runs once", where, at(e), "it can be closed more than once") {
					keys[inOnce(e)] = true
				}
			case "tclose":
				c.ob(inOnce(e) != "", "the transport is closed only by the code that runs once", where, at(e), "it can be closed more than once")
			case "store":
				if (cell{e.Obj, e.Path}) == cause {
					c.ob(inOnce(e) != "", "the cause is recorded only by the code that runs once", where, at(e), "it can be replaced")
				}
				if !r.shared[e.Obj] {
					continue
				}
				ct := r.cells()[cell{e.Obj, e.Path}]
				bad := false
				if ct != nil {
					_, isChan := under(ct).(*types.Chan)
					bad = isChan || strings.HasPrefix(ct.String(), "sync.") || e.Obj == r.obj && e.Path == ""
				}
				c.ob(!bad, "the channels and the once object of a stream stay", where, at(e), "%s is replaced", e.Path)
			}
		}
	}
	c.ob(len(keys) == 1, "one once object guards the closing", r.ctor, c.pos(r.methods["Close"]), "there are %d", len(keys))
	// what the closer locks
	bodyLocks := map[string]bool{}
	closeOut := []string{}
	first := true
	for _, n := range names {
		for _, o := range m[n].outs {
			for _, b := range bodies(o.St) {
				if !keys["once:"+b.key] {
					continue
				}
				r.bodyRules(n, b, cause)
				for _, e := range b.evs {
					if e.Kind == "lock" {
						bodyLocks[bare(e.Name)] = true
					}
					if e.Kind == "close" && chanKey(e.Recv) == r.out {
						var ls []string
						for _, l := range plainLocks(e) {
							if first || contains(closeOut, l) {
								ls = append(ls, l)
							}
						}
						closeOut, first = ls, false
					}
				}
			}
		}
	}
	// offers
	offers := 0
	for _, n := range names {
		for _, s := range m[n].states() {
			evs := s.Events()
			for i, e := range evs {
				if e.Kind != "send" && e.Kind != "select" {
					continue
				}
				is := e.Kind == "send" && chanKey(e.Recv) == r.out
				for _, cs := range e.Cases {
					is = is || cs.Send && chanKey(cs.Ch) == r.out
				}
				if !is {
					continue
				}
				offers++
				where := r.ctor + " " + n + " " + at(e)
				var ls []string
				for _, l := range plainLocks(e) {
					if contains(closeOut, l) && !strings.HasPrefix(l, "R:") {
						ls = append(ls, l)
					}
				}
				if !c.ob(len(ls) > 0, "frames are offered only under a lock that closing the channel takes", where, at(e), "held are %v, closing the channel holds %v", plainLocks(e), closeOut) {
					continue
				}
				good := false
				for _, l := range ls {
					since := -1
					for j := i - 1; j >= 0; j-- {
						if evs[j].Kind == "lock" && evs[j].Name == l {
							since = j
							break
						}
					}
					if since < 0 {
						continue
					}
					for _, x := range evs[since:i] {
						if x.Kind == "select" && !x.Block && x.Case == -1 && hasCase(x, r.closed) {
							good = true
						}
					}
				}
				c.ob(good, "before a frame is offered the stream is found open under that lock", where, at(e), "the closed channel is not looked at after the lock was taken [%s]", c.short(s.pathString()))
			}
		}
	}
	c.ob(offers > 0, "frames are offered", r.ctor, c.pos(r.methods["ReadContext"]), "no frame is ever offered")
	// deadlocks
	type edge struct{ a, b string }
	edges := map[edge]string{}
	for _, n := range names {
		for _, e := range m[n].events() {
			where := r.ctor + " " + n + " " + at(e)
			got := ""
			switch e.Kind {
			case "lock":
				got = bare(e.Name)
			case "once":
				got = "once:" + e.Name
			}
			if got != "" {
				for _, l := range e.Locks {
					ed := edge{bare(l), got}
					if edges[ed] == "" {
						edges[ed] = where
					}
				}
			}
			held := false
			for _, l := range plainLocks(e) {
				held = held || bodyLocks[bare(l)]
			}
			switch e.Kind {
			case "send", "recv", "select":
				waits := e.Kind != "select" || e.Block
				if held && inOnce(e) == "" {
					c.ob(!waits || e.Kind == "select" && hasCase(e, r.closed), "nothing waits with a lock the closer needs, unless closing wakes it", where, at(e), "a %s waits holding %v", e.Kind, plainLocks(e))
				}
				if k := inOnce(e); keys[k] {
					c.ob(!waits, "the closer waits for nothing", where, at(e), "a %s waits while closing", e.Kind)
				}
			case "logread", "logwritten", "call":
				// foreign code may close the stream, or wait for someone who does
				c.ob(!held && inOnce(e) == "", "no foreign code runs with a lock the closer needs", where, at(e), "%s is called holding %v", e.Name, e.Locks)
			case "read", "twrite":
				if held || inOnce(e) != "" {
					c.ob(false, "nothing waits with a lock the closer needs, unless closing wakes it", where, at(e), "the transport is waited for holding %v", e.Locks)
				}
			}
		}
	}
	// cycles
	adj := map[string][]string{}
	for e := range edges {
		adj[e.a] = append(adj[e.a], e.b)
	}
	var reach func(from, to string, seen map[string]bool) bool
	reach = func(from, to string, seen map[string]bool) bool {
		for _, b := range adj[from] {
			if b == to {
				return true
			}
			if !seen[b] {
				seen[b] = true
				if reach(b, to, seen) {
					return true
				}
			}
		}
		return false
	}
	var es []edge
	for e := range edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].a+es[i].b < es[j].a+es[j].b })
	for _, e := range es {
		cyc := e.a == e.b || reach(e.b, e.a, map[string]bool{})
		c.ob(!cyc, "locks are taken in one order", r.ctor+" "+e.a+" then "+e.b, edges[e], "%s is taken holding %s and the other way round", e.b, e.a)
	}
	// Close closes
	for _, o := range m["Close"].outs {
		where := r.ctor + " Close"
		if o.Panic {
			c.ob(false, "closing never panics", where, c.pos(r.methods["Close"]), "%s", panicString(o.St))
			continue
		}
		c.ob(r.told(o.St, "closed"), "Close closes the stream", where, c.pos(r.methods["Close"]), "a path does not")
		for _, b := range bodies(o.St) {
			for _, e := range b.evs {
				if e.Kind == "store" && (cell{e.Obj, e.Path}) == cause {
					c.ob(o.St.valEq(o.St.resolve(e.Args[0]), c.sentinel("ErrUserClosed")), "closing by the user is recorded as such", where, at(e), "the cause recorded is %s", valString(e.Args[0]))
				}
			}
		}
	}
	c.note("events", offers)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// bodyRules: one run of the closing code.
func (r *stream) bodyRules(n string, b onceRun, cause cell) {
	c := r.c
	where := r.ctor + " " + n
	pos := c.In.pos(b.head.Pos)
	stores, closed, outs, tcl := -1, -1, -1, 0
	ns, nc, no := 0, 0, 0
	lastLock := map[string]int{}
	var outLocks []string
	for i, e := range b.evs {
		switch e.Kind {
		case "store":
			if (cell{e.Obj, e.Path}) == cause {
				ns++
				stores = i
			}
		case "tclose":
			if b.st.valEq(b.st.resolve(e.Recv), r.rwc) {
				tcl++
			}
		case "lock":
			lastLock[e.Name] = i
		case "close":
			switch chanKey(e.Recv) {
			case r.closed:
				nc++
				closed = i
			case r.out:
				no++
				outs = i
				outLocks = plainLocks(e)
			}
		case "panic":
		}
	}
	c.ob(ns == 1, "closing records the cause once", where, pos, "it is recorded %d times [%s]", ns, c.short(b.st.pathString()))
	c.ob(nc == 1, "closing closes the closed channel once", where, pos, "it is closed %d times", nc)
	c.ob(no == 1, "closing closes the frame channel once", where, pos, "it is closed %d times", no)
	c.ob(tcl == 1, "closing closes the transport once", where, pos, "it is closed %d times", tcl)
	if ns == 1 && nc == 1 && no == 1 {
		c.ob(stores < closed && stores < outs, "the cause can be read before a channel is closed", where, pos, "it is recorded afterwards")
		good := false
		for _, l := range outLocks {
			good = good || closed < lastLock[l]
		}
		c.ob(good, "the closed channel is closed before waiting for a delivery", where, pos, "a delivery would not be woken")
	}
}

// ---- data races (C23) ---------------------------------------------------------

type access struct {
	thread string
	multi  bool
	c      cell
	write  bool
	locks  []string
	after  bool // after the stream is closed
	pos    string
}

func accesses(name string, multi bool, evs []*Event, shared map[*Obj]bool, pos func(*Event) string) []access {
	var out []access
	for _, e := range evs {
		a := access{thread: name, multi: multi, locks: e.Locks, after: after(e, "closed"), pos: pos(e)}
		switch e.Kind {
		case "load":
			a.c = cell{e.Obj, e.Path}
		case "store":
			a.c, a.write = cell{e.Obj, e.Path}, true
		case "mapread":
			a.c = cell{e.Obj, "#map"}
		case "mapupdate", "mapdelete":
			a.c, a.write = cell{e.Obj, "#map"}, true
		default:
			continue
		}
		if shared[a.c.o] {
			out = append(out, a)
		}
	}
	return out
}

func sameCell(a, b cell) bool {
	return a.o == b.o && (a.path == b.path || strings.HasPrefix(a.path, b.path+".") || strings.HasPrefix(b.path, a.path+".") ||
		a.path == "" || b.path == "")
}

func excludes(a, b []string) bool {
	for _, x := range a {
		for _, y := range b {
			if bare(x) == bare(y) && !(strings.HasPrefix(x, "R:") && strings.HasPrefix(y, "R:")) {
				return true
			}
		}
	}
	return false
}

func inOnceBody(l []string) bool {
	for _, x := range l {
		if strings.HasPrefix(x, "once:") {
			return true
		}
	}
	return false
}

// raceRules: conflicting accesses of threads that may run at the same time
// hold a common lock or are ordered by the closing.
func (c *Ctx) raceRules(what string, accs []access) {
	byKey := map[string]access{}
	var keys []string
	for _, a := range accs {
		k := fmt.Sprint(a.thread, a.c.o.ID, a.c.path, a.write, a.locks, a.after)
		if _, ok := byKey[k]; !ok {
			byKey[k] = a
			keys = append(keys, k)
		}
	}
	n := 0
	for i, ka := range keys {
		for _, kb := range keys[i:] {
			a, b := byKey[ka], byKey[kb]
			if !a.write && !b.write || !sameCell(a.c, b.c) || a.thread == b.thread && !a.multi {
				continue
			}
			n++
			ok := excludes(a.locks, b.locks) || inOnceBody(a.locks) && b.after || inOnceBody(b.locks) && a.after
			verb := func(w bool) string {
				if w {
					return "written"
				}
				return "read"
			}
			c.ob(ok, "conflicting accesses hold a common lock", what+" "+a.c.o.Name+a.c.path+" "+a.thread+"/"+b.thread, a.pos, "%s by %s (locks %v) and %s by %s at %s (locks %v)", verb(a.write), a.thread, a.locks, verb(b.write), b.thread, b.pos, b.locks)
		}
	}
	c.note("accesses", len(accs))
	c.note("conflicting pairs", n)
}

// lockRules: locks are released on all exits and not held while waiting for
// the transport.
func (c *Ctx) lockRules(what string, outs []Outcome, sts []*State, fn *ssa.Function) {
	for _, o := range outs {
		var left []string
		for _, l := range o.St.locks {
			left = append(left, l)
		}
		c.ob(len(left) == 0, "every lock is released on every exit", what, c.pos(fn), "%v is still held [%s]", left, c.short(o.St.pathString()))
	}
	seen := map[*Event]bool{}
	for _, s := range sts {
		evs := s.Events()
		for i, e := range evs {
			if seen[e] {
				continue
			}
			seen[e] = true
			held := plainLocks(e)
			pos := c.In.pos(e.Pos)
			foreign := false
			switch e.Kind {
			case "read", "readfrom":
				c.ob(len(held) == 0, "no lock is held while waiting for data", what+" "+pos, pos, "%v is held", held)
				foreign = true
			case "logread", "logwritten", "twrite", "tclose", "writeto", "pclose", "call":
				foreign = true
			}
			if !foreign {
				continue
			}
			for _, l := range held {
				deferred := true
				for _, x := range evs[i+1:] {
					if x.Kind == "unlock" && x.Name == l {
						deferred = x.Defer
						break
					}
				}
				c.ob(deferred, "a lock held during foreign calls is released by a deferred call", what+" "+pos, pos, "%s would stay locked if the call panics", l)
			}
		}
	}
}

func propC23(c *Ctx) {
	c.eachStream(func(r *stream) {
		m := r.threads()
		var accs []access
		readers := map[string]string{}
		for _, n := range streamMethods {
			t := m[n]
			evs := t.events()
			accs = append(accs, accesses(n, t.multi, evs, r.shared, func(e *Event) string { return c.In.pos(e.Pos) })...)
			c.lockRules(r.ctor+" "+n, t.outs, t.states(), t.fn)
			for _, e := range evs {
				if e.Kind == "read" {
					readers[n] = c.In.pos(e.Pos)
				}
				if e.Kind == "go" {
					c.ob(false, "a method starts no goroutines", r.ctor+" "+n, c.In.pos(e.Pos), "it starts %s", e.Name)
				}
			}
		}
		c.raceRules(r.ctor, accs)
		c.ob(len(readers) <= 1, "one loop reads the transport", r.ctor, "", "%v read it", readers)
		started := ""
		for _, e := range r.ctorEvs {
			if e.Kind == "go" {
				started = c.In.pos(e.Pos)
			}
		}
		c.ob(started == "", "constructing hands out only complete objects", r.ctor, started, "a goroutine is started before the stream is complete")
	})
	c.udpConc()
}

// ---- memory (C27) -------------------------------------------------------------

const memBound = 1 << 20

func propC27(c *Ctx) {
	c.eachStream(func(r *stream) {
		m := r.threads()
		for _, n := range []string{"ReadContext", "WriteContext"} {
			if m[n].err == "" {
				r.growthRules(m[n])
			}
		}
		for _, e := range r.ctorEvs {
			if e.Kind == "makechan" {
				v, ok := e.Args[0].(VInt)
				c.ob(ok && v.L.IsConst(), "a channel of a stream has a constant capacity", r.ctor+" "+c.In.pos(e.Pos), c.In.pos(e.Pos), "the capacity is %s", valString(e.Args[0]))
			}
		}
	})
}

func (r *stream) growthRules(t *thread) {
	c := r.c
	where := r.ctor + " " + t.name
	cells := r.cells()
	var order []cell
	for cl := range cells {
		order = append(order, cl)
	}
	sort.Slice(order, func(i, j int) bool {
		return order[i].o.ID < order[j].o.ID || order[i].o.ID == order[j].o.ID && order[i].path < order[j].path
	})
	done := map[*Event]bool{}
	n := 0
	for _, s := range t.states() {
		for _, e := range s.Events() {
			if done[e] || inOnceBody(e.Locks) {
				continue
			}
			done[e] = true
			pos := c.In.pos(e.Pos)
			switch e.Kind {
			case "go":
				c.ob(false, "the loop starts no goroutines", where+" "+pos, pos, "it starts %s for every frame", e.Name)
			case "mapupdate":
				if !r.shared[e.Obj] {
					continue
				}
				small := false
				if e.Obj.Typ != nil {
					if mt, ok := under(e.Obj.Typ).(*types.Map); ok {
						small = smallType(mt.Key())
					}
				}
				ok := small || len(e.L) > 0 && s.prove(K(memBound-1).Sub(e.L[0]))
				c.ob(ok, "a table of the stream grows only up to a constant size", where+" "+pos, pos, "an entry is added although the table may have any size [%s]", c.short(s.pathString()))
			}
		}
	}
	for _, g := range t.segs {
		if g.Kind != "back" {
			continue
		}
		var n0 *State
		if g.Tmpl {
			_, n0 = segEvents(g.St)
		} else {
			evs := g.St.Events()
			for i := len(evs) - 1; i >= 0; i-- {
				if evs[i].Kind == "loop" && evs[i].Name == g.Loop.ID {
					n0 = evs[i].Node
					break
				}
			}
		}
		if !c.ob(n0 != nil, "analysable", where, "", "a loop without a start") {
			continue
		}
		n++
		for _, cl := range order {
			v0, v1 := r.cellVal(n0, cl, cells[cl]), r.cellVal(g.St, cl, cells[cl])
			if g.St.valEq(v0, v1) {
				continue
			}
			say := func(ok bool, f string, a ...interface{}) {
				c.ob(ok, "no part of the stream grows with the input", where+" "+cl.o.Name+cl.path, c.pos(t.fn), f+" [%s]", append(a, c.short(g.St.pathString()))...)
			}
			switch x := v1.(type) {
			case VSlice:
				if y, ok := v0.(VSlice); ok && x.Obj == y.Obj {
					continue
				}
				say(x.Obj == nil || g.St.prove(K(memBound).Sub(x.Cap)), "the slice is replaced by one of %s elements", x.Cap)
				say(!linked(g.St, v1, v0), "the slice refers to what was there before")
			case VStr:
				say(g.St.prove(K(memBound).Sub(x.N)), "the string gets %s bytes long", x.N)
			case VPtr, VIface, VFunc, VMap:
				say(!linked(g.St, v1, v0), "it is linked to what was there before")
			}
		}
	}
	c.note("loop rounds", n)
	c.ob(n > 0, "the loop is analysed", where, c.pos(t.fn), "no round of a loop")
}

func smallType(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Uint8, types.Int8, types.Uint16, types.Int16:
			return true
		}
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			b, ok := under(u.Field(i).Type()).(*types.Basic)
			if !ok {
				return false
			}
			switch b.Kind() {
			case types.Bool:
				n++
			case types.Uint8, types.Int8:
				n += 8
			case types.Uint16, types.Int16:
				n += 16
			default:
				return false
			}
		}
		return n <= 16
	}
	return false
}

// linked: memory reachable from v includes memory of w.
func linked(s *State, v, w Val) bool {
	targets := map[*Obj]bool{}
	roots(w, targets)
	seen := map[*Obj]bool{}
	roots(v, seen)
	for o := range seen {
		if targets[o] {
			delete(seen, o) // the same object itself is no growth
		}
	}
	for {
		n := len(seen)
		for cl, x := range s.heap {
			if seen[cl.o] {
				roots(x, seen)
			}
		}
		if len(seen) == n {
			break
		}
	}
	for o := range targets {
		if seen[o] {
			return true
		}
	}
	return false
}

func roots(v Val, m map[*Obj]bool) {
	switch x := v.(type) {
	case VPtr:
		if x.Obj != nil {
			m[x.Obj] = true
		}
	case VSlice:
		if x.Obj != nil {
			m[x.Obj] = true
		}
	case VMap:
		if x.Obj != nil {
			m[x.Obj] = true
		}
	case VIface:
		if x.Dyn != nil {
			roots(x.V, m)
		}
	case VStruct:
		for _, f := range x.F {
			roots(f, m)
		}
	case VFunc:
		for _, f := range x.Bind {
			roots(f, m)
		}
	case *MapVal:
		for _, f := range x.V {
			roots(f, m)
		}
	}
}
