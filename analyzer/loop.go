package main

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"os"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	ID     string
	Fn     *ssa.Function
	Head   *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
}

func (in *Interp) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if m, ok := in.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := m[s]
			if l == nil {
				l = &Loop{ID: fmt.Sprintf("%s#%d", fn.String(), s.Index), Fn: fn, Head: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
				m[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.Blocks[x] {
					continue
				}
				l.Blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	in.loops[fn] = m
	return m
}

// Segment is a stretch of behaviour that ends at a loop head, seen from the
// previous cut.
type Segment struct {
	Kind string // enter, back
	Loop *Loop
	St   *State
	Tmpl bool // the rule's invariant applies to the loop
}

type recorder struct {
	undecided map[string]string
	segs      []Segment
}

func (in *Interp) pushRec() *recorder {
	r := &recorder{in.Undecided, in.Segs}
	in.Undecided, in.Segs = map[string]string{}, nil
	return r
}

func (in *Interp) popRec(r *recorder, keep bool) {
	u, s := in.Undecided, in.Segs
	in.Undecided, in.Segs = r.undecided, r.segs
	if keep {
		for k, v := range u {
			in.Undecided[k] = v
		}
		in.Segs = append(in.Segs, s...)
	}
}

// Template is a loop invariant supplied by a rule for some memory cells.
type Template interface {
	// Owns: the invariant tells the content of the cell; a change of a
	// primary cell makes the invariant apply to the loop.
	Owns(c cell) (owns, primary bool)
	Enter(st *State, l *Loop)
}

type bstore struct {
	c   cell
	off Lin
	val Lin
}

// iterate runs one iteration from the loop head.
func (in *Interp) iterate(fr *Frame, l *Loop, ps *PS) (backs, others []trans) {
	var ts []trans
	ps.st.bstores = nil
	in.instrs(fr, l.Head, 0, ps, l, &ts)
	for _, t := range ts {
		if t.kind == tBack {
			backs = append(backs, t)
		} else {
			others = append(others, t)
		}
	}
	return
}

func (in *Interp) next2(fr *Frame, l *Loop, t trans) *PS {
	in.evalPhis(fr, l.Head, t.from, t.ps)
	return t.ps
}

const peelLimit = 300

// peelOpen: this many rounds are executed if their number is not known.
const peelOpen = 48

func (in *Interp) execLoop(fr *Frame, l *Loop, prev *ssa.BasicBlock, ps *PS) []trans {
	in.evalPhis(fr, l.Head, prev, ps)
	cur := ps
	start := ps.clone()
	it := 0
	limit := peelLimit
	for ; it < limit; it++ {
		if it == peelOpen && !in.tripKnown(l, cur) {
			// the state grows and the last round is not in sight
			limit = it
			break
		}
		r := in.pushRec()
		backs, others := in.iterate(fr, l, cur.clone())
		if len(backs) == 0 {
			in.popRec(r, true)
			return others
		}
		if len(others) == 0 && len(backs) == 1 {
			in.popRec(r, true)
			cur = in.next2(fr, l, backs[0])
			continue
		}
		in.popRec(r, false)
		break
	}
	if it >= limit {
		cur = start
	}
	if n, ok := in.tripBound(l, cur); ok && n <= 16 {
		if out, ok := in.unroll(fr, l, cur.clone(), int(n)+2); ok {
			return out
		}
	}
	forgetIterators(l, cur)
	return in.generalise(fr, l, cur)
}

// entriesLeft: how often the iteration over a map or string goes on.
func (in *Interp) entriesLeft(x *ssa.Next, ps *PS) (int64, bool) {
	it, ok := ps.env[x.Iter].(VTuple)
	if !ok || len(it.E) < 2 {
		return 0, false
	}
	pos := it.E[1].(VInt).L.C
	switch v := it.E[0].(type) {
	case VStr:
		c, ok := constBytes(v.C)
		return int64(len(c)) - pos, ok
	case VMap:
		mv := ps.st.mapVal(v)
		return int64(len(mv.K)) - pos, !mv.Unknown
	}
	return 0, false
}

// forgetIterators: in a loop that is not executed round by round nothing is
// known about the next entry of a map or string.
func forgetIterators(l *Loop, ps *PS) {
	for b := range l.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(*ssa.Next); ok {
				if r, isI := x.Iter.(ssa.Instruction); isI && !l.Blocks[r.Block()] {
					ps.env[x.Iter] = VTuple{}
				}
			}
		}
	}
}

// tripBound: an upper bound of the remaining iterations if the head compares
// a counter of constant value with a constant, or a value close to it.
func (in *Interp) tripBound(l *Loop, ps *PS) (int64, bool) {
	n, _, ok := in.trips(l, ps)
	return n, ok
}

// tripKnown: the number of rounds is a constant, as far as the head shows.
func (in *Interp) tripKnown(l *Loop, ps *PS) bool {
	_, open, _ := in.trips(l, ps)
	return !open
}

// trips: a bound of the remaining rounds; open: they depend on a value that
// is not known.
func (in *Interp) trips(l *Loop, ps *PS) (n int64, open, ok bool) {
	for _, i := range l.Head.Instrs {
		if x, ok := i.(*ssa.Next); ok {
			n, ok := in.entriesLeft(x, ps)
			return n, !ok, ok
		}
	}
	least := func(k int64) {
		if !ok || k < n {
			n, ok = k, true
		}
	}
	for b := range l.Blocks {
		f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		leaves := false
		for _, s := range b.Succs {
			if !l.Blocks[s] {
				leaves = true
			}
		}
		if !leaves {
			continue
		}
		cnt := func(v ssa.Value) (int64, bool) {
			for i := 0; i < 2; i++ {
				if p, ok := v.(*ssa.Phi); ok && p.Block() == l.Head {
					if x, ok := ps.env[p].(VInt); ok && x.L.IsConst() {
						return x.L.C, true
					}
					return 0, false
				}
				if call, ok := v.(*ssa.Call); ok {
					// a slice that gets shorter
					if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
						if p, ok := call.Call.Args[0].(*ssa.Phi); ok && p.Block() == l.Head {
							if x, ok := ps.env[p].(VSlice); ok && x.Len.IsConst() {
								return x.Len.C, true
							}
						}
					}
					return 0, false
				}
				if bo, ok := v.(*ssa.BinOp); ok {
					if _, isC := bo.Y.(*ssa.Const); isC {
						v = bo.X
						continue
					}
				}
				break
			}
			return 0, false
		}
		lim := func(v ssa.Value) (Lin, bool) {
			if k, ok := v.(*ssa.Const); ok {
				if x, ok := in.constVal(k).(VInt); ok {
					return x.L, true
				}
			}
			if call, ok := v.(*ssa.Call); ok {
				// the length of something that the loop does not change
				if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
					if i, isI := call.Call.Args[0].(ssa.Instruction); !isI || !l.Blocks[i.Block()] {
						if x, ok := ps.env[call.Call.Args[0]].(VSlice); ok {
							return x.Len, true
						}
					}
				}
			}
			if x, ok := ps.env[v].(VInt); ok {
				if _, isPhi := v.(*ssa.Phi); !isPhi {
					return x.L, true
				}
			}
			return K(0), false
		}
		a, ok1 := cnt(c.X)
		z, ok2 := lim(c.Y)
		if !ok1 || !ok2 {
			a, ok1 = cnt(c.Y)
			z, ok2 = lim(c.X)
		}
		if ok1 && ok2 {
			if z.IsConst() {
				d := z.C - a
				if d < 0 {
					d = -d
				}
				least(d)
				continue
			}
			open = true
			// few rounds are left whatever the limit is
			d := z.AddK(-a)
			for k := int64(0); k <= 3; k++ {
				if ps.st.prove(K(k).Sub(d)) {
					least(k)
					break
				}
			}
		}
	}
	return n, open, ok
}

func (in *Interp) unroll(fr *Frame, l *Loop, ps *PS, n int) ([]trans, bool) {
	r := in.pushRec()
	var out []trans
	work := []*PS{ps}
	for i := 0; i <= n && len(work) > 0; i++ {
		var nxt []*PS
		for _, p := range work {
			backs, others := in.iterate(fr, l, p)
			out = append(out, others...)
			for _, b := range backs {
				nxt = append(nxt, in.next2(fr, l, b))
			}
		}
		work = nxt
		if len(work) > 300 || len(out) > 2000 {
			in.popRec(r, false)
			return nil, false
		}
	}
	if len(work) > 0 {
		in.popRec(r, false)
		return nil, false
	}
	in.popRec(r, true)
	return out, true
}

// ---- generalisation ------------------------------------------------------------

type absKind int

const (
	aInv absKind = iota
	aAffine
	aFold
	aCopy
	aDisc
	aLast
	aHavoc
)

type absLoc struct {
	general bool // the first round alone does not show what happens in all of them
	refold  int
	kind    absKind
	why     string
	step    []int64 // affine components
	fold    *Fold
	sgn     int64 // copy direction
	at      Lin   // copy: target offset is at + sgn*K
	val     *Lin  // copy: constant value, or
	seq     *Seq  // source bytes seq[from + sgn*K]
	from    Lin
	mono    int // havoc: +1 never below the entry value, -1 never above
	last    Lin // last: value taken in iteration J is last (over K)
	names   string
	atoms   []*Atom
}

type loc struct {
	phi *ssa.Phi
	c   cell
}

func (l loc) String() string {
	if l.phi != nil {
		n := l.phi.Comment
		if n == "" {
			n = l.phi.Name()
		}
		return n
	}
	return l.c.o.Name + l.c.path
}

// Fold: the accumulator of a loop over bytes, updated bitwise linearly.
type Fold struct {
	W    int
	Step string // canonical text of the update
	Upd  []Bit  // over atoms A (accumulator) and B (byte)
	Init Lin
	Seq  *Seq
	Off  Lin
	N    Lin
}

type variant struct {
	sig       map[string]Val // discrete locations: class -> representative
	key       string
	fromEntry bool
	fromBack  bool
}

func (in *Interp) locVal(ps *PS, x loc) Val {
	if x.phi != nil {
		return ps.env[x.phi]
	}
	if v, ok := ps.st.heap[x.c]; ok {
		return v
	}
	if strings.Contains(x.c.path, "#map") {
		return ps.st.mapVal(VMap{x.c.o})
	}
	if t := cellType(x.c.o.Typ, x.c.path); t != nil {
		return ps.st.Clone().loadCell(x.c.o, x.c.path, t)
	}
	return nil
}

func (in *Interp) setLoc(ps *PS, x loc, v Val) {
	if x.phi != nil {
		ps.env[x.phi] = v
	} else {
		ps.st.heap[x.c] = v
	}
}

func (in *Interp) locType(x loc) types.Type {
	if x.phi != nil {
		return x.phi.Type()
	}
	return cellType(x.c.o.Typ, x.c.path)
}

// lins gives the numeric components of a value and the rest as a skeleton.
func lins(v Val) ([]Lin, string) {
	switch x := v.(type) {
	case VInt:
		return []Lin{x.L}, "int"
	case VSlice:
		if x.Obj != nil {
			return []Lin{x.Off, x.Len, x.Cap}, fmt.Sprintf("slice%d%s", x.Obj.ID, x.Path)
		}
	case VPtr:
		if x.Idx != nil {
			return []Lin{*x.Idx}, fmt.Sprintf("ptr%d%s", x.Obj.ID, x.Path)
		}
	}
	return nil, valKey(v)
}

func withLins(v Val, l []Lin) Val {
	switch x := v.(type) {
	case VInt:
		return VInt{l[0]}
	case VSlice:
		x.Off, x.Len, x.Cap = l[0], l[1], l[2]
		return x
	case VPtr:
		i := l[0]
		x.Idx = &i
		return x
	}
	return v
}

func (st *State) valEq(a, b Val) bool {
	if valKey(a) == valKey(b) {
		return true
	}
	la, sa := lins(a)
	lb, sb := lins(b)
	if sa == sb && len(la) > 0 && len(la) == len(lb) {
		for i := range la {
			if !st.proveEq(la[i], lb[i]) {
				return false
			}
		}
		return true
	}
	switch x := a.(type) {
	case VArr:
		if y, ok := b.(VArr); ok {
			return st.proveEq(x.N, y.N) && st.contentEq(x.C, y.C, x.N)
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return st.proveEq(x.N, y.N) && st.contentEq(x.C, y.C, x.N)
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			rx, ry := st.resolve(x).(VIface), st.resolve(y).(VIface)
			if valKey(rx) == valKey(ry) {
				return true
			}
			if rx.Dyn != nil && ry.Dyn != nil && types.Identical(rx.Dyn, ry.Dyn) {
				return st.valEq(rx.V, ry.V)
			}
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			v1, k1 := st.decide(x.C)
			v2, k2 := st.decide(y.C)
			return k1 && k2 && v1 == v2
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				if !st.valEq(x.F[i], y.F[i]) {
					return false
				}
			}
			return true
		}
	case *MapVal:
		if y, ok := b.(*MapVal); ok {
			if x.Unknown != y.Unknown || x.Gen != y.Gen || len(x.K) != len(y.K) {
				return false
			}
			for i := range x.K {
				if !st.valEq(x.K[i], y.K[i]) || !st.valEq(x.V[i], y.V[i]) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// discClass classifies a value for discrete locations.
func (st *State) discClass(v Val) (string, bool) {
	switch x := v.(type) {
	case VBool:
		if b, ok := st.decide(x.C); ok {
			return fmt.Sprint(b), true
		}
		return "?", true
	case VIface:
		r := st.resolve(x).(VIface)
		if r.Atom == "" {
			if r.Dyn == nil {
				return "nil", true
			}
			if r.Dyn == sentinelType {
				return valKey(r), true
			}
			return "?ne:nil", true
		}
		var ne []string
		for k := range st.ifs[r.Atom].ne {
			if k == "nil" || strings.HasPrefix(k, "if(sentinelError") {
				ne = append(ne, k)
			}
		}
		sort.Strings(ne)
		if len(ne) == 0 {
			return "?", true
		}
		return "?ne:" + strings.Join(ne, "|"), true
	}
	return "", false
}

func (in *Interp) fromClass(st *State, x loc, class string, entry Val, name string) Val {
	t := in.locType(x)
	switch e := entry.(type) {
	case VBool:
		switch class {
		case "true":
			return VBool{CTrue()}
		case "false":
			return VBool{CFalse()}
		}
		return in.symVal(st, name, types.Typ[types.Bool])
	case VIface:
		if class == "nil" {
			return VIface{Typ: e.Typ}
		}
		if strings.HasPrefix(class, "?") {
			v := VIface{Atom: name, Typ: t}
			if strings.HasPrefix(class, "?ne:") {
				st.setIf(name, func(f *ifFact) {
					for _, k := range strings.Split(class[4:], "|") {
						f.ne[k] = true
					}
				})
			}
			return v
		}
	}
	return nil
}

func (in *Interp) havocVal(st *State, x loc, v Val, name string) Val {
	switch y := v.(type) {
	case VArr:
		return VArr{Content{SrcSeg(in.U.Seq(name), K(0), y.N)}, y.N}
	case *MapVal:
		return &MapVal{Unknown: true, Gen: name}
	case VStr:
		n := L1(in.U.Atom("len("+name+")", KOpaque, 0, 1<<40))
		return VStr{Content{SrcSeg(in.U.Seq(name), K(0), n)}, n}
	case VSlice:
		if y.Obj != nil {
			// same memory, unknown window
			o := L1(in.U.Atom("off("+name+")", KOpaque, 0, 1<<40))
			n := L1(in.U.Atom("len("+name+")", KOpaque, 0, 1<<40))
			c := L1(in.U.Atom("cap("+name+")", KOpaque, 0, 1<<40))
			st.addGe(c.Sub(n))
			return VSlice{Obj: y.Obj, Path: y.Path, Off: o, Len: n, Cap: c, Elem: y.Elem}
		}
	}
	t := in.locType(x)
	if t == nil {
		return VOpq{name}
	}
	return in.symVal(st, name, t)
}

func (in *Interp) generalise(fr *Frame, l *Loop, entry *PS) []trans {
	id := in.U.Fresh("L")
	kAtom := in.U.Atom("K"+id, KIter, 0, 1<<40)
	k := L1(kAtom)
	abs := map[loc]*absLoc{}
	var order []loc
	get := func(x loc) *absLoc {
		a := abs[x]
		if a == nil {
			a = &absLoc{kind: aInv}
			abs[x] = a
			order = append(order, x)
		}
		return a
	}
	for _, i := range l.Head.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		get(loc{phi: p})
	}
	templated := false
	maxObj := in.nobj
	variants := []*variant{}
	var extraFacts []Lin // hold at every head
	var laterFacts []Lin // hold at heads with K >= 1
	var ranges []RangeFact
	split := false

	buildVal := func(st *State, x loc, a *absLoc, v0 Val, kk Lin) Val {
		switch a.kind {
		case aAffine:
			ls, _ := lins(v0)
			n := make([]Lin, len(ls))
			for i := range ls {
				n[i] = ls[i].AddMul(kk, a.step[i])
			}
			return withLins(v0, n)
		case aFold:
			f := *a.fold
			f.N = kk
			return VInt{L1(in.foldAtom(&f))}
		case aCopy:
			arr := v0.(VArr)
			var sub Content
			var off Lin
			if a.sgn > 0 {
				off = a.at
			} else {
				off = a.at.Sub(kk).AddK(1)
			}
			switch {
			case a.val != nil && a.val.IsConst() && a.val.C == 0:
				sub = Content{ZeroSeg(kk)}
			case a.sgn > 0:
				sub = Content{SrcSeg(a.seq, a.from, kk)}
			default:
				sub = Content{SrcSeg(a.seq, a.from.Sub(kk).AddK(1), kk)}
			}
			return VArr{st.write(arr.C, off, sub, kk), arr.N}
		}
		return v0
	}
	mkHead := func(v *variant, vi int) *PS {
		h := entry.clone()
		st := h.st
		switch {
		case v.fromEntry && !v.fromBack && !slices.ContainsFunc(order, func(x loc) bool { return abs[x].general }):
			st.addGe(k.Neg())
		case v.fromEntry:
		case !v.fromEntry:
			st.addGe(k.AddK(-1))
			for _, f := range laterFacts {
				st.addGe(f)
			}
		}
		for _, f := range extraFacts {
			st.addGe(f)
		}
		st.ranges = append(st.ranges, ranges...)
		for _, x := range order {
			a := abs[x]
			v0 := in.locVal(entry, x)
			switch a.kind {
			case aInv:
				continue
			case aDisc:
				if c := v.sig[x.String()]; c != nil {
					cl := c.(string)
					if cl == "entry" {
						in.setLoc(h, x, v0)
					} else if nv := in.fromClass(st, x, cl, v0, fmt.Sprintf("%s.%s.%d", id, x, vi)); nv != nil {
						in.setLoc(h, x, nv)
					} else if rep := v.sig["rep:"+x.String()]; rep != nil {
						in.setLoc(h, x, rep)
					}
				}
			case aHavoc:
				nm := fmt.Sprintf("%s.%s.%d", id, x, vi)
				nv := in.havocVal(st, x, v0, nm)
				if i, ok := nv.(VInt); ok && a.mono != 0 {
					d := i.L.Sub(v0.(VInt).L)
					if a.mono < 0 {
						d = d.Neg()
					}
					st.addGe(d)
				}
				in.setLoc(h, x, nv)
			default:
				in.setLoc(h, x, buildVal(st, x, a, v0, k))
			}
		}
		// objects invalidated wholesale
		if templated {
			in.Tmpl.Enter(st, l)
		}
		st.Event(&Event{Kind: "loop", Name: l.ID, Fn: fr.fn, Pos: fr.fn.Pos(), L: []Lin{k}})
		if in.RecordSegs {
			st.ev.E.Node = st.Clone()
		}
		return h
	}
	// class of a state at the head, for the discrete locations
	classify := func(ps *PS) map[string]Val {
		m := map[string]Val{}
		for _, x := range order {
			if abs[x].kind != aDisc {
				continue
			}
			c, _ := ps.st.discClass(in.locVal(ps, x))
			m[x.String()] = c
			if strings.HasPrefix(c, "if(sentinelError") {
				m["rep:"+x.String()] = ps.st.resolve(in.locVal(ps, x))
			}
		}
		return m
	}
	sigKey := func(m map[string]Val) string {
		var p []string
		for _, kx := range sortedKeys(m) {
			if !strings.HasPrefix(kx, "rep:") {
				p = append(p, kx+"="+fmt.Sprint(m[kx]))
			}
		}
		return strings.Join(p, ";")
	}
	resetVariants := func() {
		s := classify(entry)
		for kx, c := range s {
			if cs, ok := c.(string); ok && strings.HasPrefix(cs, "?") {
				s[kx] = "entry"
			}
		}
		variants = []*variant{{sig: s, key: sigKey(s), fromEntry: true}}
		if split {
			variants[0].key += ";K=0"
		}
	}
	resetVariants()
	if in.NoLoopAbs {
		in.undecided(fr, fr.fn.Pos(), "loop not resolved")
	}

	collect := false
	var result []trans
	for round := 0; ; round++ {
		if round > 40 {
			in.undecided(fr, fr.fn.Pos(), "loop invariant not found for "+l.ID)
			return result
		}
		rec := in.pushRec()
		changed, rerun := false, false
		result = nil
		var backStates []*PS
		type headBack struct {
			h *PS
			b *PS
			t trans
		}
		var hb []headBack
		for vi := 0; vi < len(variants); vi++ {
			h := mkHead(variants[vi], vi)
			if (templated || in.RecordSegs) && collect && vi == 0 {
				in.Segs = append(in.Segs, Segment{"enter", l, entry.st, templated})
			}
			h0 := h.clone()
			backs, others := in.iterate(fr, l, h)
			result = append(result, others...)
			for _, t := range backs {
				n := in.next2(fr, l, t)
				backStates = append(backStates, n)
				hb = append(hb, headBack{h0, n, t})
				if templated || in.RecordSegs {
					in.Segs = append(in.Segs, Segment{"back", l, n.st, templated})
				}
				// discrete signature
				s := classify(n)
				key := sigKey(s)
				if split {
					key += ";K>0"
				}
				found := false
				for _, v := range variants {
					if v.key == key {
						found = true
						if !v.fromBack {
							v.fromBack = true
							if v.fromEntry {
								rerun = true
							}
						}
					}
				}
				if !found {
					if len(variants) > 12 {
						in.undecided(fr, fr.fn.Pos(), "too many loop states in "+l.ID)
						in.popRec(rec, true)
						return result
					}
					variants = append(variants, &variant{sig: s, key: key, fromBack: true})
				}
				if fmt.Sprint(n.st.locks) != fmt.Sprint(h0.st.locks) || len(n.defers) != len(h0.defers) {
					in.undecided(fr, fr.fn.Pos(), "locks or deferred calls differ between iterations of "+l.ID)
				}
			}
		}
		// compare locations
		for _, p := range hb {
			st := p.b.st
			// cells
			var cells []cell
			for c := range st.heap {
				cells = append(cells, c)
			}
			for c := range p.h.st.heap {
				if _, ok := st.heap[c]; !ok {
					cells = append(cells, c)
				}
			}
			sort.Slice(cells, func(i, j int) bool {
				if cells[i].o.ID != cells[j].o.ID {
					return cells[i].o.ID < cells[j].o.ID
				}
				return cells[i].path < cells[j].path
			})
			var check []loc
			for _, x := range order {
				check = append(check, x)
			}
			for _, c := range cells {
				if c.o.ID > maxObj {
					continue
				}
				x := loc{c: c}
				if abs[x] == nil {
					v1, ok1 := p.h.st.heap[c]
					v2 := st.heap[c]
					if ok1 && valKey(v1) == valKey(v2) && v2 != nil {
						continue
					}
					check = append(check, x)
				}
			}
			for o, g := range st.gen {
				if o.ID <= maxObj && p.h.st.gen[o] != g {
					// invalidated in the iteration: everything of it unknown
					in.undecided(fr, fr.fn.Pos(), "memory of "+o.Name+" is overwritten in an unknown way in a loop")
				}
			}
			if r0, r1 := p.h.st.ghost["rpos"], st.ghost["rpos"]; !templated && !r0.Eq(r1) {
				if in.Tmpl == nil {
					in.undecided(fr, fr.fn.Pos(), "reads in a loop")
				} else {
					templated = true
					changed = true
					break
				}
			}
			for _, x := range check {
				if x.phi == nil && in.Tmpl != nil {
					if owns, prim := in.Tmpl.Owns(x.c); owns {
						if !templated && prim {
							hv, bv := in.locVal(p.h, x), in.locVal(p.b, x)
							if !st.valEq(hv, bv) {
								templated = true
								changed = true
							}
						}
						if templated || prim {
							continue
						}
					}
				}
				hv, bv := in.locVal(p.h, x), in.locVal(p.b, x)
				if bv == nil && hv == nil {
					continue
				}
				if x.phi == nil && abs[x] == nil && hv != nil && st.valEq(hv, bv) {
					continue
				}
				a := get(x)
				if in.absStep(l, x, a, in.locVal(entry, x), hv, bv, p.h, p.b, kAtom, buildVal) {
					changed = true
					if debugLoops {
						fmt.Printf("loop %s round %d: %s -> kind %d  head %s back %s\n", l.ID, round, x, a.kind, valString(hv), valString(bv))
					}
				}
			}
			if changed {
				break
			}
		}
		if changed {
			in.popRec(rec, false)
			extraFacts, laterFacts, ranges = nil, nil, nil
			collect = false
			resetVariants()
			// entry discrete classes depend on the new locations
			continue
		}
		if rerun {
			// a loop state turned out to be reached by the back edge, too
			in.popRec(rec, false)
			collect = false
			continue
		}
		if !collect {
			// invariants from the facts every iteration leaves behind
			var hs []*PS
			for _, p := range hb {
				hs = append(hs, p.h)
			}
			nf, lf, nr := in.loopFacts(entry, hs, backStates, kAtom, templated)
			if len(lf) > 0 && !split {
				split = true
				in.popRec(rec, false)
				resetVariants()
				continue
			}
			extraFacts, laterFacts, ranges = nf, lf, nr
			collect = true
			in.popRec(rec, false)
			continue
		}
		in.popRec(rec, true)
		if !templated && !in.RecordSegs && in.Tmpl == nil && len(hb) > 0 {
			var hs, bs []*PS
			for _, p := range hb {
				hs, bs = append(hs, p.h), append(bs, p.b)
			}
			in.Bounded[l.ID] = in.pos(loopPos(l))
			if !in.ends(l, id, kAtom, order, hs, bs) {
				in.Endless[l.ID] = in.pos(loopPos(l))
			}
		}
		return result
	}
}

func loopPos(l *Loop) token.Pos {
	pos := token.NoPos
	for b := range l.Blocks {
		for _, i := range b.Instrs {
			if p := i.Pos(); p != token.NoPos && (pos == token.NoPos || p < pos) {
				pos = p
			}
		}
	}
	return pos
}

var freshNo = regexp.MustCompile(`~(\d+)`)

// ends: the loop cannot go round for ever. Either it steps through a map or a
// string; or every way round is possible only while the number of rounds is
// below a value that the loop does not change; or a number or length
// gets smaller on every way round and stays above such a value.
func (in *Interp) ends(l *Loop, id string, kAtom *Atom, order []loc, hs, bs []*PS) bool {
	for b := range l.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Next); ok && (b == l.Head || b.Dominates(l.Head)) {
				return true
			}
		}
	}
	first := 0
	if m := freshNo.FindStringSubmatch(id); m != nil {
		first, _ = strconv.Atoi(m[1])
	}
	fixed := func(a *Atom) bool {
		for _, m := range freshNo.FindAllStringSubmatch(a.Key, -1) {
			if n, _ := strconv.Atoi(m[1]); n >= first {
				return false
			}
		}
		return true
	}
	// limits: the path says that m is at most a value the loop does not change
	limits := func(st *State, m *Atom) bool {
		for _, f := range st.facts {
			if f.Coef(m) >= 0 {
				continue
			}
			ok := true
			for _, t := range f.T {
				ok = ok && (t.A == m || fixed(t.A))
			}
			if ok {
				return true
			}
		}
		return false
	}
	every := func(f func(h, b *PS) bool) bool {
		for i := range hs {
			if !f(hs[i], bs[i]) {
				return false
			}
		}
		return true
	}
	if every(func(h, b *PS) bool {
		hi, ok := b.st.hi[kAtom]
		return ok && hi < 1<<39 || limits(b.st, kAtom)
	}) {
		return true
	}
	measure := func(ps *PS, x loc) (Lin, bool) {
		switch v := in.locVal(ps, x).(type) {
		case VInt:
			return v.L, true
		case VSlice:
			return v.Len, true
		case VStr:
			return v.N, true
		}
		return Lin{}, false
	}
	for _, x := range order {
		if every(func(h, b *PS) bool {
			m, ok1 := measure(h, x)
			n, ok2 := measure(b, x)
			return ok1 && ok2 && b.st.prove(m.Sub(n).AddK(-1)) && b.st.prove(n.AddK(1<<20))
		}) {
			return true
		}
		if every(func(h, b *PS) bool {
			m, ok1 := measure(h, x)
			n, ok2 := measure(b, x)
			a := m.Atom1()
			return ok1 && ok2 && a != nil && b.st.prove(n.Sub(m).AddK(-1)) && limits(b.st, a)
		}) {
			return true
		}
	}
	return false
}

func (in *Interp) foldAtom(f *Fold) *Atom {
	key := fmt.Sprintf("fold(%s;%s;s%d@%s;%s)", f.Step, f.Init.Key(), f.Seq.ID, f.Off.Key(), f.N.Key())
	hi := int64(1)<<uint(f.W) - 1
	a := in.U.Atom(key, KFold, 0, hi)
	if a.Fold == nil {
		c := *f
		a.Fold = &c
	}
	return a
}

// absStep adapts the abstraction of a location to one more iteration; true if
// it changed.
func (in *Interp) absStep(l *Loop, x loc, a *absLoc, v0, hv, bv Val, h, b *PS, kAtom *Atom, build func(*State, loc, *absLoc, Val, Lin) Val) bool {
	st := b.st
	k := L1(kAtom)
	if a.kind == aHavoc {
		if i, ok := bv.(VInt); ok && a.mono != 0 {
			d := i.L.Sub(hv.(VInt).L)
			if a.mono < 0 {
				d = d.Neg()
			}
			if !st.prove(d) {
				a.mono = 0
				return true
			}
		}
		if a.names != "tried" {
			// bitwise linear accumulator?
			if f := in.recogniseFold(x, v0, hv, bv, kAtom); f != nil {
				a.kind, a.fold = aFold, f
				a.names = "tried"
				return true
			}
		}
		if s, ok := hv.(VSlice); ok {
			t, ok2 := bv.(VSlice)
			if !ok2 || t.Obj != s.Obj || t.Path != s.Path {
				in.Undecided[l.ID+": slice variable "+x.String()+" changes its memory in the loop"] = in.pos(l.Fn.Pos())
			}
		}
		return false
	}
	if a.kind == aDisc {
		if _, ok := st.discClass(bv); !ok {
			a.kind = aHavoc
			return true
		}
		return false
	}
	want := build(st, x, a, v0, k.AddK(1))
	switch a.kind {
	case aInv:
		want = hv
	case aFold:
		f := in.recogniseFold(x, v0, hv, bv, kAtom)
		if f != nil && f.Step == a.fold.Step && f.Seq == a.fold.Seq && f.Off.Eq(a.fold.Off) {
			return false
		}
		if in.foldStep(b.st, a.fold, hv, bv, k) {
			return false
		}
		if f != nil && a.refold < 2 {
			// the other rounds may fit the sequence of this one
			a.fold = f
			a.refold++
			return true
		}
		a.kind, a.names = aHavoc, "tried"
		return true
	}
	if st.valEq(want, bv) {
		return false
	}
	// upgrade
	up := func(kind absKind) bool { a.kind = kind; return true }
	if a.kind == aInv {
		if _, ok := v0.(VIface); ok {
			return up(aDisc)
		}
		if _, ok := v0.(VBool); ok {
			return up(aDisc)
		}
		lh, sh := lins(hv)
		lb, sb := lins(bv)
		if sh == sb && len(lh) > 0 && len(lh) == len(lb) {
			a.step = nil
			ok := true
			for i := range lh {
				d := lb[i].Sub(lh[i])
				if !d.IsConst() {
					// maybe equal by facts to a constant step
					found := false
					for _, c := range []int64{0, 1, -1} {
						if st.proveEq(d, K(c)) {
							d, found = K(c), true
							break
						}
					}
					if !found {
						ok = false
						break
					}
				}
				a.step = append(a.step, d.C)
			}
			if ok {
				return up(aAffine)
			}
		}
		if _, ok := v0.(VArr); ok {
			if in.recogniseCopy(a, x, hv, bv, b, kAtom) {
				return up(aCopy)
			}
			// the index may not be known yet
			if a.names == "" {
				a.names = "retry"
				return true
			}
			if !a.general && st.prove(k.Neg()) {
				a.general = true
				return true
			}
		}
	}
	if a.kind == aAffine || a.kind == aInv {
		if iv, ok := bv.(VInt); ok {
			a.mono = 0
			if ih, ok := hv.(VInt); ok {
				if st.prove(iv.L.Sub(ih.L)) {
					a.mono = 1
				} else if st.prove(ih.L.Sub(iv.L)) {
					a.mono = -1
				}
			}
		}
	}
	return up(aHavoc)
}

// recogniseFold: back value is a bitwise linear function of the head value
// and of one byte at an offset that advances by one.
func (in *Interp) recogniseFold(x loc, v0, hv, bv Val, kAtom *Atom) *Fold {
	h, ok1 := hv.(VInt)
	b, ok2 := bv.(VInt)
	i0, ok3 := v0.(VInt)
	if !ok1 || !ok2 || !ok3 {
		return nil
	}
	a := h.L.Atom1()
	t := in.locType(x)
	if a == nil || t == nil || !isInteger(t) {
		return nil
	}
	w, signed := in.intInfo(t)
	if signed || w > 32 {
		return nil
	}
	bits := in.U.BitsOf(b.L, w)
	var by *Atom
	upd := make([]Bit, w)
	pa := in.U.Atom("acc", KOpaque, 0, posInf)
	pb := in.U.Atom("in", KOpaque, 0, 255)
	usesA := false
	for i, bit := range bits {
		n := Bit{C: bit.C}
		for _, y := range bit.X {
			switch {
			case y.A == a:
				usesA = true
				n = n.Xor(Bit{X: []BitAtom{{pa, y.I}}})
			case y.A.Kind == KByte && (by == nil || by == y.A):
				by = y.A
				n = n.Xor(Bit{X: []BitAtom{{pb, y.I}}})
			default:
				return nil
			}
		}
		upd[i] = n
	}
	if by == nil || !usesA || by.Off.Coef(kAtom) != 1 {
		return nil
	}
	var s strings.Builder
	fmt.Fprintf(&s, "w%d", w)
	for _, u := range upd {
		s.WriteByte(',')
		s.WriteString(u.Key())
	}
	return &Fold{W: w, Step: s.String(), Upd: upd, Init: i0.L, Seq: by.Seq, Off: by.Off.AddMul(L1(kAtom), -1)}
}

// foldStep: bv is one step of the fold from hv with the byte of round k, which
// the state may know better than as a byte of the sequence.
func (in *Interp) foldStep(st *State, f *Fold, hv, bv Val, k Lin) bool {
	h, ok1 := hv.(VInt)
	b, ok2 := bv.(VInt)
	if !ok1 || !ok2 {
		return false
	}
	acc := in.U.BitsOf(h.L, f.W)
	pa := in.U.Atom("acc", KOpaque, 0, posInf)
	fits := func(at, res Lin) bool {
		by := in.U.BitsOf(st.segByte(SrcSeg(f.Seq, at, K(1)), K(0)), 8)
		got := in.U.BitsOf(res, f.W)
		for i, u := range f.Upd {
			n := Bit{C: u.C}
			for _, y := range u.X {
				switch {
				case y.A == pa && y.I < len(acc):
					n = n.Xor(acc[y.I])
				case y.A != pa && y.I < len(by):
					n = n.Xor(by[y.I])
				}
			}
			if n.Key() != got[i].Key() {
				return false
			}
		}
		return true
	}
	at := f.Off.Add(k)
	return fits(at, b.L) || fits(substConst(st, at), b.L) || fits(substConst(st, at), st.refresh(b.L, 0))
}

func (in *Interp) recogniseCopy(a *absLoc, x loc, hv, bv Val, b *PS, kAtom *Atom) bool {
	var only *bstore
	for i := range b.st.bstores {
		s := &b.st.bstores[i]
		if s.c == x.c {
			if only != nil {
				return false
			}
			only = s
		}
	}
	if only == nil {
		return false
	}
	sg := only.off.Coef(kAtom)
	if sg != 1 && sg != -1 {
		return false
	}
	a.sgn = sg
	a.at = only.off.AddMul(L1(kAtom), -sg)
	a.val, a.seq = nil, nil
	if only.val.IsConst() && only.val.C == 0 {
		v := only.val
		a.val = &v
		return true
	}
	if y := only.val.Atom1(); y != nil && y.Kind == KByte && y.Off.Coef(kAtom) == sg {
		a.seq = y.Seq
		a.from = y.Off.AddMul(L1(kAtom), -sg)
		return true
	}
	return false
}

// loopFacts finds facts that hold at the end of every iteration.
func (in *Interp) loopFacts(entry *PS, heads, backs []*PS, kAtom *Atom, templated bool) (always, later []Lin, ranges []RangeFact) {
	if len(backs) == 0 {
		return
	}
	k := L1(kAtom)
	maxAtom := 0
	for a := range map[*Atom]bool{kAtom: true} {
		if a.ID > maxAtom {
			maxAtom = a.ID
		}
	}
	old := func(f Lin) bool { // only atoms known before the loop, and K
		for _, t := range f.T {
			if t.A.ID > maxAtom {
				return false
			}
		}
		return true
	}
	var cand []Lin
	b0 := backs[0].st
	for _, f := range b0.facts {
		if f.Coef(kAtom) != 0 && old(f) {
			cand = append(cand, f)
		}
	}
	if hi, ok := b0.hi[kAtom]; ok {
		cand = append(cand, K(hi).Sub(k))
	}
	if !templated {
		// what an iteration found out about values from before the loop
		for a, hi := range b0.hi {
			if f := K(hi).Sub(L1(a)); a != kAtom && old(f) && !entry.st.prove(f) {
				cand = append(cand, f)
			}
		}
		for a, lo := range b0.lo {
			if f := L1(a).AddK(-lo); a != kAtom && old(f) && !entry.st.prove(f) {
				cand = append(cand, f)
			}
		}
		sort.Slice(cand, func(i, j int) bool { return cand[i].Key() < cand[j].Key() })
	}
	for _, f := range cand {
		ok := true
		for _, b := range backs[1:] {
			if !b.st.prove(f) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		g := f.Subst(kAtom, k.AddK(-1))
		if entry.st.prove(g.Subst(kAtom, K(0))) {
			always = append(always, g)
		} else {
			later = append(later, g)
		}
	}
	// bytes at offsets that move with K
	type bf struct {
		a  *Atom
		eq bool
		v  int64
	}
	var bc []bf
	var ids []*Atom
	vals := map[*Atom][]int64{}
	for a := range b0.hi {
		ids = append(ids, a)
	}
	for a := range b0.lo {
		ids = append(ids, a)
	}
	for _, n := range b0.nes {
		if len(n.T) == 1 && (n.T[0].C == 1 || n.T[0].C == -1) {
			a := n.T[0].A
			ids = append(ids, a)
			vals[a] = append(vals[a], -n.C*n.T[0].C)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].ID < ids[j].ID })
	seen := map[*Atom]bool{}
	for _, a := range ids {
		if seen[a] || a.Kind != KByte {
			continue
		}
		seen[a] = true
		if c := a.Off.Coef(kAtom); c != 1 && c != -1 || !old(a.Off) {
			continue
		}
		all := func(eq bool, v int64) bool {
			d := L1(a).AddK(-v)
			for _, b := range backs {
				if eq && !b.st.proveEq(d, K(0)) || !eq && !b.st.proveNe(d) {
					return false
				}
			}
			return true
		}
		lo, hi := b0.bounds(a)
		switch {
		case lo == hi && all(true, lo):
			bc = append(bc, bf{a, true, lo})
			continue
		case lo > 0 && all(false, 0):
			bc = append(bc, bf{a, false, 0})
		}
		for _, v := range vals[a] {
			if all(false, v) && !(v == 0 && lo > 0) {
				bc = append(bc, bf{a, false, v})
			}
		}
	}
	for _, c := range bc {
		s := c.a.Off.Coef(kAtom)
		base := c.a.Off.AddMul(k, -s)
		if s == 1 {
			ranges = append(ranges, RangeFact{c.a.Seq, base, base.Add(k), c.eq, c.v})
		} else {
			ranges = append(ranges, RangeFact{c.a.Seq, base.Sub(k).AddK(1), base.AddK(1), c.eq, c.v})
		}
	}
	return
}

var _ = maps.Clone[map[int]int]

var debugLoops = os.Getenv("MC_LOOPS") != ""
