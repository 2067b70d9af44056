package main

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cell struct {
	o    *Obj
	path string
}

type ifFact struct {
	known  Val // nil: not known
	ne     map[string]bool
	notDyn map[string]bool
}

type RangeFact struct {
	Seq    *Seq
	Lo, Hi Lin
	Eq     bool // all equal to V, else: none equal to V
	V      int64
}

type MapVal struct {
	K, V    []Val
	Unknown bool // has further unknown entries
	Gen     string
}

type Event struct {
	Kind  string // call, send, recv, select, close, lock, unlock, store, go, once, mapupdate, print, alloc, loop, read
	Name  string
	Pos   token.Pos
	Fn    *ssa.Function
	Recv  Val
	Args  []Val
	Snap  []Content // contents of byte slice arguments at the time
	Res   []Val
	Locks []string
	Cases []SelCase
	Case  int
	Block bool
	Obj   *Obj
	Path  string
	L     []Lin
	Stack []string
	Node  *State // state right after the event, for facts (not cloned)
	Defer bool   // by a deferred call
	After string // what the rule's observer knew when it happened
}

type SelCase struct {
	Send bool
	Ch   Val
	Val  Val
}

type EvNode struct {
	Prev *EvNode
	E    *Event
	N    int
}

type panicInfo struct {
	Msg string
	Pos token.Pos
	Fn  *ssa.Function
	Val Val
}

type State struct {
	in      *Interp
	u       *Universe
	lo, hi  map[*Atom]int64
	facts   []Lin
	nes     []Lin
	ifs     map[string]ifFact
	ranges  []RangeFact
	heap    map[cell]Val
	gen     map[*Obj]string
	ev      *EvNode
	locks   []string
	panicV  *panicInfo
	ghost   map[string]Lin
	inOnce  int
	inDefer int
	trace   []string
	bstores []bstore
}

func (in *Interp) NewState() *State {
	return &State{in: in, u: in.U, lo: map[*Atom]int64{}, hi: map[*Atom]int64{}, ifs: map[string]ifFact{},
		heap: map[cell]Val{}, gen: map[*Obj]string{}, ghost: map[string]Lin{}}
}

func (st *State) Clone() *State {
	c := *st
	c.lo, c.hi = maps.Clone(st.lo), maps.Clone(st.hi)
	c.facts = st.facts[:len(st.facts):len(st.facts)]
	c.nes = st.nes[:len(st.nes):len(st.nes)]
	c.ranges = st.ranges[:len(st.ranges):len(st.ranges)]
	c.locks = st.locks[:len(st.locks):len(st.locks)]
	c.bstores = st.bstores[:len(st.bstores):len(st.bstores)]
	c.trace = st.trace[:len(st.trace):len(st.trace)]
	c.ifs = maps.Clone(st.ifs)
	c.heap = maps.Clone(st.heap)
	c.gen = maps.Clone(st.gen)
	c.ghost = maps.Clone(st.ghost)
	return &c
}

func (st *State) Event(e *Event) {
	e.Locks = append([]string(nil), st.locks...)
	e.Defer = st.inDefer > 0
	if st.in.OnEvent != nil {
		st.in.OnEvent(st, e)
	}
	n := 0
	if st.ev != nil {
		n = st.ev.N + 1
	}
	st.ev = &EvNode{st.ev, e, n}
}

func (st *State) Events() []*Event {
	var out []*Event
	for n := st.ev; n != nil; n = n.Prev {
		out = append(out, n.E)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- numeric facts -------------------------------------------------------

func (st *State) bounds(a *Atom) (int64, int64) {
	lo, hi := a.Lo, a.Hi
	if v, ok := st.lo[a]; ok && v > lo {
		lo = v
	}
	if v, ok := st.hi[a]; ok && v < hi {
		hi = v
	}
	return lo, hi
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a == posInf || a == negInf || b == posInf || b == negInf {
		if (a > 0) == (b > 0) {
			return posInf
		}
		return negInf
	}
	r := a * b
	if r/b != a {
		if (a > 0) == (b > 0) {
			return posInf
		}
		return negInf
	}
	return r
}

func satAdd(a, b int64) int64 {
	if a == posInf || b == posInf {
		return posInf
	}
	if a == negInf || b == negInf {
		return negInf
	}
	r := a + b
	if a > 0 && b > 0 && r < 0 {
		return posInf
	}
	if a < 0 && b < 0 && r >= 0 {
		return negInf
	}
	return r
}

// lower bound of l by intervals
func (st *State) lower(l Lin) int64 {
	r := l.C
	for _, t := range l.T {
		lo, hi := st.bounds(t.A)
		var c int64
		if t.C > 0 {
			if lo == negInf {
				return negInf
			}
			c = satMul(t.C, lo)
		} else {
			if hi == posInf {
				return negInf
			}
			c = satMul(t.C, hi)
		}
		if c == negInf || c == posInf && r < 0 {
			if c == negInf {
				return negInf
			}
		}
		r = satAdd(r, c)
		if r == negInf {
			return negInf
		}
	}
	return r
}

func (st *State) upper(l Lin) int64 {
	v := st.lower(l.Neg())
	if v == negInf {
		return posInf
	}
	return -v
}

func (st *State) prove(l Lin) bool {
	if l.IsConst() {
		return l.C >= 0
	}
	budget := 3000
	return st.prove1(l, 4, &budget)
}

func (st *State) prove1(l Lin, depth int, budget *int) bool {
	if st.lower(l) >= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, t := range l.T {
		for _, f := range st.facts {
			*budget--
			if *budget < 0 {
				return false
			}
			c := f.Coef(t.A)
			if c == 0 || (c > 0) != (t.C > 0) {
				continue
			}
			if t.C%c != 0 {
				continue
			}
			m := t.C / c
			if st.prove1(l.AddMul(f, -m), depth-1, budget) {
				return true
			}
		}
	}
	return false
}

func (st *State) proveGe(a, b Lin) bool { return st.prove(a.Sub(b)) }
func (st *State) proveEq(a, b Lin) bool {
	d := a.Sub(b)
	if d.IsConst() {
		return d.C == 0
	}
	return st.prove(d) && st.prove(d.Neg())
}

func sameUpToSign(a, b Lin) bool { return a.Eq(b) || a.Eq(b.Neg()) }

func (st *State) proveNe(l Lin) bool {
	if st.proveNeDirect(l) {
		return true
	}
	if len(st.ranges) > 0 && len(l.T) == 1 && (l.T[0].C == 1 || l.T[0].C == -1) && l.T[0].A.Kind == KByte {
		a := l.T[0].A
		return st.rangeFact(a.Seq, a.Off, a.Off.AddK(1), false, -l.C*l.T[0].C)
	}
	return false
}

func (st *State) proveNeDirect(l Lin) bool {
	if l.IsConst() {
		return l.C != 0
	}
	if st.prove(l.AddK(-1)) || st.prove(l.Neg().AddK(-1)) {
		return true
	}
	for _, n := range st.nes {
		if sameUpToSign(n, l) {
			return true
		}
	}
	return false
}

// addGe adds l >= 0; false: contradiction.
func (st *State) addGe(l Lin) bool {
	if l.IsConst() {
		return l.C >= 0
	}
	if st.prove(l.Neg().AddK(-1)) {
		return false
	}
	// tighten by known disequalities
	for _, n := range st.nes {
		if sameUpToSign(n, l) {
			l = l.AddK(-1)
			break
		}
	}
	if len(l.T) == 1 {
		a, c := l.T[0].A, l.T[0].C
		lo, hi := st.bounds(a)
		if c > 0 { // a >= ceil(-C/c)
			v := ceilDiv(-l.C, c)
			for st.neConst(a, v) {
				v++
			}
			if v > lo {
				st.lo[a] = v
				lo = v
			}
		} else { // a <= floor(C/-c)
			v := floorDiv(l.C, -c)
			for st.neConst(a, v) {
				v--
			}
			if v < hi {
				st.hi[a] = v
				hi = v
			}
		}
		return lo <= hi
	}
	if st.prove(l) {
		return true
	}
	st.facts = append(st.facts, l)
	return true
}

func (st *State) neConst(a *Atom, v int64) bool {
	for _, n := range st.nes {
		if len(n.T) == 1 && n.T[0].A == a && n.T[0].C*v+n.C == 0 {
			return true
		}
	}
	return false
}

func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (st *State) addNe(l Lin) bool {
	if l.IsConst() {
		return l.C != 0
	}
	ge, le := st.prove(l), st.prove(l.Neg())
	switch {
	case ge && le:
		return false
	case ge:
		st.nes = append(st.nes, l)
		return st.addGe(l.AddK(-1))
	case le:
		st.nes = append(st.nes, l)
		return st.addGe(l.Neg().AddK(-1))
	}
	st.nes = append(st.nes, l)
	return true
}

// rangeFact: all bytes of s in [lo,hi) are v (none is v).
func (st *State) rangeFact(s *Seq, lo, hi Lin, eq bool, v int64) bool {
	for i := 0; i < 600; i++ {
		if st.proveGe(lo, hi) {
			return true
		}
		adv := false
		for _, r := range st.ranges {
			if r.Seq == s && (r.Eq == eq && r.V == v || r.Eq && !eq && r.V != v) && st.proveGe(lo, r.Lo) && st.proveGe(r.Hi, hi) {
				return true
			}
			if r.Seq == s && (r.Eq == eq && r.V == v || r.Eq && !eq && r.V != v) && st.proveGe(lo, r.Lo) && st.prove(r.Hi.Sub(lo).AddK(-1)) {
				lo, adv = r.Hi, true
				break
			}
		}
		if !adv {
			b := st.u.atoms["byte("+s.Key+","+lo.Key()+")"]
			if b != nil {
				d := L1(b).AddK(-v)
				if eq && st.proveEq(d, K(0)) || !eq && st.proveNeDirect(d) {
					lo, adv = lo.AddK(1), true
				}
			}
		}
		if !adv {
			return false
		}
	}
	return st.proveGe(lo, hi)
}

// ---- conditions ------------------------------------------------------------

func (st *State) resolve(v Val) Val {
	for i := 0; i < 8; i++ {
		x, ok := v.(VIface)
		if !ok || x.Atom == "" {
			return v
		}
		f, ok := st.ifs[x.Atom]
		if !ok || f.known == nil {
			return v
		}
		v = f.known
	}
	return v
}

func atomKeyOf(v Val) string {
	switch v := v.(type) {
	case VIface:
		return v.Atom
	case VPtr:
		if v.Obj != nil && v.Obj.Kind == OSym && v.Path == "" {
			return "ptr:" + v.Obj.Name
		}
	case VFunc:
		return v.Atom
	case VChan:
		return ""
	case VSlice:
		if v.Obj != nil && v.Obj.Kind == OSym {
			return "slicenil:" + v.Obj.Name
		}
	case VMap:
		if v.Obj != nil && v.Obj.Kind == OSym {
			return "mapnil:" + v.Obj.Name
		}
	}
	return ""
}

func (st *State) decide(c Cond) (val, known bool) {
	switch c.Op {
	case CConst:
		return !c.Neg, true
	case CGe:
		if st.prove(c.L) {
			return true, true
		}
		if st.prove(c.L.Neg().AddK(-1)) {
			return false, true
		}
	case CEq:
		if st.proveEq(c.L, K(0)) {
			return !c.Neg, true
		}
		if st.proveNe(c.L) {
			return c.Neg, true
		}
	case CIs:
		a, b := st.resolve(c.A), st.resolve(c.B)
		ka, kb := valKey(a), valKey(b)
		if ka == kb {
			return !c.Neg, true
		}
		aa, ab := atomKeyOf(a), atomKeyOf(b)
		if aa == "" && ab == "" {
			if s1, ok := a.(VStr); ok {
				s2 := b.(VStr)
				if st.proveNe(s1.N.Sub(s2.N)) {
					return c.Neg, true
				}
				if st.proveEq(s1.N, s2.N) && st.contentEq(s1.C, s2.C, s1.N) {
					return !c.Neg, true
				}
				c1, ok1 := constBytes(s1.C)
				c2, ok2 := constBytes(s2.C)
				if ok1 && ok2 {
					return (c1 == c2) != c.Neg, true
				}
				return false, false
			}
			if uncertain(a) || uncertain(b) {
				if f, ok := st.ifs["is:"+c.pairKey(st)]; ok {
					if f.known != nil {
						return !c.Neg, true
					}
					return c.Neg, true
				}
				return false, false
			}
			return c.Neg, true
		}
		if aa != "" && st.ifs[aa].ne[kb] || ab != "" && st.ifs[ab].ne[ka] {
			return c.Neg, true
		}
	case CType:
		a := st.resolve(c.A)
		x, ok := a.(VIface)
		if !ok {
			return false, false
		}
		if x.Atom == "" {
			if x.Dyn == nil {
				return c.Neg, true
			}
			return typeMatches(x.Dyn, c.T) != c.Neg, true
		}
		if _, isI := under(c.T).(*types.Interface); isI {
			if x.Typ != nil && types.AssignableTo(x.Typ, c.T) && st.ifs[x.Atom].ne["nil"] {
				return !c.Neg, true
			}
		}
		if st.ifs[x.Atom].notDyn[c.T.String()] {
			return c.Neg, true
		}
	}
	return false, false
}

func uncertain(v Val) bool {
	switch v := v.(type) {
	case VOpq, VFloat:
		return true
	case VIface:
		if v.Dyn != nil {
			switch x := v.V.(type) {
			case VOpq:
				return !strings.HasPrefix(x.K, "err:")
			case VInt, VFloat, VStr, VStruct, VArr, VArray, VBool:
				return true
			}
		}
	case VChan:
		return true
	case VStruct, VArr, VArray:
		return true
	}
	return false
}

func (c Cond) pairKey(st *State) string {
	a, b := valKey(st.resolve(c.A)), valKey(st.resolve(c.B))
	if a > b {
		a, b = b, a
	}
	return a + "|" + b
}

func typeMatches(dyn, t types.Type) bool {
	if i, ok := under(t).(*types.Interface); ok {
		return types.Implements(dyn, i)
	}
	return types.Identical(dyn, t)
}

func (st *State) setIf(k string, f func(*ifFact)) {
	x := st.ifs[k]
	n := ifFact{known: x.known, ne: maps.Clone(x.ne), notDyn: maps.Clone(x.notDyn)}
	if n.ne == nil {
		n.ne = map[string]bool{}
	}
	if n.notDyn == nil {
		n.notDyn = map[string]bool{}
	}
	f(&n)
	st.ifs[k] = n
}

// assume adds c; false: infeasible.
func (st *State) assume(c Cond) bool {
	if v, ok := st.decide(c); ok {
		return v
	}
	switch c.Op {
	case CGe:
		return st.addGe(c.L)
	case CEq:
		if c.Neg {
			return st.addNe(c.L)
		}
		return st.addGe(c.L) && st.addGe(c.L.Neg())
	case CIs:
		a, b := st.resolve(c.A), st.resolve(c.B)
		aa, ab := atomKeyOf(a), atomKeyOf(b)
		if aa == "" && ab == "" {
			if s1, ok := a.(VStr); ok {
				if !c.Neg {
					s2 := b.(VStr)
					return st.addGe(s1.N.Sub(s2.N)) && st.addGe(s2.N.Sub(s1.N))
				}
				return true
			}
			st.setIf("is:"+c.pairKey(st), func(f *ifFact) {
				if !c.Neg {
					f.known = VBool{CTrue()}
				}
			})
			return true
		}
		if aa == "" {
			a, b, aa, ab = b, a, ab, aa
		}
		if c.Neg {
			st.setIf(aa, func(f *ifFact) { f.ne[valKey(b)] = true })
			if ab != "" {
				st.setIf(ab, func(f *ifFact) { f.ne[valKey(a)] = true })
			}
		} else {
			if _, isIf := a.(VIface); isIf {
				old := st.ifs[aa]
				if x, ok := b.(VIface); ok && x.Atom == "" && x.Dyn != nil {
					for t := range old.notDyn {
						if t == x.Dyn.String() {
							return false
						}
					}
				}
				st.setIf(aa, func(f *ifFact) { f.known = b })
				if ab != "" {
					for k := range old.ne {
						st.setIf(ab, func(f *ifFact) { f.ne[k] = true })
					}
				}
			} else {
				st.setIf(aa, func(f *ifFact) { f.known = b })
			}
		}
		return true
	case CType:
		x := st.resolve(c.A).(VIface)
		if c.Neg {
			st.setIf(x.Atom, func(f *ifFact) { f.notDyn[c.T.String()] = true })
			return true
		}
		if _, isI := under(c.T).(*types.Interface); isI {
			st.setIf(x.Atom, func(f *ifFact) { f.ne["nil"] = true })
			return true
		}
		nv := VIface{Dyn: c.T, V: st.in.symVal(st, x.Atom+".("+shortType(c.T)+")", c.T), Typ: x.Typ}
		st.setIf(x.Atom, func(f *ifFact) { f.known = nv })
		return true
	}
	return true
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- memory ------------------------------------------------------------------

func (in *Interp) newObj(kind ObjKind, name string, t types.Type, site ssa.Instruction) *Obj {
	in.nobj++
	return &Obj{ID: in.nobj, Kind: kind, Name: name, Typ: t, Site: site}
}

func (in *Interp) symObj(name string, t types.Type) *Obj {
	if o := in.symObjs[name]; o != nil {
		return o
	}
	o := in.newObj(OSym, name, t, nil)
	in.symObjs[name] = o
	return o
}

func (in *Interp) symVal(st *State, name string, t types.Type) Val {
	switch x := under(t).(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return VBool{Ge(L1(in.U.Atom(name, KOpaque, 0, 1)).AddK(-1))}
		case x.Info()&types.IsInteger != 0:
			w, s := in.intInfo(t)
			lo, hi := rangeOf(w, s)
			return VInt{L1(in.U.Atom(name, KOpaque, lo, hi))}
		case x.Info()&types.IsFloat != 0:
			return VFloat{K: name}
		case x.Info()&types.IsString != 0:
			n := L1(in.U.Atom("len("+name+")", KOpaque, 0, 1<<40))
			return VStr{Content{SrcSeg(in.U.Seq(name), K(0), n)}, n}
		}
	case *types.Slice:
		o := in.symObj("*"+name, t)
		n := L1(in.U.Atom("len("+name+")", KOpaque, 0, 1<<40))
		c := L1(in.U.Atom("cap("+name+")", KOpaque, 0, 1<<40))
		st.addGe(c.Sub(n))
		s := VSlice{Obj: o, Off: K(0), Len: n, Cap: c, Elem: x.Elem()}
		if isByte(x.Elem()) {
			if _, ok := st.heap[cell{o, ""}]; !ok {
				st.heap[cell{o, ""}] = VArr{Content{SrcSeg(in.U.Seq(name), K(0), c)}, c}
			}
		}
		return s
	case *types.Pointer:
		return VPtr{Obj: in.symObj("*"+name, x.Elem())}
	case *types.Interface:
		return VIface{Atom: name, Typ: t}
	case *types.Signature:
		return VFunc{Atom: name}
	case *types.Map:
		return VMap{in.symObj("*"+name, t)}
	case *types.Chan:
		return VChan{Key: name}
	case *types.Struct:
		var f []Val
		for i := 0; i < x.NumFields(); i++ {
			f = append(f, in.symVal(st, name+"."+x.Field(i).Name(), x.Field(i).Type()))
		}
		return VStruct{t, f}
	case *types.Array:
		if isByte(x.Elem()) {
			return VArr{Content{SrcSeg(in.U.Seq(name), K(0), K(x.Len()))}, K(x.Len())}
		}
		var e []Val
		for i := int64(0); i < x.Len() && i < 1024; i++ {
			e = append(e, in.symVal(st, fmt.Sprintf("%s[%d]", name, i), x.Elem()))
		}
		return VArray{t, e}
	case *types.Tuple:
		var e []Val
		for i := 0; i < x.Len(); i++ {
			e = append(e, in.symVal(st, fmt.Sprintf("%s#%d", name, i), x.At(i).Type()))
		}
		return VTuple{e}
	}
	return VOpq{name}
}

func (in *Interp) zeroVal(t types.Type) Val {
	switch x := under(t).(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return VBool{CFalse()}
		case x.Info()&types.IsInteger != 0:
			return VInt{K(0)}
		case x.Info()&types.IsFloat != 0:
			z := K(0)
			return VFloat{I: &z}
		case x.Info()&types.IsString != 0:
			return VStr{}
		}
	case *types.Slice:
		return VSlice{Elem: x.Elem()}
	case *types.Pointer:
		return VPtr{}
	case *types.Interface:
		return VIface{Typ: t}
	case *types.Signature:
		return VFunc{}
	case *types.Map:
		return VMap{}
	case *types.Chan:
		return VChan{}
	case *types.Struct:
		var f []Val
		for i := 0; i < x.NumFields(); i++ {
			f = append(f, in.zeroVal(x.Field(i).Type()))
		}
		return VStruct{t, f}
	case *types.Array:
		if isByte(x.Elem()) {
			return VArr{Content{ZeroSeg(K(x.Len()))}, K(x.Len())}
		}
		var e []Val
		for i := int64(0); i < x.Len() && i < 1024; i++ {
			e = append(e, in.zeroVal(x.Elem()))
		}
		return VArray{t, e}
	case *types.Tuple:
		var e []Val
		for i := 0; i < x.Len(); i++ {
			e = append(e, in.zeroVal(x.At(i).Type()))
		}
		return VTuple{e}
	}
	return VOpq{"zero"}
}

func fieldName(t types.Type, i int) string {
	return under(t).(*types.Struct).Field(i).Name()
}

func (st *State) initCell(o *Obj, path string, t types.Type) Val {
	if g, ok := st.gen[o]; ok {
		return st.in.symVal(st, o.Name+path+g, t)
	}
	switch o.Kind {
	case OAlloc:
		return st.in.zeroVal(t)
	case OGlobal:
		if v, ok := st.in.globalCell(o, path, t); ok {
			return v
		}
		return st.in.symVal(st, o.Name+path, t)
	default:
		return st.in.symVal(st, strings.TrimPrefix(o.Name, "*")+path, t)
	}
}

func (st *State) loadCell(o *Obj, path string, t types.Type) Val {
	switch x := under(t).(type) {
	case *types.Struct:
		if v, ok := st.heap[cell{o, path}]; ok {
			return v
		}
		var f []Val
		for i := 0; i < x.NumFields(); i++ {
			f = append(f, st.loadCell(o, path+"."+x.Field(i).Name(), x.Field(i).Type()))
		}
		return VStruct{t, f}
	case *types.Array:
		if isByte(x.Elem()) {
			break
		}
		if v, ok := st.heap[cell{o, path}]; ok {
			return v
		}
		var e []Val
		for i := int64(0); i < x.Len() && i < 1024; i++ {
			e = append(e, st.loadCell(o, fmt.Sprintf("%s[%d]", path, i), x.Elem()))
		}
		return VArray{t, e}
	}
	if v, ok := st.heap[cell{o, path}]; ok {
		return v
	}
	v := st.initCell(o, path, t)
	if o.Kind != OAlloc {
		st.heap[cell{o, path}] = v
	}
	return v
}

func (st *State) storeCell(o *Obj, path string, t types.Type, v Val) {
	switch x := under(t).(type) {
	case *types.Struct:
		if s, ok := v.(VStruct); ok && len(s.F) == x.NumFields() {
			delete(st.heap, cell{o, path})
			for i := 0; i < x.NumFields(); i++ {
				st.storeCell(o, path+"."+x.Field(i).Name(), x.Field(i).Type(), s.F[i])
			}
			return
		}
	case *types.Array:
		if a, ok := v.(VArray); ok && !isByte(x.Elem()) {
			delete(st.heap, cell{o, path})
			for i := range a.E {
				st.storeCell(o, fmt.Sprintf("%s[%d]", path, i), x.Elem(), a.E[i])
			}
			return
		}
	}
	st.heap[cell{o, path}] = v
}

// bytesOf gives the content of a byte array cell.
func (st *State) bytesOf(o *Obj, path string) VArr {
	if v, ok := st.heap[cell{o, path}].(VArr); ok {
		return v
	}
	// lazily
	t := o.Typ
	if ct := cellType(t, path); ct != nil {
		if _, isArr := under(ct).(*types.Array); isArr {
			v := st.loadCell(o, path, ct)
			if a, ok := v.(VArr); ok {
				return a
			}
		}
	}
	n := L1(st.u.Atom("size("+o.Name+path+")", KOpaque, 0, 1<<40))
	v := VArr{Content{SrcSeg(st.u.Seq(o.Name+path+st.gen[o]), K(0), n)}, n}
	st.heap[cell{o, path}] = v
	return v
}

// cellType resolves a path of field names and constant indices.
func cellType(t types.Type, path string) types.Type {
	for path != "" {
		if path[0] == '.' {
			s, ok := under(t).(*types.Struct)
			if !ok {
				return nil
			}
			rest := path[1:]
			end := strings.IndexAny(rest, ".[")
			name := rest
			if end >= 0 {
				name, path = rest[:end], rest[end:]
			} else {
				path = ""
			}
			found := false
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					t, found = s.Field(i).Type(), true
					break
				}
			}
			if !found {
				return nil
			}
			continue
		}
		if path[0] == '[' {
			end := strings.IndexByte(path, ']')
			switch x := under(t).(type) {
			case *types.Array:
				t = x.Elem()
			case *types.Slice:
				t = x.Elem()
			default:
				return nil
			}
			path = path[end+1:]
			continue
		}
		return nil
	}
	return t
}

func (st *State) sliceBytes(s VSlice) Content {
	if s.Obj == nil {
		return nil
	}
	a := st.bytesOf(s.Obj, s.Path)
	return st.flatten(st.cut(a.C, s.Off, s.Len))
}

func (st *State) writeBytes(s VSlice, off Lin, sub Content, n Lin) {
	a := st.bytesOf(s.Obj, s.Path)
	st.heap[cell{s.Obj, s.Path}] = VArr{st.write(a.C, s.Off.Add(off), sub, n), a.N}
}

func (st *State) havocObj(o *Obj, tag string) {
	for c := range st.heap {
		if c.o == o {
			delete(st.heap, c)
		}
	}
	st.gen[o] = "'" + st.u.Fresh(tag)
}
