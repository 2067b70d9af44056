package main

import "fmt"

// The checksum oracle: CRC-16/MCRF4XX, reflected polynomial 0x8408, bit by bit.

func crcStep(acc, in []Bit) []Bit {
	a := append([]Bit(nil), acc...)
	for i := 0; i < 8; i++ {
		a[i] = a[i].Xor(in[i])
	}
	for r := 0; r < 8; r++ {
		l := a[0]
		for i := 0; i < 15; i++ {
			a[i] = a[i+1]
		}
		a[15] = Bit{}
		for i := 0; i < 16; i++ {
			if 0x8408>>uint(i)&1 == 1 {
				a[i] = a[i].Xor(l)
			}
		}
	}
	return a
}

// crcUpd is one step over the placeholders of recogniseFold.
func (in *Interp) crcUpd() []Bit {
	pa := in.U.Atom("acc", KOpaque, 0, posInf)
	pb := in.U.Atom("in", KOpaque, 0, 255)
	a, b := make([]Bit, 16), make([]Bit, 8)
	for i := range a {
		a[i] = Bit{X: []BitAtom{{pa, i}}}
	}
	for i := range b {
		b[i] = Bit{X: []BitAtom{{pb, i}}}
	}
	return crcStep(a, b)
}

func foldStepKey(w int, upd []Bit) string {
	s := fmt.Sprintf("w%d", w)
	for _, u := range upd {
		s += "," + u.Key()
	}
	return s
}

func (in *Interp) isCRC(f *Fold) bool {
	return f.W == 16 && f.Step == foldStepKey(16, in.crcUpd())
}

// crcOf continues the checksum over content.
func (c *Ctx) crcOf(st *State, acc []Bit, ct Content) []Bit {
	in := c.In
	for _, g := range st.flatten(st.norm(ct)) {
		n := st.iterSubst(g.Len)
		switch {
		case n.IsConst():
			for i := int64(0); i < n.C; i++ {
				acc = crcStep(acc, in.U.BitsOf(st.segByte(g, K(i)), 8))
			}
		case g.Kind == SegZero:
			z := in.U.compSeq(Content{g})
			acc = c.foldBits(acc, z, K(0), n)
		default:
			seq, off := g.Seq, g.Off
			if g.Kind != SegSrc {
				seq, off = in.U.compSeq(Content{g}), K(0)
			}
			// the part that is there whatever the length is goes first
			if k := st.least(n); k > 0 && k <= 64 {
				for i := int64(0); i < k; i++ {
					acc = crcStep(acc, in.U.BitsOf(st.segByte(SrcSeg(seq, off, n), K(i)), 8))
				}
				off, n = off.AddK(k), n.AddK(-k)
			}
			acc = c.foldBits(acc, seq, off, n)
		}
	}
	return acc
}

func (c *Ctx) foldBits(acc []Bit, seq *Seq, off, n Lin) []Bit {
	upd := c.In.crcUpd()
	f := &Fold{W: 16, Step: foldStepKey(16, upd), Upd: upd, Init: c.In.U.FromBits(acc), Seq: seq, Off: off, N: n}
	return c.In.U.BitsOf(L1(c.In.foldAtom(f)), 16)
}

func crcInit() []Bit {
	a := make([]Bit, 16)
	for i := range a {
		a[i].C = true
	}
	return a
}

// expandBits replaces folds over composite contents by folds over their parts.
func (c *Ctx) expandBits(st *State, b []Bit, memo map[*Atom][]Bit) []Bit {
	out := make([]Bit, len(b))
	for i, x := range b {
		n := Bit{C: x.C}
		for _, y := range x.X {
			if y.A.Kind == KFold && y.A.Fold != nil && c.In.isCRC(y.A.Fold) {
				e, ok := memo[y.A]
				if !ok {
					f := y.A.Fold
					init := c.expandBits(st, c.In.U.BitsOf(f.Init, 16), memo)
					e = c.crcOf(st, init, Content{SrcSeg(f.Seq, f.Off, f.N)})
					memo[y.A] = e
				}
				n = n.Xor(e[y.I])
				continue
			}
			if y.A.Kind == KByte && y.A.Seq.Comp != nil && y.I < 8 {
				if r := st.refresh(L1(y.A), 0); !r.Eq(L1(y.A)) {
					n = n.Xor(c.In.U.BitsOf(r, 8)[y.I])
					continue
				}
			}
			n = n.Xor(Bit{X: []BitAtom{y}})
		}
		out[i] = n
	}
	return out
}

func (c *Ctx) expandLin(st *State, l Lin) Lin {
	r := K(l.C)
	memo := map[*Atom][]Bit{}
	for _, t := range l.T {
		switch t.A.Kind {
		case KFold, KBits:
			w := 64
			if t.A.Kind == KFold && t.A.Fold != nil {
				w = t.A.Fold.W
			} else {
				w = len(t.A.Bits)
			}
			r = r.AddMul(c.In.U.FromBits(c.expandBits(st, c.In.U.BitsOf(L1(t.A), w), memo)), t.C)
		default:
			r = r.AddMul(L1(t.A), t.C)
		}
	}
	return r
}

// expandState restates the facts about checksums in expanded form; false: the
// facts contradict each other.
func (c *Ctx) expandState(st *State) bool {
	has := func(l Lin) bool {
		for _, t := range l.T {
			if t.A.Kind == KFold || t.A.Kind == KBits {
				return true
			}
		}
		return false
	}
	for _, f := range append([]Lin(nil), st.facts...) {
		if has(f) {
			if e := st.refresh(c.expandLin(st, f), 0); !e.Eq(f) && !st.addGe(e) {
				return false
			}
		}
	}
	for _, f := range append([]Lin(nil), st.nes...) {
		if has(f) {
			if e := st.refresh(c.expandLin(st, f), 0); !e.Eq(f) && !st.addNe(e) {
				return false
			}
		}
	}
	for a, v := range st.lo {
		if a.Kind == KFold || a.Kind == KBits {
			if e := st.refresh(c.expandLin(st, L1(a)), 0); !e.Eq(L1(a)) && !st.addGe(e.AddK(-v)) {
				return false
			}
		}
	}
	for a, v := range st.hi {
		if a.Kind == KFold || a.Kind == KBits {
			if e := st.refresh(c.expandLin(st, L1(a)), 0); !e.Eq(L1(a)) && !st.addGe(K(v).Sub(e)) {
				return false
			}
		}
	}
	return true
}

// sameWord decides whether two w-bit words are equal in st.
func (c *Ctx) sameWord(st *State, a, b []Bit) (eq, ne bool) {
	u := c.In.U
	la, lb := u.FromBits(a), u.FromBits(b)
	d := la.Sub(lb)
	if st.proveEq(d, K(0)) {
		return true, false
	}
	if st.proveNe(d) {
		return false, true
	}
	x := make([]Bit, len(a))
	for i := range x {
		x[i] = st.trimBit(a[i].Xor(b[i]))
	}
	lx := u.FromBits(x)
	if st.proveEq(lx, K(0)) {
		return true, false
	}
	if st.proveNe(lx) {
		return false, true
	}
	// byte by byte
	eq = true
	for i := 0; i < len(a); i += 8 {
		d := u.FromBits(a[i : i+8]).Sub(u.FromBits(b[i : i+8]))
		e := st.proveEq(d, K(0)) || st.proveEq(u.FromBits(x[i:i+8]), K(0))
		if st.proveNe(d) || st.proveNe(u.FromBits(x[i:i+8])) {
			return false, true
		}
		eq = eq && e
	}
	return eq, false
}

// iterSubst replaces iteration counters by what they are known to equal.
func (st *State) iterSubst(l Lin) Lin {
	l = substConst(st, l)
	for i := 0; i < 4; i++ {
		done := true
		for _, t := range l.T {
			if t.A.Kind != KIter {
				continue
			}
			if v, ok := st.hi[t.A]; ok && st.prove(L1(t.A).AddK(-v)) {
				l = substConst(st, l.Subst(t.A, K(v)))
				done = false
				break
			}
			for _, f := range st.facts {
				k := f.Coef(t.A)
				if k != 1 && k != -1 || !st.prove(f.Neg()) {
					continue
				}
				// f = k*a + r == 0
				r := f.AddMul(L1(t.A), -k)
				older := true
				for _, x := range r.T {
					older = older && (x.A.Kind != KIter || x.A.ID < t.A.ID)
				}
				if !older {
					continue
				}
				l = substConst(st, l.Subst(t.A, r.Mul(-k)))
				done = false
				break
			}
			if !done {
				break
			}
		}
		if done {
			break
		}
	}
	return substConst(st, l)
}
