package main

// Byte contents: what an array, a slice's memory or a string holds, as a list
// of segments taken from named byte sequences.

import (
	"fmt"
	"strings"
)

// Seq is a named byte sequence: unknown input, or (Comp) a composite of
// segments that could not be resolved at some offset.
type Seq struct {
	ID   int
	Key  string
	Comp Content
}

type SegKind int

const (
	SegZero SegKind = iota
	SegSrc
	SegVal
	SegFmt // formatted text of unknown length
	SegLit // literal text
)

type Seg struct {
	Kind SegKind
	Len  Lin
	Seq  *Seq
	Off  Lin
	Val  Lin
	Verb string
	Arg  Val
	Lit  string
}

type Content []Seg

func (u *Universe) Seq(key string) *Seq {
	if s := u.seqs[key]; s != nil {
		return s
	}
	u.n++
	s := &Seq{ID: u.n, Key: key}
	u.seqs[key] = s
	return s
}

func SrcSeg(s *Seq, off, n Lin) Seg { return Seg{Kind: SegSrc, Seq: s, Off: off, Len: n} }
func ZeroSeg(n Lin) Seg             { return Seg{Kind: SegZero, Len: n} }

func ValSeg(v Lin) Seg {
	if a := v.Atom1(); a != nil && a.Kind == KByte {
		return Seg{Kind: SegSrc, Seq: a.Seq, Off: a.Off, Len: K(1)}
	}
	if v.IsConst() && v.C == 0 {
		return ZeroSeg(K(1))
	}
	return Seg{Kind: SegVal, Val: v, Len: K(1)}
}

func ConstContent(s string) Content {
	if s == "" {
		return nil
	}
	return Content{{Kind: SegLit, Lit: s, Len: K(int64(len(s)))}}
}

func (g Seg) key() string {
	switch g.Kind {
	case SegZero:
		return "0"
	case SegSrc:
		return fmt.Sprintf("s%d@%s", g.Seq.ID, g.Off.Key())
	case SegVal:
		return "v" + g.Val.Key()
	case SegLit:
		return fmt.Sprintf("l%q", g.Lit)
	default:
		return "f" + g.Verb + ":" + valKey(g.Arg)
	}
}

func (g Seg) String() string {
	switch g.Kind {
	case SegZero:
		return "zero*" + g.Len.String()
	case SegSrc:
		return fmt.Sprintf("%s[%s..+%s]", g.Seq.Key, g.Off, g.Len)
	case SegVal:
		if g.Val.IsConst() {
			return fmt.Sprintf("%#x", g.Val.C)
		}
		return "byte{" + g.Val.String() + "}"
	case SegLit:
		return fmt.Sprintf("%q", g.Lit)
	default:
		return g.Verb + "<" + valKey(g.Arg) + ">"
	}
}

func (c Content) Key() string {
	var b strings.Builder
	for _, g := range c {
		b.WriteString(g.key())
		b.WriteByte('*')
		b.WriteString(g.Len.Key())
		b.WriteByte(';')
	}
	return b.String()
}

func (c Content) String() string {
	var p []string
	for _, g := range c {
		p = append(p, g.String())
	}
	return "[" + strings.Join(p, " ") + "]"
}

func (c Content) Len() Lin {
	n := K(0)
	for _, g := range c {
		n = n.Add(g.Len)
	}
	return n
}

// norm drops empty segments and merges neighbours.
func (st *State) norm(c Content) Content {
	var out Content
	for _, g := range c {
		if g.Len.IsConst() && g.Len.C == 0 {
			continue
		}
		if n := len(out); n > 0 {
			p := &out[n-1]
			if p.Kind == SegZero && g.Kind == SegZero {
				p.Len = p.Len.Add(g.Len)
				continue
			}
			if p.Kind == SegLit && g.Kind == SegLit {
				p.Lit += g.Lit
				p.Len = K(int64(len(p.Lit)))
				continue
			}
			if p.Kind == SegSrc && g.Kind == SegSrc && p.Seq == g.Seq && p.Off.Add(p.Len).Eq(g.Off) {
				p.Len = p.Len.Add(g.Len)
				continue
			}
		}
		out = append(out, g)
	}
	return out
}

// part of a segment, off and n relative to it.
func (u *Universe) part(g Seg, off, n Lin) Seg {
	r := g
	if g.Kind == SegLit {
		if off.IsConst() && n.IsConst() && off.C >= 0 && n.C >= 0 && off.C+n.C <= int64(len(g.Lit)) {
			r.Lit, r.Len = g.Lit[off.C:off.C+n.C], n
			return r
		}
		return SrcSeg(u.compSeq(Content{g}), off, n)
	}
	r.Len = n
	if g.Kind == SegSrc {
		r.Off = g.Off.Add(off)
	}
	return r
}

// compSeq names the bytes of c so that offset 0 of the result is offset
// `start` of c.
func (in *Universe) compSeq(c Content) *Seq {
	// the length of the last segment does not matter to readers within bounds
	k := "comp("
	for i, g := range c {
		k += g.key()
		if i < len(c)-1 {
			k += "*" + g.Len.Key() + ";"
		}
	}
	k += ")"
	s := in.Seq(k)
	if s.Comp == nil {
		s.Comp = append(Content(nil), c...)
		if n := len(c); n > 0 && (c[n-1].Kind == SegSrc || c[n-1].Kind == SegZero) {
			s.Comp[n-1].Len = K(1 << 40)
		}
	}
	return s
}

// cut returns bytes [off, off+n) of c.
func (st *State) cut(c Content, off, n Lin) Content {
	if n.IsConst() && n.C == 0 {
		return nil
	}
	end := off.Add(n)
	pos := K(0)
	var out Content
	i := 0
	for ; i < len(c); i++ {
		e := pos.Add(c[i].Len)
		if st.proveGe(off, e) { // segment ends before off
			pos = e
			continue
		}
		break
	}
	// c[i] is the first segment that may contain off
	first := i
	firstPos := pos
	if i < len(c) && st.proveGe(off, pos) && st.provable(off, pos.Add(c[i].Len)) {
		// starts in c[i] for certain (or is empty)
		skip := off.Sub(pos)
		for ; i < len(c); i++ {
			e := pos.Add(c[i].Len)
			if st.proveGe(e, end) {
				out = append(out, st.u.part(c[i], skip, end.Sub(pos).Sub(skip)))
				return st.norm(out)
			}
			if !st.proveGe(end, e) {
				break
			}
			out = append(out, st.u.part(c[i], skip, c[i].Len.Sub(skip)))
			skip = K(0)
			pos = e
		}
		if i >= len(c) {
			return st.norm(out)
		}
		// the end falls into an undecided place: keep what is certain, name
		// the rest
		last := i
		lp := pos
		for ; last < len(c); last++ {
			e := lp.Add(c[last].Len)
			if st.proveGe(e, end) {
				last++
				break
			}
			lp = e
		}
		rest := end.Sub(pos).Sub(skip)
		q := st.u.compSeq(c[i:last])
		out = append(out, SrcSeg(q, skip, rest))
		return st.norm(out)
	}
	last := first
	lp := firstPos
	for ; last < len(c); last++ {
		e := lp.Add(c[last].Len)
		if st.proveGe(e, end) {
			last++
			break
		}
		lp = e
	}
	if first >= last {
		if st.proveEq(n, K(0)) {
			return nil
		}
		return Content{SrcSeg(st.u.Seq("beyond("+c.Key()+")"), off, n)}
	}
	q := st.u.compSeq(c[first:last])
	return Content{SrcSeg(q, off.Sub(firstPos), n)}
}

// provable: a >= ... helper: off lies before e, or everything is empty
func (st *State) provable(off, e Lin) bool { return st.proveGe(e, off) }

// write replaces bytes [off, off+n) of c by sub.
func (st *State) write(c Content, off Lin, sub Content, n Lin) Content {
	total := c.Len()
	var out Content
	out = append(out, st.cut(c, K(0), off)...)
	out = append(out, sub...)
	tail := total.Sub(off).Sub(n)
	if !st.proveEq(tail, K(0)) {
		out = append(out, st.cut(c, off.Add(n), tail)...)
	}
	return st.norm(out)
}

// byteAt is the value of byte off of c.
func (st *State) byteAt(c Content, off Lin) Lin {
	r := st.cut(c, off, K(1))
	if len(r) == 1 {
		return st.segByte(r[0], K(0))
	}
	return st.u.ByteAt(st.u.compSeq(c), off)
}

func (st *State) segByte(g Seg, off Lin) Lin {
	switch g.Kind {
	case SegZero:
		return K(0)
	case SegVal:
		return g.Val
	case SegLit:
		if off.IsConst() && off.C >= 0 && off.C < int64(len(g.Lit)) {
			return K(int64(g.Lit[off.C]))
		}
		return st.u.ByteAt(st.u.compSeq(Content{g}), off)
	case SegSrc:
		o := g.Off.Add(off)
		if g.Seq.Comp != nil {
			// maybe decidable by now
			if r := st.cut(g.Seq.Comp, o, K(1)); len(r) == 1 && !(r[0].Kind == SegSrc && r[0].Seq.Comp != nil) {
				return st.segByte(r[0], K(0))
			} else if len(r) == 1 && r[0].Seq != g.Seq {
				return st.segByte(r[0], K(0))
			}
		}
		if st.rangeFact(g.Seq, o, o.AddK(1), true, 0) {
			return K(0)
		}
		return st.u.ByteAt(g.Seq, o)
	}
	return L1(st.u.Atom("fmtbyte("+g.key()+","+off.Key()+")", KOpaque, 0, 255))
}

// flatten resolves composite sources where possible.
func (st *State) flatten(c Content) Content {
	for i := 0; i < 4; i++ {
		again := false
		var out Content
		for _, g := range c {
			if g.Kind == SegSrc && g.Seq.Comp != nil {
				r := st.cut(g.Seq.Comp, g.Off, g.Len)
				if !(len(r) == 1 && r[0].Kind == SegSrc && r[0].Seq == g.Seq) {
					again = true
				}
				out = append(out, r...)
				continue
			}
			out = append(out, g)
		}
		c = st.norm(out)
		if !again {
			break
		}
	}
	return c
}

// contentEq proves that a and b hold the same n bytes.
func (st *State) contentEq(a, b Content, n Lin) bool {
	a, b = st.flatten(st.cut(a, K(0), n)), st.flatten(st.cut(b, K(0), n))
	return st.contentEq1(a, b, n, 0)
}

func (st *State) contentEq1(a, b Content, n Lin, depth int) bool {
	pop := func(c Content) Content {
		for len(c) > 0 && st.proveEq(c[0].Len, K(0)) {
			c = c[1:]
		}
		return c
	}
	for {
		a, b = pop(a), pop(b)
		if len(a) == 0 || len(b) == 0 {
			return len(a) == 0 && len(b) == 0 || st.proveEq(n, K(0))
		}
		var m Lin
		switch {
		case a[0].Len.Eq(b[0].Len):
			m = a[0].Len
		case st.proveGe(b[0].Len, a[0].Len):
			m = a[0].Len
		case st.proveGe(a[0].Len, b[0].Len):
			m = b[0].Len
		default:
			if len(a) == 1 && len(b) == 1 && st.proveEq(a[0].Len, b[0].Len) {
				m = a[0].Len
			} else {
				return false
			}
		}
		if !st.segEq(a[0], b[0], m) {
			return false
		}
		n = n.Sub(m)
		adv := func(c Content) Content {
			r := append(Content(nil), c...)
			r[0] = st.u.part(r[0], m, r[0].Len.Sub(m))
			return r
		}
		a, b = adv(a), adv(b)
	}
}

func (st *State) segEq(a, b Seg, n Lin) bool {
	if a.Kind > b.Kind {
		a, b = b, a
	}
	switch {
	case a.Kind == SegZero && b.Kind == SegZero:
		return true
	case a.Kind == SegZero && b.Kind == SegSrc:
		if st.rangeFact(b.Seq, b.Off, b.Off.Add(n), true, 0) {
			return true
		}
		return st.proveEq(n, K(1)) && st.proveEq(st.segByte(b, K(0)), K(0))
	case a.Kind == SegZero && b.Kind == SegVal:
		return st.proveEq(b.Val, K(0))
	case a.Kind == SegSrc && b.Kind == SegSrc:
		if a.Seq == b.Seq && st.proveEq(a.Off, b.Off) {
			return true
		}
		return st.proveEq(n, K(1)) && st.proveEq(st.segByte(a, K(0)), st.segByte(b, K(0)))
	case a.Kind == SegSrc && b.Kind == SegVal:
		return st.proveEq(st.segByte(a, K(0)), b.Val)
	case a.Kind == SegVal && b.Kind == SegVal:
		return st.proveEq(a.Val, b.Val)
	case b.Kind == SegLit:
		if !n.IsConst() {
			return a.key() == b.key()
		}
		for i := int64(0); i < n.C; i++ {
			if !st.proveEq(st.segByte(a, K(i)), st.segByte(b, K(i))) {
				return false
			}
		}
		return true
	case a.Kind == SegFmt && b.Kind == SegFmt:
		return a.key() == b.key()
	}
	return false
}

// constBytes gives the content as a Go string if all bytes are known.
func constBytes(c Content) (string, bool) {
	var b []byte
	for _, g := range c {
		switch g.Kind {
		case SegVal:
			if !g.Val.IsConst() {
				return "", false
			}
			b = append(b, byte(g.Val.C))
		case SegLit:
			b = append(b, g.Lit...)
		case SegZero:
			if !g.Len.IsConst() || g.Len.C > 1<<16 {
				return "", false
			}
			for i := int64(0); i < g.Len.C; i++ {
				b = append(b, 0)
			}
		default:
			return "", false
		}
	}
	return string(b), true
}
