package main

// Abstract numeric domain: hash-consed atoms, linear forms over atoms, and
// GF(2)-linear bit vectors.

import (
	"crypto/sha256"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

type AtomKind int

const (
	KOpaque AtomKind = iota // unknown integer / boolean / word
	KByte                   // byte of a sequence at an offset
	KBits                   // word given by its bits
	KWord                   // word of a linear form that has no simple bits
	KFold                   // accumulator of a loop over a byte sequence
	KIter                   // iteration counter of a loop
	KFloat
	KSigned // two's complement reading of the W-bit word Sub
)

// Atom is an unknown; equal keys give the same atom (value numbering).
type Atom struct {
	ID     int
	Key    string
	Kind   AtomKind
	Lo, Hi int64
	Seq    *Seq // KByte
	Off    Lin  // KByte
	Bits   []Bit
	Fold   *Fold
	Sub    Lin // KWord
	W      int
}

type Term struct {
	A *Atom
	C int64
}

// Lin is C + sum T.
type Lin struct {
	C int64
	T []Term
}

func K(c int64) Lin { return Lin{C: c} }

func (l Lin) IsConst() bool { return len(l.T) == 0 }

func (l Lin) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", l.C)
	for _, t := range l.T {
		fmt.Fprintf(&b, "%+d*#%d", t.C, t.A.ID)
	}
	return b.String()
}

func (l Lin) String() string {
	if len(l.T) == 0 {
		return fmt.Sprint(l.C)
	}
	var p []string
	for _, t := range l.T {
		switch t.C {
		case 1:
			p = append(p, "+"+t.A.Key)
		case -1:
			p = append(p, "-"+t.A.Key)
		default:
			p = append(p, fmt.Sprintf("%+d*%s", t.C, t.A.Key))
		}
	}
	if l.C != 0 {
		p = append(p, fmt.Sprintf("%+d", l.C))
	}
	return strings.TrimPrefix(strings.Join(p, ""), "+")
}

func (l Lin) Add(o Lin) Lin    { return l.AddMul(o, 1) }
func (l Lin) Sub(o Lin) Lin    { return l.AddMul(o, -1) }
func (l Lin) AddK(c int64) Lin { return Lin{C: l.C + c, T: l.T} }
func (l Lin) Neg() Lin         { return K(0).AddMul(l, -1) }
func (l Lin) Mul(c int64) Lin  { return K(0).AddMul(l, c) }
func (l Lin) Eq(o Lin) bool    { d := l.Sub(o); return d.IsConst() && d.C == 0 }
func (l Lin) Atom1() *Atom {
	if l.C == 0 && len(l.T) == 1 && l.T[0].C == 1 {
		return l.T[0].A
	}
	return nil
}

func (l Lin) AddMul(o Lin, m int64) Lin {
	r := Lin{C: l.C + m*o.C}
	if m == 0 || len(o.T) == 0 {
		r.T = l.T
		return r
	}
	i, j := 0, 0
	for i < len(l.T) || j < len(o.T) {
		switch {
		case j >= len(o.T) || i < len(l.T) && l.T[i].A.ID < o.T[j].A.ID:
			r.T = append(r.T, l.T[i])
			i++
		case i >= len(l.T) || o.T[j].A.ID < l.T[i].A.ID:
			r.T = append(r.T, Term{o.T[j].A, m * o.T[j].C})
			j++
		default:
			if c := l.T[i].C + m*o.T[j].C; c != 0 {
				r.T = append(r.T, Term{l.T[i].A, c})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) Coef(a *Atom) int64 {
	for _, t := range l.T {
		if t.A == a {
			return t.C
		}
	}
	return 0
}

// Subst replaces atom a by r.
func (l Lin) Subst(a *Atom, r Lin) Lin {
	c := l.Coef(a)
	if c == 0 {
		return l
	}
	return l.AddMul(Lin{T: []Term{{a, 1}}}, -c).AddMul(r, c)
}

// ---- interning -------------------------------------------------------

type Universe struct {
	atoms  map[string]*Atom
	seqs   map[string]*Seq
	n      int
	fresh  int
	size   int // of all names and words, in bytes
	keyBuf []byte
}

func NewUniverse() *Universe {
	return &Universe{atoms: map[string]*Atom{}, seqs: map[string]*Seq{}}
}

func (u *Universe) Atom(key string, kind AtomKind, lo, hi int64) *Atom {
	if a := u.atoms[key]; a != nil {
		if a.Kind == kind && (a.Lo != lo || a.Hi != hi) {
			// the same name for values of different types
			return u.Atom(fmt.Sprintf("%s:%d..%d", key, lo, hi), kind, lo, hi)
		}
		return a
	}
	u.n++
	u.size += len(key) + 100
	a := &Atom{ID: u.n, Key: key, Kind: kind, Lo: lo, Hi: hi}
	u.atoms[key] = a
	return a
}

func (u *Universe) Fresh(prefix string) string {
	u.fresh++
	return fmt.Sprintf("%s~%d", prefix, u.fresh)
}

func (u *Universe) Var(key string, lo, hi int64) Lin {
	return Lin{T: []Term{{u.Atom(key, KOpaque, lo, hi), 1}}}
}

func L1(a *Atom) Lin { return Lin{T: []Term{{a, 1}}} }

func (u *Universe) ByteAt(s *Seq, off Lin) Lin {
	a := u.Atom("byte("+s.Key+","+off.Key()+")", KByte, 0, 255)
	if a.Seq == nil {
		a.Seq, a.Off = s, off
		a.Key = "byte(" + s.Key + "," + off.Key() + ")"
	}
	return L1(a)
}

// ---- bits --------------------------------------------------------------

type BitAtom struct {
	A *Atom
	I int
}

// Bit is C xor (xor of X); X sorted.
type Bit struct {
	C bool
	X []BitAtom
}

func bitLess(a, b BitAtom) bool {
	if a.A.ID != b.A.ID {
		return a.A.ID < b.A.ID
	}
	return a.I < b.I
}

func (b Bit) Xor(o Bit) Bit {
	r := Bit{C: b.C != o.C}
	i, j := 0, 0
	for i < len(b.X) || j < len(o.X) {
		switch {
		case j >= len(o.X) || i < len(b.X) && bitLess(b.X[i], o.X[j]):
			r.X = append(r.X, b.X[i])
			i++
		case i >= len(b.X) || bitLess(o.X[j], b.X[i]):
			r.X = append(r.X, o.X[j])
			j++
		default:
			i++
			j++
		}
	}
	return r
}

func (b Bit) IsConst() bool { return len(b.X) == 0 }
func (b Bit) Zero() bool    { return len(b.X) == 0 && !b.C }

func (b Bit) Key() string { return string(b.appendKey(nil)) }

func (b Bit) appendKey(s []byte) []byte {
	if b.C {
		s = append(s, '1')
	} else {
		s = append(s, '0')
	}
	for _, x := range b.X {
		s = append(s, '^')
		s = strconv.AppendInt(s, int64(x.A.ID), 10)
		s = append(s, '.')
		s = strconv.AppendInt(s, int64(x.I), 10)
	}
	return s
}

func (u *Universe) BitAnd(a, b Bit) Bit {
	switch {
	case a.IsConst():
		if a.C {
			return b
		}
		return Bit{}
	case b.IsConst():
		return u.BitAnd(b, a)
	}
	ka, kb := a.Key(), b.Key()
	if ka == kb {
		return a
	}
	if ka > kb {
		ka, kb = kb, ka
	}
	at := u.Atom("and("+ka+","+kb+")", KOpaque, 0, 1)
	return Bit{X: []BitAtom{{at, 0}}}
}

func (u *Universe) BitOr(a, b Bit) Bit {
	// a|b = a ^ b ^ ab
	return a.Xor(b).Xor(u.BitAnd(a, b))
}

func bitWidth(hi int64) int {
	if hi < 0 {
		return 0
	}
	return bits.Len64(uint64(hi))
}

// BitsOf returns w bits of the two's complement of l.
func (u *Universe) BitsOf(l Lin, w int) []Bit {
	out := make([]Bit, w)
	if l.IsConst() {
		for i := 0; i < w && i < 64; i++ {
			out[i].C = (uint64(l.C)>>uint(i))&1 == 1
		}
		return out
	}
	if a := l.Atom1(); a != nil && a.Kind == KSigned {
		b := u.BitsOf(a.Sub, a.W)
		for i := range out {
			if i < len(b) {
				out[i] = b[i]
			} else {
				out[i] = b[len(b)-1]
			}
		}
		return out
	}
	ok := l.C >= 0
	used := make([]bool, 128)
	mark := func(i int) {
		if i >= 128 || used[i] {
			ok = false
			return
		}
		used[i] = true
	}
	put := func(i int, b Bit) {
		if i < w {
			out[i] = b
		}
	}
	if ok {
		for i := 0; i < 63; i++ {
			if l.C>>uint(i)&1 == 1 {
				mark(i)
				put(i, Bit{C: true})
			}
		}
	}
	for _, t := range l.T {
		if !ok {
			break
		}
		if t.C <= 0 || t.A.Lo < 0 || t.A.Hi == posInf && !(len(l.T) == 1 && t.C == 1 && l.C == 0) {
			ok = false
			break
		}
		// once for every bit of the factor, unless they overlap
		for k := t.C; k != 0 && ok; k &= k - 1 {
			sh := bits.TrailingZeros64(uint64(k))
			if t.A.Kind == KBits {
				for i, b := range t.A.Bits {
					if !b.Zero() {
						mark(sh + i)
						put(sh+i, b)
					}
				}
				continue
			}
			aw := bitWidth(t.A.Hi)
			if t.A.Hi == posInf {
				aw = 64 // an unsigned 64-bit word
			}
			for i := 0; i < aw; i++ {
				mark(sh + i)
				put(sh+i, Bit{X: []BitAtom{{t.A, i}}})
			}
		}
	}
	if ok {
		return out
	}
	a := u.Atom("word("+l.Key()+")", KWord, negInf, posInf)
	a.Sub = l
	out = make([]Bit, w)
	for i := range out {
		out[i] = Bit{X: []BitAtom{{a, i}}}
	}
	return out
}

// FromBits gives the canonical linear form of an unsigned word.
func (u *Universe) FromBits(bs []Bit) Lin {
	n := len(bs)
	for n > 0 && bs[n-1].Zero() {
		n--
	}
	bs = bs[:n]
	// split into runs: whole atoms, constants, rest
	res := K(0)
	var rest []Bit
	restBase := -1
	flush := func() {
		if restBase < 0 {
			return
		}
		r := rest
		for len(r) > 0 && r[len(r)-1].Zero() {
			r = r[:len(r)-1]
		}
		base := restBase
		for len(r) > 0 && r[0].Zero() {
			r = r[1:]
			base++
		}
		if len(r) > 0 {
			k := append(u.keyBuf[:0], "bits["...)
			for i, b := range r {
				if i > 0 {
					k = append(k, ',')
				}
				k = b.appendKey(k)
			}
			k = append(k, ']')
			u.keyBuf = k
			key := ""
			if len(k) <= 200 {
				key = string(k)
			} else {
				key = fmt.Sprintf("bits[%x]", sha256.Sum256(k))
			}
			hi := int64(posInf)
			if len(r) < 63 {
				hi = int64(1)<<uint(len(r)) - 1
			}
			a := u.Atom(key, KBits, 0, hi)
			if a.Bits == nil {
				a.Bits = append([]Bit(nil), r...)
				for _, b := range r {
					u.size += 32 + 16*len(b.X)
				}
			}
			if base < 63 {
				res = res.AddMul(L1(a), int64(1)<<uint(base))
			} else {
				res = res.Add(L1(u.Atom("shl("+a.Key+")", KOpaque, 0, posInf)))
			}
		}
		restBase, rest = -1, nil
	}
	for i := 0; i < n; {
		b := bs[i]
		if b.IsConst() {
			if b.C {
				if i < 63 {
					res.C += int64(1) << uint(i)
					flushIf(&restBase, flush)
					i++
					continue
				}
			} else {
				// zero: ends a run
				flushIf(&restBase, flush)
				i++
				continue
			}
		}
		if !b.C && len(b.X) == 1 && b.X[0].I == 0 {
			a := b.X[0].A
			w := bitWidth(a.Hi)
			if a.Hi == posInf {
				w = 64
			}
			if a.Kind != KBits && a.Kind != KWord && w > 0 && i+w <= n {
				whole := true
				for j := 0; j < w; j++ {
					c := bs[i+j]
					if c.C || len(c.X) != 1 || c.X[0].A != a || c.X[0].I != j {
						whole = false
						break
					}
				}
				if whole {
					flushIf(&restBase, flush)
					res = res.AddMul(L1(a), int64(1)<<uint(i))
					i += w
					continue
				}
			}
		}
		if restBase < 0 {
			restBase = i
		}
		rest = append(rest, b)
		i++
	}
	flush()
	return res
}

func flushIf(base *int, f func()) {
	if *base >= 0 {
		f()
	}
}

func sortTerms(t []Term) { sort.Slice(t, func(i, j int) bool { return t[i].A.ID < t[j].A.ID }) }
