package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type (
	VInt   struct{ L Lin }
	VBool  struct{ C Cond }
	VFloat struct {
		K string
		I *Lin // set if the value is this integer
	}
	VStr struct {
		C Content
		N Lin
	}
	VSlice struct {
		Obj           *Obj // nil: nil slice
		Path          string
		Off, Len, Cap Lin
		Elem          types.Type
	}
	VPtr struct {
		Obj  *Obj // nil: nil pointer
		Path string
		Idx  *Lin // byte of a byte array
	}
	VIface struct {
		Dyn  types.Type // concrete
		V    Val
		Atom string // unknown
		Typ  types.Type
	}
	VFunc struct {
		Fn   *ssa.Function
		Bind []Val
		Atom string
	}
	VMap    struct{ Obj *Obj }
	VChan   struct{ Key string }
	VStruct struct {
		T types.Type
		F []Val
	}
	VArr struct { // array of bytes
		C Content
		N Lin
	}
	VArray struct {
		T types.Type
		E []Val
	}
	VTuple struct{ E []Val }
	VOpq   struct{ K string }
)

type Obj struct {
	ID   int
	Kind ObjKind
	Name string
	Typ  types.Type
	Site ssa.Instruction
	Glob *ssa.Global
	// allocated by the analysed code before the part that is looked at
	Shared bool
}

// Seen: accesses are recorded.
func (o *Obj) Seen() bool { return o.Kind != OAlloc || o.Shared }

type ObjKind int

const (
	OAlloc ObjKind = iota // zeroed, allocated by the analysed code
	OSym                  // unknown content that existed before
	OGlobal
)

func (o *Obj) String() string { return o.Name }

// ---- conditions --------------------------------------------------------

type CondOp int

const (
	CConst CondOp = iota
	CGe           // L >= 0
	CEq           // L == 0
	CIs           // A identical to B
	CType         // dynamic type of A is (or implements) T
)

type Cond struct {
	Op  CondOp
	Neg bool
	L   Lin
	A   Val
	B   Val
	T   types.Type
}

func CTrue() Cond  { return Cond{Op: CConst} }
func CFalse() Cond { return Cond{Op: CConst, Neg: true} }
func CB(b bool) Cond {
	return Cond{Op: CConst, Neg: !b}
}
func Ge(l Lin) Cond {
	if l.IsConst() {
		return CB(l.C >= 0)
	}
	return Cond{Op: CGe, L: l}
}
func Eq0(l Lin) Cond {
	if l.IsConst() {
		return CB(l.C == 0)
	}
	return Cond{Op: CEq, L: l}
}
func (c Cond) Not() Cond {
	if c.Op == CGe {
		return Ge(c.L.Neg().AddK(-1))
	}
	c.Neg = !c.Neg
	return c
}

func (c Cond) Key() string {
	s := ""
	switch c.Op {
	case CConst:
		if c.Neg {
			return "false"
		}
		return "true"
	case CGe:
		s = "ge(" + c.L.Key() + ")"
	case CEq:
		l := c.L
		if len(l.T) > 0 && l.T[0].C < 0 {
			l = l.Neg()
		}
		s = "eq(" + l.Key() + ")"
	case CIs:
		a, b := valKey(c.A), valKey(c.B)
		if a > b {
			a, b = b, a
		}
		s = "is(" + a + "," + b + ")"
	case CType:
		s = "type(" + valKey(c.A) + "," + c.T.String() + ")"
	}
	if c.Neg {
		return "!" + s
	}
	return s
}

// ---- keys ----------------------------------------------------------------

func valKey(v Val) string {
	switch v := v.(type) {
	case nil:
		return "none"
	case VInt:
		return "i:" + v.L.Key()
	case VBool:
		return "b:" + v.C.Key()
	case VFloat:
		if v.I != nil {
			return "fi:" + v.I.Key()
		}
		return "f:" + v.K
	case VStr:
		return "str:" + v.C.Key()
	case VSlice:
		if v.Obj == nil {
			return "nilslice"
		}
		return fmt.Sprintf("slice(o%d%s,%s,%s,%s)", v.Obj.ID, v.Path, v.Off.Key(), v.Len.Key(), v.Cap.Key())
	case VPtr:
		if v.Obj == nil {
			return "nilptr"
		}
		if v.Idx != nil {
			return fmt.Sprintf("ptr(o%d%s+%s)", v.Obj.ID, v.Path, v.Idx.Key())
		}
		return fmt.Sprintf("ptr(o%d%s)", v.Obj.ID, v.Path)
	case VIface:
		if v.Dyn != nil {
			return "if(" + types.TypeString(v.Dyn, nil) + "," + valKey(v.V) + ")"
		}
		if v.Atom != "" {
			return "ifatom(" + v.Atom + ")"
		}
		return "nil"
	case VFunc:
		if v.Fn != nil {
			s := "fn(" + v.Fn.String()
			for _, b := range v.Bind {
				s += "," + valKey(b)
			}
			return s + ")"
		}
		if v.Atom == "" {
			return "nilfunc"
		}
		return "fnatom(" + v.Atom + ")"
	case VMap:
		if v.Obj == nil {
			return "nilmap"
		}
		return fmt.Sprintf("map(o%d)", v.Obj.ID)
	case VChan:
		return "chan(" + v.Key + ")"
	case VStruct:
		return "struct{" + valKeys(v.F) + "}"
	case VArr:
		return "arr(" + v.C.Key() + ")"
	case VArray:
		return "array{" + valKeys(v.E) + "}"
	case VTuple:
		return "tuple{" + valKeys(v.E) + "}"
	case VOpq:
		return "opq(" + v.K + ")"
	}
	if m, ok := v.(*MapVal); ok {
		return fmt.Sprintf("mapval{%v,%s,%s;%s}", m.Unknown, m.Gen, valKeys(m.K), valKeys(m.V))
	}
	panic(fmt.Sprintf("valKey of %T", v))
}

func valKeys(vs []Val) string {
	var p []string
	for _, v := range vs {
		p = append(p, valKey(v))
	}
	return strings.Join(p, ",")
}

// valString is for reports.
func valString(v Val) string {
	switch v := v.(type) {
	case VInt:
		return v.L.String()
	case VStr:
		return v.C.String()
	case VArr:
		return v.C.String()
	case VSlice:
		if v.Obj == nil {
			return "nil"
		}
		return fmt.Sprintf("%s%s[%s:+%s]", v.Obj.Name, v.Path, v.Off, v.Len)
	case VPtr:
		if v.Obj == nil {
			return "nil"
		}
		return "&" + v.Obj.Name + v.Path
	case VIface:
		if v.Dyn != nil {
			return valString(v.V)
		}
		if v.Atom != "" {
			return v.Atom
		}
		return "nil"
	case VStruct:
		var p []string
		for _, f := range v.F {
			p = append(p, valString(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case VOpq:
		return v.K
	case VFloat:
		return v.K
	}
	return valKey(v)
}

func isNilVal(v Val) (bool, bool) { // (is nil, known)
	switch v := v.(type) {
	case VSlice:
		return v.Obj == nil, true
	case VPtr:
		return v.Obj == nil, true
	case VIface:
		if v.Atom != "" {
			return false, false
		}
		return v.Dyn == nil, true
	case VFunc:
		if v.Fn != nil {
			return false, true
		}
		return v.Atom == "", v.Atom == ""
	case VMap:
		return v.Obj == nil, true
	case VChan:
		return v.Key == "", true
	}
	return false, false
}

// ---- type helpers --------------------------------------------------------

func under(t types.Type) types.Type { return t.Underlying() }

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// intInfo gives width in bits and signedness.
func (in *Interp) intInfo(t types.Type) (int, bool) {
	b := under(t).(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64:
		return 64, true
	case types.Int, types.UntypedInt:
		return in.WordBits, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64:
		return 64, false
	case types.Uint, types.Uintptr:
		return in.WordBits, false
	}
	return 64, true
}

func rangeOf(w int, signed bool) (int64, int64) {
	if signed {
		if w >= 64 {
			return negInf, posInf
		}
		return -(int64(1) << uint(w-1)), int64(1)<<uint(w-1) - 1
	}
	if w >= 63 {
		return 0, posInf
	}
	return 0, int64(1)<<uint(w) - 1
}

// intAtom is an unknown value of type int.
func (in *Interp) intAtom(key string) *Atom {
	lo, hi := rangeOf(in.WordBits, true)
	return in.U.Atom(key, KOpaque, lo, hi)
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func newPtr(t types.Type) types.Type { return types.NewPointer(t) }
