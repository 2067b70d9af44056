package main

import (
	"fmt"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Ob is one obligation: a rule applied to one construct.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

func (o Ob) Key() string { return o.Rule + " @ " + o.Construct }

// Ctx collects the obligations of one property.
type Ctx struct {
	R       *Repo
	In      *Interp
	Prop    string
	Tier    string
	Obs     []Ob
	seen    map[string]int
	Funcs   map[string]bool
	Paths   int
	Steps   int
	Calls   int
	Forks   int
	Notes   map[string]int
	Samples []string
	// index of the run in progress
	fn *ssa.Function
}

func NewCtx(r *Repo, in *Interp, prop, tier string) *Ctx {
	return &Ctx{R: r, In: in, Prop: prop, Tier: tier, seen: map[string]int{}, Funcs: map[string]bool{}, Notes: map[string]int{}}
}

// ob records an obligation; a failure of the same key wins.
func (c *Ctx) ob(ok bool, rule, construct, pos, detail string, a ...interface{}) bool {
	d := ""
	if c.Prop == "C37" && !endRules[rule] {
		return ok
	}
	if !ok {
		d = fmt.Sprintf(detail, a...)
		if len(d) > 1500 {
			d = d[:1500] + "…"
		}
	}
	o := Ob{rule, construct, pos, ok, d}
	if i, have := c.seen[o.Key()]; have {
		if c.Obs[i].OK && !ok {
			c.Obs[i] = o
		}
		return ok
	}
	c.seen[o.Key()] = len(c.Obs)
	c.Obs = append(c.Obs, o)
	return ok
}

func (c *Ctx) merge(o *Ctx) {
	for _, b := range o.Obs {
		if i, have := c.seen[b.Key()]; have {
			if c.Obs[i].OK && !b.OK {
				c.Obs[i] = b
			}
			continue
		}
		c.seen[b.Key()] = len(c.Obs)
		c.Obs = append(c.Obs, b)
	}
	for f := range o.Funcs {
		c.Funcs[f] = true
	}
	c.Paths += o.Paths
	c.Steps += o.Steps
	c.Calls += o.Calls
	c.Forks += o.Forks
	for k, v := range o.Notes {
		c.Notes[k] += v
	}
	if len(c.Samples) < 40 {
		c.Samples = append(c.Samples, o.Samples...)
	}
}

func (c *Ctx) note(k string, n int) { c.Notes[k] += n }

func (c *Ctx) pos(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return c.In.pos(fn.Pos())
}

// run analyses fn; everything the engine could not decide is a failed
// obligation of this property.
func (c *Ctx) run(fn *ssa.Function, args []Val, st *State) (outs []Outcome, ok bool) {
	name := fn.RelString(nil)
	short := c.short(name)
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 1500)
			buf = buf[:runtime.Stack(buf, false)]
			c.ob(false, "analysable", short, c.pos(fn), "analysis failed: %v %s", r, buf)
			outs, ok = nil, false
		}
	}()
	in := c.In
	in.steps = 0
	before := map[*ssa.Function]int{}
	for f, n := range in.Seen {
		before[f] = n
	}
	calls, forks := in.Calls, in.Forks
	outs = in.Call(fn, args, nil, st, nil, nil)
	for f, n := range in.Seen {
		if n != before[f] {
			c.Funcs[f.RelString(nil)] = true
		}
	}
	c.Calls += in.Calls - calls
	c.Forks += in.Forks - forks
	c.Steps += in.steps
	c.Paths += len(outs)
	ok = true
	var und []string
	for k, v := range in.Undecided {
		und = append(und, k+" ("+v+")")
	}
	sort.Strings(und)
	if len(und) > 0 {
		ok = false
		c.ob(false, "analysable", short, c.pos(fn), "the analysis cannot decide: %s", strings.Join(und, "; "))
	}
	c.endless(short, c.pos(fn), outs, ok)
	if len(outs) == 0 {
		ok = false
		c.ob(false, "analysable", short, c.pos(fn), "no path reaches the end")
	}
	if ok {
		c.ob(true, "analysable", short, c.pos(fn), "")
	}
	return outs, ok
}

func (c *Ctx) short(s string) string {
	s = strings.ReplaceAll(s, c.R.Mod+"/", "")
	return strings.ReplaceAll(s, c.R.Mod+".", "")
}

// panics of outcomes are violations of rule.
func (c *Ctx) noPanic(rule, construct string, outs []Outcome) bool {
	ok := true
	for _, o := range outs {
		if o.Panic {
			ok = false
			m, p := "panic", ""
			if o.St.panicV != nil {
				m, p = o.St.panicV.Msg, c.In.pos(o.St.panicV.Pos)
			}
			c.ob(false, rule, construct, p, "may panic: %s [%s]", m, c.short(o.St.pathString()))
		}
	}
	if ok {
		c.ob(true, rule, construct, "", "")
	}
	return ok
}

// pathString describes the facts of a path, for reports.
func (st *State) pathString() string {
	var p []string
	for a, v := range st.lo {
		if h, ok := st.hi[a]; ok && h == v {
			p = append(p, fmt.Sprintf("%s == %d", a.Key, v))
			continue
		}
		p = append(p, fmt.Sprintf("%s >= %d", a.Key, v))
	}
	for a, v := range st.hi {
		if l, ok := st.lo[a]; ok && l == v {
			continue
		}
		p = append(p, fmt.Sprintf("%s <= %d", a.Key, v))
	}
	for _, f := range st.facts {
		p = append(p, f.String()+" >= 0")
	}
	for _, f := range st.nes {
		p = append(p, f.String()+" != 0")
	}
	for k, f := range st.ifs {
		if f.known != nil {
			p = append(p, k+" = "+valString(f.known))
		}
		for _, n := range sortedKeys(f.ne) {
			p = append(p, k+" != "+n)
		}
	}
	sort.Strings(p)
	if len(p) > 14 {
		p = append(p[:14], "…")
	}
	return strings.Join(p, ", ")
}

// ---- helpers -------------------------------------------------------------

func (r *Repo) typ(pkg, name string) *types.Named {
	p := r.SSA[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (r *Repo) pkgPath(dir string) string {
	if dir == "" || dir == "." {
		return r.Mod
	}
	return r.Mod + "/" + dir
}

// method finds the declared method of T or *T.
func (r *Repo) method(t types.Type, name string) *ssa.Function {
	for _, x := range []types.Type{newPtr(t), t} {
		ms := r.Prog.MethodSets.MethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return r.Prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// errOf classifies an error result: "nil", "err" (certainly not nil) or "?".
func errClass(st *State, v Val) string {
	v = st.resolve(v)
	i, ok := v.(VIface)
	if !ok {
		return "?"
	}
	if isNil, known := isNilVal(i); known {
		if isNil {
			return "nil"
		}
		return "err"
	}
	if b, known := st.decide(Cond{Op: CIs, A: i, B: VIface{Typ: i.Typ}}); known {
		if b {
			return "nil"
		}
		return "err"
	}
	return "?"
}

func errName(st *State, v Val) string {
	v = st.resolve(v)
	s := valString(v)
	return strings.TrimPrefix(s, "err:")
}

// cellsUnchanged reports the cells of o that differ from their initial value.
func (st *State) changedCells(o *Obj) []string {
	var r []string
	for c, v := range st.heap {
		if c.o != o {
			continue
		}
		if st.in.unchangedCell(st, c, v) {
			continue
		}
		r = append(r, o.Name+c.path+" = "+valString(v))
	}
	if g := st.gen[o]; g != "" {
		r = append(r, o.Name+" (unknown writes"+g+")")
	}
	sort.Strings(r)
	return r
}

func (in *Interp) unchangedCell(st *State, c cell, v Val) bool {
	if strings.HasPrefix(c.path, "#") {
		return true
	}
	if c.o.Kind == OGlobal {
		t := cellType(c.o.Typ, c.path)
		if t == nil {
			return true
		}
		w, ok := in.globalCell(c.o, c.path, t)
		return ok && valKey(w) == valKey(v)
	}
	fresh := in.NewState()
	t := cellType(c.o.Typ, c.path)
	if c.path == "" {
		// slices: the memory
		if _, ok := under(c.o.Typ).(*types.Slice); ok {
			w := in.symVal(fresh, strings.TrimPrefix(c.o.Name, "*"), c.o.Typ)
			_ = w
			if m, ok := fresh.heap[cell{c.o, ""}]; ok {
				return valKey(m) == valKey(v)
			}
			return false
		}
	}
	if t == nil {
		return false
	}
	return valKey(fresh.loadCell(c.o, c.path, t)) == valKey(v) || st.valEq(fresh.loadCell(c.o, c.path, t), v)
}

// parallel runs f for n items on several interpreters.
func (c *Ctx) parallel(n int, f func(c *Ctx, i int)) {
	workers := runtime.NumCPU()
	if workers > n {
		workers = n
	}
	if workers < 1 {
		return
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	res := make([]*Ctx, n)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := c.R.interp()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= n {
					return
				}
				if in.U.size > 64<<20 {
					// names are never forgotten: start over
					in = c.R.interp()
				}
				in.reset()
				cc := NewCtx(c.R, in, c.Prop, c.Tier)
				func() {
					defer func() {
						if r := recover(); r != nil {
							buf := make([]byte, 1500)
							buf = buf[:runtime.Stack(buf, false)]
							cc.ob(false, "analysable", fmt.Sprintf("item %d", i), "", "analysis failed: %v %s", r, buf)
						}
					}()
					f(cc, i)
				}()
				res[i] = cc
			}
		}()
	}
	wg.Wait()
	for _, r := range res {
		c.merge(r)
	}
}

// interp makes an interpreter with the globals as initialised.
func (r *Repo) interp() *Interp {
	in := NewInterp(r.Prog, r.Mod)
	if r.Arch == "386" {
		in.WordBits = 32
	}
	in.initialise(r)
	return in
}

// valMethod finds a method with a value receiver.
func (r *Repo) valMethod(t types.Type, name string) *ssa.Function {
	ms := r.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return r.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}
