package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the UDP transport. The states of a transport are followed from
// its construction: before any packet (no peer), and after a packet from a
// symbolic sender (that peer). Every operation is interpreted from both; the
// operations must lead back to one of the two, so that the rules hold for
// every history.

type udp struct {
	c       *Ctx
	recv    VPtr
	shared  map[*Obj]bool
	conn    VIface
	fresh   *State
	methods map[string]*ssa.Function
	addrT   types.Type
	accs    []access
	nAddr   int
	ctorEvs []*Event
}

const udpPkg = "util"

// newUDP interprets the constructor; one result per successful outcome.
func (c *Ctx) newUDP() []*udp {
	in := c.In
	pkg := c.R.Mod + "/" + udpPkg
	p := c.R.SSA[pkg]
	var fn *ssa.Function
	if p != nil {
		fn = p.Func("NewUDPReadWriteCloser")
	}
	if !c.ob(fn != nil, "the constructor exists", "NewUDPReadWriteCloser", "", "no function NewUDPReadWriteCloser") {
		return nil
	}
	u := &udp{c: c, methods: map[string]*ssa.Function{}}
	for _, p := range c.R.Prog.AllPackages() {
		if p.Pkg.Path() == "net" {
			if o := p.Pkg.Scope().Lookup("UDPAddr"); o != nil {
				u.addrT = o.Type()
			}
		}
	}
	in.reset()
	u.models()
	var us []*udp
	st := in.NewState()
	var args []Val
	for _, q := range fn.Params {
		args = append(args, in.symVal(st, q.Name(), q.Type()))
	}
	outs, ok := c.run(fn, args, st)
	if !ok || !c.noPanic("constructing never panics", "NewUDPReadWriteCloser", outs) {
		return nil
	}
	where := "NewUDPReadWriteCloser"
	for _, o := range outs {
		s := o.St
		var listens []*Event
		for _, e := range s.Events() {
			if e.Kind == "listen" {
				listens = append(listens, e)
			}
		}
		if !c.ob(len(listens) == 1, "constructing opens one socket", where, c.pos(fn), "it opens %d [%s]", len(listens), c.short(s.pathString())) || len(o.Rets) != 2 {
			continue
		}
		l := listens[0]
		nw := ""
		if v, isS := l.Args[0].(VStr); isS {
			nw, _ = constBytes(v.C)
		}
		c.ob(strings.HasPrefix(nw, "udp"), "the socket is a UDP socket", where, in.pos(l.Pos), "the network is %s", valString(l.Args[0]))
		if c.Prop == "C40" {
			c.ob(nw == "udp", "the socket takes any version of IP", where, in.pos(l.Pos), "the network is %s", valString(l.Args[0]))
			if c.ob(len(args) == 2, "the constructor takes an address and a port", where, c.pos(fn), "it takes %d arguments", len(args)) {
				c.socketAddress(s, l, args[0], args[1], where)
			}
		}
		tr, isP := s.resolve(o.Rets[0]).(VPtr)
		nilTr := isP && tr.Obj == nil
		if errClass(s, l.Res[1]) == "err" {
			c.ob(nilTr, "a failing socket yields no transport", where, in.pos(l.Pos), "the transport is %s", valString(o.Rets[0]))
			c.ob(s.valEq(s.resolve(o.Rets[1]), s.resolve(l.Res[1])), "constructing reports the socket's error", where, in.pos(l.Pos), "the error is %s", valString(o.Rets[1]))
			continue
		}
		if !c.ob(errClass(s, l.Res[1]) == "nil", "constructing reports the socket's error", where, in.pos(l.Pos), "the error is not looked at") {
			continue
		}
		c.ob(errClass(s, o.Rets[1]) == "nil", "constructing succeeds if the socket could be opened", where, in.pos(l.Pos), "the error is %s", valString(o.Rets[1]))
		if !c.ob(isP && !nilTr, "constructing succeeds if the socket could be opened", where, in.pos(l.Pos), "the transport is %s", valString(o.Rets[0])) {
			continue
		}
		us = append(us, &udp{c: c, methods: u.methods, addrT: u.addrT, shared: map[*Obj]bool{}, recv: tr, fresh: s, conn: l.Res[0].(VIface)})
	}
	if !c.ob(len(us) > 0 && len(us) <= 8, "constructing has few good outcomes", where, c.pos(fn), "there are %d", len(us)) {
		return nil
	}
	t := deref(fn.Signature.Results().At(0).Type())
	for _, m := range []string{"Read", "Write", "Close"} {
		f := c.R.method(t, m)
		if !c.ob(f != nil, "the method exists", "UDPReadWriteCloser."+m, c.pos(fn), "no method %s", m) {
			return nil
		}
		u.methods[m] = f
	}
	for _, u := range us {
		u.ctorEvs = u.fresh.Events()
		u.fresh.ev = nil
		r := &stream{shared: u.shared, base: u.fresh}
		r.reach(u.recv)
		for o := range u.shared {
			o.Shared = true
		}
	}
	return us
}

func (u *udp) models() {
	in := u.c.In
	in.invokeModels["net.PacketConn.ReadFrom"] = func(in *Interp, fr *Frame, ps *PS, name string, args []Val, sig *types.Signature, site ssa.Instruction) ([]CallRes, bool) {
		var out []CallRes
		for _, failed := range []bool{false, true} {
			st := ps.st.Clone()
			nm := in.U.Fresh("readfrom")
			n := in.symVal(st, nm+".n", types.Typ[types.Int])
			addrT := sig.Results().At(1).Type()
			err := VIface{Typ: errIface}
			addr := VIface{Atom: nm + ".addr", Typ: addrT}
			if failed {
				err = VIface{Atom: nm + ".err", Typ: errIface}
				st.setIf(err.Atom, func(f *ifFact) { f.ne["nil"] = true })
			} else {
				addr = u.address(st, nm)
				addr.Typ = addrT
			}
			res := []Val{n, addr, err}
			st.Event(&Event{Kind: "readfrom", Name: name, Pos: site.Pos(), Fn: fr.fn, Recv: args[0], Args: args[1:], Res: res, Block: true, Stack: fr.stack()})
			out = append(out, CallRes{st: st, v: VTuple{res}})
		}
		return out, true
	}
}

// address: a symbolic address of a sender.
func (u *udp) address(st *State, name string) VIface {
	in := u.c.In
	if u.addrT == nil {
		return VIface{Atom: name}
	}
	o := in.newObj(OAlloc, name+".udpaddr", u.addrT, nil)
	p := VPtr{Obj: o}
	if t, ok := under(u.addrT).(*types.Struct); ok {
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			st.storeCell(o, "."+f.Name(), f.Type(), in.symVal(st, name+"."+f.Name(), f.Type()))
		}
	}
	return VIface{Dyn: types.NewPointer(u.addrT), V: p}
}

// step interprets an operation in a state.
func (u *udp) step(m string, st *State) ([]Outcome, VSlice, bool) {
	c, in := u.c, u.c.In
	in.Undecided = map[string]string{}
	s := st.Clone()
	s.ev = nil
	args := []Val{u.recv}
	var p VSlice
	if m != "Close" {
		p = in.symVal(s, "p", sliceOfBytes).(VSlice)
		args = append(args, p)
	}
	outs, ok := c.run(u.methods[m], args, s)
	if !ok || !c.noPanic("the transport never panics", "UDPReadWriteCloser."+m, outs) {
		return nil, p, false
	}
	var sts []*State
	for _, o := range outs {
		sts = append(sts, o.St)
		u.accs = append(u.accs, accesses(m, true, o.St.Events(), u.shared, func(e *Event) string { return in.pos(e.Pos) })...)
	}
	if c.Prop == "C23" {
		c.lockRules("UDPReadWriteCloser."+m, outs, sts, u.methods[m])
	}
	return outs, p, true
}

// same: the transport is in the same state.
func (u *udp) same(s, t *State) string {
	var cells []cell
	for cl := range s.heap {
		if u.shared[cl.o] {
			cells = append(cells, cl)
		}
	}
	for cl := range t.heap {
		if _, ok := s.heap[cl]; !ok && u.shared[cl.o] {
			cells = append(cells, cl)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].path < cells[j].path })
	for _, cl := range cells {
		ty := cellType(cl.o.Typ, cl.path)
		get := func(x *State) Val {
			if v, ok := x.heap[cl]; ok {
				return t.resolve(v)
			}
			if ty == nil {
				return VOpq{"?"}
			}
			return t.resolve(x.Clone().loadCell(cl.o, cl.path, ty))
		}
		a, b := get(s), get(t)
		if !t.valEq(a, b) {
			return fmt.Sprintf("%s becomes %s", cl.path, valString(b))
		}
	}
	return ""
}

// sameAddr: v is the address a.
func (u *udp) sameAddr(s *State, v Val, a VIface) bool {
	x, ok := s.resolve(v).(VIface)
	if !ok || x.Dyn == nil || !types.Identical(x.Dyn, a.Dyn) {
		return false
	}
	p, ok1 := s.resolve(x.V).(VPtr)
	q := a.V.(VPtr)
	if !ok1 || p.Obj == nil {
		return false
	}
	if p.Obj == q.Obj && p.Path == q.Path {
		return true
	}
	st, ok := under(u.addrT).(*types.Struct)
	if !ok {
		return false
	}
	c := s.Clone()
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !c.valEq(c.resolve(c.loadCell(p.Obj, p.Path+"."+f.Name(), f.Type())), c.resolve(c.loadCell(q.Obj, q.Path+"."+f.Name(), f.Type()))) {
			return false
		}
	}
	return true
}

func eventsOf(s *State, kind string) []*Event {
	var out []*Event
	for _, e := range s.Events() {
		if e.Kind == kind {
			out = append(out, e)
		}
	}
	return out
}

func (u *udp) peerRules() {
	c, in := u.c, u.c.In
	noAddr := c.R.SSA[c.R.Mod+"/"+udpPkg].Var("ErrNoAddress")
	var noAddrV Val = VOpq{"no ErrNoAddress"}
	if noAddr != nil {
		noAddrV, _ = in.globalCell(in.globalObj(noAddr), "", deref(noAddr.Type()))
	}
	type peerState struct {
		name string
		st   *State
		addr *VIface
	}
	states := []peerState{{"before any packet", u.fresh, nil}}
	sameSlice := func(s *State, v Val, p VSlice) bool {
		x, ok := v.(VSlice)
		return ok && x.Obj == p.Obj && x.Path == p.Path && s.proveEq(x.Off, p.Off) && s.proveEq(x.Len, p.Len)
	}
	for i := 0; i < len(states) && i < 4; i++ {
		ps := states[i]
		// reading
		where := "UDPReadWriteCloser.Read " + ps.name
		outs, p, ok := u.step("Read", ps.st)
		if !ok {
			return
		}
		for _, o := range outs {
			s := o.St
			pos := c.pos(u.methods["Read"])
			rf := eventsOf(s, "readfrom")
			say := func(ok bool, rule, f string, a ...interface{}) bool {
				return c.ob(ok, rule, where, pos, f+" [%s]", append(a, c.short(s.pathString()))...)
			}
			if !say(len(rf) == 1 && len(o.Rets) == 2, "a read reads one packet", "%d packets are read", len(rf)) {
				continue
			}
			e := rf[0]
			pos = in.pos(e.Pos)
			say(s.valEq(s.resolve(e.Recv), u.conn) && sameSlice(s, e.Args[0], p), "a read reads one packet", "read is into %s from %s", valString(e.Args[0]), valString(e.Recv))
			say(s.valEq(s.resolve(o.Rets[0]), e.Res[0]), "reading reports the socket's count", "the count is %s", valString(o.Rets[0]))
			say(s.valEq(s.resolve(o.Rets[1]), s.resolve(e.Res[2])), "reading reports the socket's error", "the error is %s", valString(o.Rets[1]))
			touched := ""
			for _, x := range s.Events() {
				switch x.Kind {
				case "store":
					if x.Obj == p.Obj {
						touched = in.pos(x.Pos)
					}
				case "writeto", "pclose", "go":
					say(false, "reading does nothing else", "there is a %s", x.Kind)
				}
			}
			say(touched == "", "the received bytes are handed on unchanged", "the buffer is modified at %s", touched)
			diff := u.same(ps.st, s)
			if errClass(s, e.Res[2]) == "err" {
				say(diff == "", "a failed read sets no peer", "%s", diff)
				continue
			}
			if ps.addr != nil {
				say(diff == "", "later packets do not change the peer", "%s", diff)
				continue
			}
			a, isA := e.Res[1].(VIface)
			if isA && a.Dyn != nil {
				n := s.Clone()
				n.ev = nil
				states = append(states, peerState{"after the first packet", n, &a})
			}
		}
		// writing
		where = "UDPReadWriteCloser.Write " + ps.name
		outs, p, ok = u.step("Write", ps.st)
		if !ok {
			return
		}
		for _, o := range outs {
			s := o.St
			pos := c.pos(u.methods["Write"])
			say := func(ok bool, rule, f string, a ...interface{}) bool {
				return c.ob(ok, rule, where, pos, f+" [%s]", append(a, c.short(s.pathString()))...)
			}
			diff := u.same(ps.st, s)
			say(diff == "", "writing does not change the peer", "%s", diff)
			wt := eventsOf(s, "writeto")
			for _, k := range []string{"readfrom", "pclose", "go"} {
				say(len(eventsOf(s, k)) == 0, "writing does nothing else", "there is a %s", k)
			}
			if ps.addr == nil {
				say(len(wt) == 0, "nothing is sent before a packet was received", "a packet is sent")
				say(s.valEq(s.resolve(o.Rets[1]), noAddrV), "writing without a peer reports that there is no address", "the error is %s", valString(o.Rets[1]))
				say(s.valEq(s.resolve(o.Rets[0]), VInt{K(0)}), "writing without a peer reports that there is no address", "the count is %s", valString(o.Rets[0]))
				continue
			}
			if !say(len(wt) == 1, "a write sends one packet", "%d packets are sent", len(wt)) {
				continue
			}
			e := wt[0]
			pos = in.pos(e.Pos)
			say(s.valEq(s.resolve(e.Recv), u.conn) && sameSlice(s, e.Args[0], p) && !stored(s, p.Obj), "the whole buffer is sent", "sent is %s", valString(e.Args[0]))
			say(u.sameAddr(s, e.Args[1], *ps.addr), "packets are sent to the sender of the first packet", "the packet is sent to %s", valString(e.Args[1]))
			say(s.valEq(s.resolve(o.Rets[0]), e.Res[0]) && s.valEq(s.resolve(o.Rets[1]), s.resolve(e.Res[1])), "writing reports the socket's result", "it reports %s, %s", valString(o.Rets[0]), valString(o.Rets[1]))
		}
		// closing
		where = "UDPReadWriteCloser.Close " + ps.name
		outs, _, ok = u.step("Close", ps.st)
		if !ok {
			return
		}
		for _, o := range outs {
			pc := eventsOf(o.St, "pclose")
			pos := c.pos(u.methods["Close"])
			if c.ob(len(pc) == 1 && o.St.valEq(o.St.resolve(pc[0].Recv), u.conn), "closing closes the socket", where, pos, "it is closed %d times", len(pc)) {
				c.ob(o.St.valEq(o.St.resolve(o.Rets[0]), o.St.resolve(pc[0].Res[0])), "closing reports the socket's error", where, pos, "the error is %s", valString(o.Rets[0]))
			}
			c.ob(u.same(ps.st, o.St) == "", "closing does not change the peer", where, pos, "%s", u.same(ps.st, o.St))
		}
	}
	c.ob(len(states) >= 2, "a received packet sets the peer", "UDPReadWriteCloser.Read", c.pos(u.methods["Read"]), "no packet does")
	// another reader sets the peer at any moment at which a lock is taken
	for i := range states {
		if states[i].addr == nil {
			continue
		}
		for k := 1; k <= 6; k++ {
			n, hit := 0, false
			in.OnLock = func(st *State, p VPtr) {
				if st != nil {
					n++
				}
				if n != k || hit || u.same(u.fresh, st) != "" {
					return
				}
				hit = true
				for cl, v := range states[i].st.heap {
					if u.shared[cl.o] {
						st.heap[cl] = v
					}
				}
				for a, f := range states[i].st.ifs {
					if _, have := st.ifs[a]; !have {
						st.ifs[a] = f
					}
				}
				st.ghost["env"] = K(1)
			}
			outs, _, ok := u.step("Read", u.fresh)
			in.OnLock = nil
			if !ok || !hit {
				break
			}
			for _, o := range outs {
				if o.St.ghost["env"].C != 1 {
					continue
				}
				d := u.same(states[i].st, o.St)
				c.ob(d == "", "two concurrent reads do not both set the peer", fmt.Sprintf("UDPReadWriteCloser.Read, lock %d", k), c.pos(u.methods["Read"]), "the peer set by another read is replaced: %s", d)
			}
		}
	}
}

func stored(s *State, o *Obj) bool {
	for _, e := range s.Events() {
		if e.Kind == "store" && e.Obj == o {
			return true
		}
	}
	return false
}

func propC22(c *Ctx) {
	for _, u := range c.newUDP() {
		u.peerRules()
	}
}

// propC40: the socket is the one asked for, and closing closes it.
func propC40(c *Ctx) {
	for _, u := range c.newUDP() {
		u.socketRules()
	}
}

func (u *udp) socketRules() {
	c := u.c
	where := "NewUDPReadWriteCloser"
	for _, e := range u.ctorEvs {
		if e.Kind == "go" {
			c.ob(false, "constructing opens the socket and does nothing else", where, c.In.pos(e.Pos), "a goroutine is started")
		}
	}
	sub := NewCtx(c.R, c.In, c.Prop, c.Tier)
	u.c = sub
	u.peerRules()
	peers := map[string]bool{
		"a failed read sets no peer": true, "later packets do not change the peer": true, "writing does not change the peer": true,
		"nothing is sent before a packet was received": true, "writing without a peer reports that there is no address": true,
		"packets are sent to the sender of the first packet": true, "closing does not change the peer": true,
		"a received packet sets the peer": true, "two concurrent reads do not both set the peer": true,
	}
	for _, o := range sub.Obs {
		if !peers[o.Rule] {
			c.ob(o.OK, o.Rule, o.Construct, o.Pos, "%s", o.Detail)
		}
	}
	u.c = c
	c.merge(&Ctx{Funcs: sub.Funcs, Paths: sub.Paths, Steps: sub.Steps, Calls: sub.Calls, Forks: sub.Forks})
}

// socketAddress: the text is the address, a colon and the port.
func (c *Ctx) socketAddress(s *State, l *Event, addr, port Val, where string) {
	text, _, ok := s.strOf(l.Args[1])
	text = flatText(s.flatten(text))
	a, _, _ := s.strOf(addr)
	want := flatText(s.flatten(a))
	good := ok && len(text) == len(want)+2
	for i := 0; good && i < len(want); i++ {
		good = text[i].key() == want[i].key() && s.proveEq(text[i].Len, want[i].Len)
	}
	if good {
		x, y := text[len(want)], text[len(want)+1]
		good = x.Kind == SegLit && x.Lit == ":" && y.Kind == SegFmt && (y.Verb == "%v" || y.Verb == "%d") && s.valEq(unIface(s.resolve(y.Arg)), s.resolve(port))
	}
	c.ob(good, "the socket is opened at the address and port asked for", where, c.In.pos(l.Pos), "it is opened at %s", valString(l.Args[1]))
}

func (c *Ctx) udpConc() {
	for _, u := range c.newUDP() {
		u.conc()
	}
}

func (u *udp) conc() {
	c := u.c
	sub := NewCtx(c.R, c.In, c.Prop, c.Tier)
	u.c = sub
	u.peerRules()
	keep := map[string]bool{"every lock is released on every exit": true, "no lock is held while waiting for data": true, "a lock held during foreign calls is released by a deferred call": true}
	for _, o := range sub.Obs {
		if keep[o.Rule] {
			c.ob(o.OK, o.Rule, o.Construct, o.Pos, "%s", o.Detail)
		}
	}
	u.c = c
	c.merge(&Ctx{Funcs: sub.Funcs, Paths: sub.Paths, Steps: sub.Steps, Calls: sub.Calls, Forks: sub.Forks})
	c.raceRules("UDPReadWriteCloser", u.accs)
	started := ""
	for _, e := range u.ctorEvs {
		if e.Kind == "go" {
			started = c.In.pos(e.Pos)
		}
	}
	c.ob(started == "", "constructing hands out only complete objects", "NewUDPReadWriteCloser", started, "a goroutine is started before the transport is complete")
}
