package main

import (
	"fmt"
	"go/types"
)

// No panic on bytes from the wire (C04).

// decodeAny: Read of a message on any complete frame of a version, whatever
// its id and payload length.
func (c *Ctx) decodeAny(m *MsgT, ver int) {
	read := c.R.method(m.T, "Read")
	if !c.ob(read != nil, "method", m.key()+".Read", c.In.pos(m.T.Obj().Pos()), "no method Read") {
		return
	}
	in := c.In
	in.reset()
	st := in.NewState()
	fi := c.frame(st, ver, nil, nil, Lin{})
	outs, ok := c.run(read, []Val{c.receiver(m, "m"), fi.V}, st)
	if ok {
		c.noPanic("decoding any complete frame never panics", fmt.Sprintf("%s.Read v%d", m.key(), ver), outs)
	}
	if !m.S.Registered {
		return
	}
	outs, _, ok = c.dialectCall(m.S.Pkg, "GetMessage", func(st *State) []Val {
		fi := c.frame(st, ver, nil, nil, Lin{})
		st.pin(c.frameID(fi).AddK(-m.S.ID))
		return []Val{fi.V}
	})
	if ok {
		c.noPanic("decoding any complete frame never panics", fmt.Sprintf("%s GetMessage v%d", m.key(), ver), outs)
	}
}

// dialectAny: both lookups of a dialect on any complete frame.
func (c *Ctx) dialectAny(pkg string) {
	for ver := 1; ver <= 2; ver++ {
		var id Lin
		outs, _, ok := c.dialectCall(pkg, "GetMessage", func(st *State) []Val {
			fi := c.frame(st, ver, nil, nil, Lin{})
			id = c.frameID(fi)
			for _, s := range specByPkg(pkg) {
				if s.Registered {
					st.addNe(id.AddK(-s.ID))
				}
			}
			return []Val{fi.V}
		})
		if ok {
			c.noPanic("looking up an unknown id never panics", fmt.Sprintf("%s GetMessage v%d", pkg, ver), outs)
		}
	}
	outs, _, ok := c.dialectCall(pkg, "GetMeta", func(st *State) []Val {
		id := c.In.symVal(st, "messageID", types.Typ[types.Uint32])
		return []Val{id}
	})
	if ok {
		c.noPanic("looking up metadata never panics", pkg+" GetMeta", outs)
	}
}

func propC04(c *Ctx) {
	c.fromBytesRules()
	c.readerRules()
	c.accessorRules(1, false)
	c.accessorRules(2, false)
	for n := int64(0); n <= 2; n++ {
		for ver := 1; ver <= 2; ver++ {
			c.listNoPanic(n, ver)
		}
	}
	ms := c.messages(nil)
	c.parallel(len(ms), func(c *Ctx, i int) {
		c.decodeAny(ms[i], 1)
		c.decodeAny(ms[i], 2)
	})
	pk := specPkgs()
	c.parallel(len(pk), func(c *Ctx, i int) { c.dialectAny(pk[i]) })
}

func (c *Ctx) listNoPanic(n int64, ver int) {
	t := c.coreType("Dialects")
	if t == nil {
		return
	}
	for _, name := range []string{"Validate", "GetMessage"} {
		fn := c.R.valMethod(t, name)
		where := fmt.Sprintf("Dialects.%s v%d", name, ver)
		if !c.ob(fn != nil, "the method exists", where, c.In.pos(t.Obj().Pos()), "no method %s", name) {
			continue
		}
		c.In.reset()
		st := c.In.NewState()
		d := c.dialectList(st, n)
		fi := c.frame(st, ver, nil, nil, Lin{})
		outs, ok := c.run(fn, []Val{d, fi.V}, st)
		if ok {
			c.noPanic("looking at a frame never panics", where, outs)
		}
	}
	if n > 0 {
		return
	}
	// the placeholder
	um := c.R.typ(c.R.Mod, "UnknownMessage")
	if um == nil {
		return
	}
	fn := c.R.method(um, "Read")
	where := fmt.Sprintf("UnknownMessage.Read v%d", ver)
	if !c.ob(fn != nil, "the method exists", where, c.In.pos(um.Obj().Pos()), "no method Read") {
		return
	}
	c.In.reset()
	st := c.In.NewState()
	fi := c.frame(st, ver, nil, nil, Lin{})
	outs, ok := c.run(fn, []Val{VPtr{Obj: c.In.symObj("*m", um)}, fi.V}, st)
	if ok {
		c.noPanic("decoding any complete frame never panics", where, outs)
	}
}
