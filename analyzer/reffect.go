package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C39: the library acts only on what it is given ---------------------------

// purePkgs compute on their arguments only; what of them does more is in impure.
var purePkgs = map[string]bool{
	"errors": true, "strings": true, "strconv": true, "bytes": true, "bufio": true, "math": true, "math/bits": true,
	"math/cmplx": true, "math/big": true, "sort": true, "slices": true, "maps": true, "cmp": true, "iter": true, "unicode": true,
	"unicode/utf8": true, "unicode/utf16": true, "io": true, "reflect": true, "regexp": true, "regexp/syntax": true, "sync": true,
	"sync/atomic": true, "text/tabwriter": true, "text/template": true, "unsafe": true, "context": true, "container/list": true, "container/ring": true,
	"container/heap": true, "fmt": true, "time": true, "io/ioutil": true, "html": true, "unique": true,
	"encoding": true, "encoding/binary": true, "encoding/hex": true, "encoding/base64": true, "encoding/json": true, "encoding/xml": true, "encoding/csv": true, "encoding/gob": true,
	"hash": true, "hash/crc32": true, "hash/crc64": true, "hash/fnv": true, "hash/adler32": true,
	"crypto/sha256": true, "crypto/sha1": true, "crypto/md5": true, "crypto/hmac": true, "crypto/subtle": true, "crypto/sha512": true,
}

// impure names what functions and variables of these packages touch besides
// their arguments.
var impure = map[string]string{
	"fmt.Print": outputEffect, "fmt.Printf": outputEffect, "fmt.Println": outputEffect,
	"fmt.Scan": "the standard input", "fmt.Scanf": "the standard input", "fmt.Scanln": "the standard input",
	"time.Now": "the clock", "time.Since": "the clock", "time.Until": "the clock", "time.Sleep": "the clock", "time.After": "the clock", "time.AfterFunc": "the clock",
	"time.Tick": "the clock", "time.NewTimer": "the clock", "time.NewTicker": "the clock", "time.Local": "the environment", "time.LoadLocation": "files",
	"context.WithTimeout": "the clock", "context.WithDeadline": "the clock", "context.WithTimeoutCause": "the clock", "context.WithDeadlineCause": "the clock",
	"io/ioutil.ReadFile": "files", "io/ioutil.WriteFile": "files", "io/ioutil.ReadDir": "files", "io/ioutil.TempFile": "files", "io/ioutil.TempDir": "files",
	"text/template.ParseFiles": "files", "text/template.ParseGlob": "files", "text/template.ParseFS": "files",
	"encoding/gob.Register": "settings of the program", "encoding/gob.RegisterName": "settings of the program",
	"unique.Make": "",
}

const outputEffect = "the standard output"

// effectNames of the packages that are there to act on the world.
var effectNames = map[string]string{
	"os": "files, the environment or the process", "log": "the log", "log/slog": "the log", "syscall": "the operating system", "os/exec": "other processes", "os/signal": "signals",
	"net": "the network", "net/http": "the network", "math/rand": "random numbers", "math/rand/v2": "random numbers", "crypto/rand": "random numbers",
	"runtime": "the runtime", "runtime/debug": "the runtime", "flag": "the command line", "expvar": "published variables", "path/filepath": "files", "plugin": "other code",
}

// harmlessInit are packages with effects whose import alone has none.
var harmlessInit = map[string]bool{
	"os": true, "log": true, "log/slog": true, "syscall": true, "os/exec": true, "net": true, "net/http": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true,
	"runtime": true, "runtime/debug": true, "flag": true, "path/filepath": true, "path": true, "io/fs": true, "net/netip": true, "net/url": true, "testing": true, "embed": true,
}

// pureMembers of other packages.
var pureMembers = map[string]bool{
	"runtime.KeepAlive": true, "net.ParseIP": true, "net.IPv4": true, "net.JoinHostPort": true, "net.SplitHostPort": true, "net.ParseCIDR": true, "net.CIDRMask": true,
	"os.IsTimeout": true, "os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "path/filepath.Base": true, "path/filepath.Ext": true, "path/filepath.Join": true,
	"log.New": true, "math/rand.New": true, "math/rand.NewSource": true, "math/rand/v2.New": true, "math/rand/v2.NewPCG": true,
}

// pureRecv are types of other packages whose methods touch only their receiver
// and arguments.
var pureRecv = map[string]bool{
	"net.IP": true, "net.IPMask": true, "net.IPNet": true, "net.UDPAddr": true, "net.TCPAddr": true, "net.OpError": true, "net.Addr": true, "net.Error": true,
	"net.AddrError": true, "net.DNSError": true, "net.ParseError": true, "net.IPAddr": true, "net.UnixAddr": true,
	"log.Logger": true, "math/rand.Rand": true, "math/rand/v2.Rand": true, "os.PathError": true, "os.SyscallError": true, "syscall.Errno": true, "io/fs.PathError": true,
}

// lookups of names in the network are none of the transport's.
var deniedNet = map[string]bool{"net.LookupHost": true, "net.LookupAddr": true, "net.LookupIP": true, "net.LookupPort": true, "net.LookupCNAME": true, "net.LookupTXT": true, "net.LookupMX": true, "net.LookupNS": true, "net.LookupSRV": true, "net.Interfaces": true, "net.InterfaceAddrs": true, "net.InterfaceByName": true, "net.InterfaceByIndex": true, "net.DefaultResolver": true}

type effect struct {
	kind string // what is touched
	name string // by which construct
	pos  token.Pos
}

type effects struct {
	c     *Ctx
	own   map[*ssa.Function][]effect
	next  map[*ssa.Function][]*ssa.Function
	meths map[string][]*ssa.Function // methods of unexported types by name
	uses  map[string]bool
}

func propC39(c *Ctx) {
	e := &effects{c: c, own: map[*ssa.Function][]effect{}, next: map[*ssa.Function][]*ssa.Function{}, meths: map[string][]*ssa.Function{}, uses: map[string]bool{}}
	type root struct {
		fn    *ssa.Function
		where string
		class string // "reads", "stream", "udp", "init", ""
	}
	var roots []root
	paths := sortedKeys(c.R.SSA)
	for _, path := range paths {
		p := c.R.SSA[path]
		if !e.inModule(p.Pkg) || p.Pkg.Name() == "main" {
			continue
		}
		for _, n := range sortedKeys(p.Members) {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				switch {
				case isInit(m):
					if m.Name() == "init" {
						roots = append(roots, root{m, "loading " + path, "init"})
					}
				case token.IsExported(n):
					class := ""
					if rs := m.Signature.Results(); rs.Len() > 0 && e.isTransport(rs.At(0).Type()) {
						class = "udp"
					} else if rs.Len() > 0 && e.isStream(rs.At(0).Type()) {
						class = "stream"
					}
					roots = append(roots, root{m, c.short(m.String()), class})
				}
			case *ssa.Type:
				named, ok := m.Type().(*types.Named)
				if !ok || types.IsInterface(named) || named.TypeParams().Len() > 0 {
					continue
				}
				for i := 0; i < named.NumMethods(); i++ {
					fn := c.R.Prog.FuncValue(named.Method(i))
					if fn == nil {
						continue
					}
					if !token.IsExported(n) {
						e.meths[fn.Name()] = append(e.meths[fn.Name()], fn)
						continue
					}
					if !token.IsExported(fn.Name()) {
						continue
					}
					class := ""
					switch {
					case e.isTransport(named):
						class = "udp"
					case e.isStream(named):
						class = "stream"
						if fn.Name() == "ReadContext" {
							class = "reads"
						}
					}
					roots = append(roots, root{fn, c.short(fn.String()), class})
				}
			}
		}
	}
	c.ob(len(roots) > 0, "the library has operations", c.R.Mod, "", "there are none")
	for _, r := range roots {
		path, ef := e.find(r.fn, r.class)
		rule := "an operation acts only on what it is given"
		if r.class == "init" {
			rule = "loading a package has no other effect"
		}
		d := ""
		if path != nil {
			names := []string{}
			for _, f := range path {
				names = append(names, c.short(f.String()))
			}
			d = fmt.Sprintf("%s: %s at %s (%s)", ef.kind, ef.name, c.In.pos(ef.pos), strings.Join(names, " calls "))
		}
		c.ob(path == nil, rule, r.where, c.pos(r.fn), "it touches %s", d)
	}
	for _, u := range sortedKeys(e.uses) {
		c.ob(true, "a library function used acts on its arguments", u, "", "")
	}
}

func (e *effects) inModule(p *types.Package) bool {
	return p != nil && (p.Path() == e.c.R.Mod || strings.HasPrefix(p.Path(), e.c.R.Mod+"/"))
}

// isTransport: the type of util's UDP transport.
func (e *effects) isTransport(t types.Type) bool {
	return e.isNamed(t, e.c.R.Mod+"/util", "UDPReadWriteCloser")
}

func (e *effects) isStream(t types.Type) bool { return e.isNamed(t, e.c.R.Mod, "FrameStream") }

func (e *effects) isNamed(t types.Type, path, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

// allowed: reports of the reader, the sockets of the transport, and goroutines
// of both (C02, C18 and C19 decide what they may do).
func allowed(ef effect, class string) bool {
	switch ef.kind {
	case outputEffect:
		return class == "reads"
	case effectNames["net"]:
		return class == "udp" && !deniedNet[ef.name]
	case goEffect:
		return class == "reads" || class == "stream" || class == "udp"
	}
	return false
}

const goEffect = "goroutines"

// find is a shortest way from fn to an effect that operations of the class may
// not have.
func (e *effects) find(fn *ssa.Function, class string) ([]*ssa.Function, effect) {
	from := map[*ssa.Function]*ssa.Function{fn: nil}
	queue := []*ssa.Function{fn}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		e.scan(f)
		for _, ef := range e.own[f] {
			if allowed(ef, class) {
				continue
			}
			var path []*ssa.Function
			for g := f; g != nil; g = from[g] {
				path = append([]*ssa.Function{g}, path...)
			}
			return path, ef
		}
		for _, g := range e.next[f] {
			if _, seen := from[g]; !seen {
				from[g] = f
				queue = append(queue, g)
			}
		}
	}
	return nil, effect{}
}

// scan notes the effects of a function itself and the functions of the module
// it calls or makes values of.
func (e *effects) scan(f *ssa.Function) {
	if _, done := e.own[f]; done {
		return
	}
	e.own[f] = nil
	e.c.Funcs[f.RelString(nil)] = true
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] && g.Blocks != nil {
			seen[g] = true
			e.next[f] = append(e.next[f], g)
		}
	}
	note := func(kind, name string, pos token.Pos) {
		if !pos.IsValid() {
			pos = f.Pos()
		}
		e.own[f] = append(e.own[f], effect{kind, name, pos})
	}
	initer := strings.Contains(f.Synthetic, "package initializer")
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Go); ok {
				note(goEffect, "a go statement", i.Pos())
			}
			if s, ok := i.(*ssa.Store); ok {
				if g := e.rootGlobal(s.Addr); g != nil && g.Pkg != nil && g.Pkg.Pkg != pkgOf(f) {
					note("a variable of another package", "the assignment to "+g.Pkg.Pkg.Path()+"."+g.Name(), s.Pos())
				}
			}
			var callee *ssa.Function
			if call, ok := i.(ssa.CallInstruction); ok {
				cc := call.Common()
				callee = cc.StaticCallee()
				if cc.IsInvoke() {
					if k := e.ifaceEffect(cc); k != "" {
						note(k, cc.Value.Type().String()+"."+cc.Method.Name(), i.Pos())
					}
					for _, g := range e.meths[cc.Method.Name()] {
						add(g)
					}
				}
				if bi, ok := cc.Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
					note("the standard error output", "the built-in "+bi.Name(), i.Pos())
				}
			}
			for _, op := range i.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					if initer && v == callee && v.Name() == "init" && v.Pkg != nil && v.Pkg != f.Pkg {
						if !e.inModule(v.Pkg.Pkg) {
							p := v.Pkg.Pkg.Path()
							if !purePkgs[p] && !harmlessInit[p] && e.touchesWorld(v.Pkg.Pkg) {
								note("what the imported package does when it is loaded", p, f.Pos())
							}
						}
						continue
					}
					if e.inModule(pkgOf(v)) || v.Synthetic != "" && v.Blocks != nil && (v.Pkg == nil || v.Object() != nil && e.inModule(v.Object().Pkg())) {
						add(v)
						continue
					}
					if k, name := e.funcEffect(v); k != "" {
						note(k, name, i.Pos())
					} else if name != "" {
						e.uses[name] = true
					}
				case *ssa.Global:
					if v.Pkg == nil || e.inModule(v.Pkg.Pkg) {
						continue
					}
					if k, name := e.globalEffect(v, i); k != "" {
						note(k, name, i.Pos())
					}
				}
			}
			if mc, ok := i.(*ssa.MakeClosure); ok {
				if g, ok := mc.Fn.(*ssa.Function); ok {
					add(g)
				}
			}
		}
	}
	sort.SliceStable(e.own[f], func(i, j int) bool { return e.own[f][i].pos < e.own[f][j].pos })
}

func pkgOf(f *ssa.Function) *types.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

// rootGlobal is the package variable an address is a part of.
func (e *effects) rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr {
				if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
					v = u.X
					continue
				}
				return nil
			}
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

// funcEffect: what a function of another module touches (and its name).
func (e *effects) funcEffect(f *ssa.Function) (string, string) {
	p := pkgOf(f)
	if p == nil {
		return "", ""
	}
	path := p.Path()
	name := path + "." + f.Name()
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		recv := path + "." + t.String()
		if n, ok := types.Unalias(t).(*types.Named); ok {
			recv = path + "." + n.Obj().Name()
		}
		name = recv + "." + f.Name()
		if purePkgs[path] || pureRecv[recv] {
			return "", name
		}
	} else {
		if k, ok := impure[name]; ok {
			return k, name
		}
		if purePkgs[path] || pureMembers[name] {
			return "", name
		}
	}
	return e.pkgEffect(p, name)
}

func (e *effects) pkgEffect(p *types.Package, name string) (string, string) {
	if k, ok := effectNames[p.Path()]; ok {
		return k, name
	}
	if !e.touchesWorld(p) {
		return "", name
	}
	return "more than its arguments, as far as is known", name
}

// touchesWorld: the package imports, however indirectly, one that acts on the
// world.
func (e *effects) touchesWorld(p *types.Package) bool {
	seen := map[*types.Package]bool{}
	var f func(p *types.Package) bool
	f = func(p *types.Package) bool {
		if seen[p] || purePkgs[p.Path()] {
			return false
		}
		seen[p] = true
		if _, bad := effectNames[p.Path()]; bad && p.Path() != "runtime" {
			return true
		}
		for _, q := range p.Imports() {
			if f(q) {
				return true
			}
		}
		return false
	}
	return f(p)
}

// ifaceEffect: calls of the transport's socket through an interface of package
// net. What a caller passed in is the caller's.
func (e *effects) ifaceEffect(cc *ssa.CallCommon) string {
	n, ok := types.Unalias(cc.Value.Type()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	if n.Obj().Pkg().Path() == "net" && !pureRecv["net."+n.Obj().Name()] {
		return effectNames["net"]
	}
	return ""
}

// globalEffect: reading an error value or a variable of a package without
// effects is fine; other uses of variables of other modules are not.
func (e *effects) globalEffect(g *ssa.Global, i ssa.Instruction) (string, string) {
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	if k, ok := impure[name]; ok {
		return k, name
	}
	if name == "os.Stdout" {
		return outputEffect, name
	}
	t := g.Type().(*types.Pointer).Elem()
	isErr := types.Identical(t, types.Universe.Lookup("error").Type())
	if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL && (isErr || purePkgs[g.Pkg.Pkg.Path()]) {
		return "", name
	}
	if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
		return "", name // noted as an assignment
	}
	if purePkgs[g.Pkg.Pkg.Path()] {
		return "", name
	}
	return e.pkgEffect(g.Pkg.Pkg, name)
}
