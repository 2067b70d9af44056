package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Repo struct {
	Arch string
	Dir  string
	Mod  string
	Pkgs []*packages.Package
	Prog *ssa.Program
	SSA  map[string]*ssa.Package
	Errs []string

	usesOnce sync.Once
	uses     *globalUse
}

// load type-checks the module in dir and lowers it to SSA, for the given
// architecture (empty: the host's).
func load(dir, arch string) (*Repo, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir}
	if arch != "" {
		cfg.Env = append(os.Environ(), "GOARCH="+arch, "CGO_ENABLED=0")
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	r := &Repo{Dir: dir, Arch: arch, Pkgs: pk, SSA: map[string]*ssa.Package{}}
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			r.Errs = append(r.Errs, e.Error())
		}
	})
	for _, p := range pk {
		if p.Module != nil && p.Module.Main {
			r.Mod = p.Module.Path
		}
	}
	if len(r.Errs) > 0 {
		return r, nil
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	r.Prog = prog
	for _, p := range prog.AllPackages() {
		r.SSA[p.Pkg.Path()] = p
	}
	return r, nil
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions,omitempty"`
	Wall        float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

// known findings: "known: property=<id> <rule> @ <construct>"
func knownFindings(file, prop string) map[string]bool {
	r := map[string]bool{}
	b, err := os.ReadFile(file)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "known: property=" + prop + " "
		if strings.HasPrefix(l, p) {
			r[strings.TrimSpace(l[len(p):])] = true
		}
	}
	return r
}

func main() {
	debug.SetMemoryLimit(5 << 30)
	prop := flag.String("prop", "", "property")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "where evidence goes")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.Bool("dump", false, "dump outcomes of a function")
	all := flag.Bool("v", false, "list all obligations")
	flag.Parse()
	debug.SetGCPercent(300)
	if *dump {
		r, err := load(*repo, os.Getenv("MC_ARCH"))
		if err != nil || len(r.Errs) > 0 {
			fmt.Println(err, r.Errs)
			os.Exit(1)
		}
		debugCall(r, r.interp(), flag.Args())
		return
	}
	start := time.Now()
	if err := loadSpec(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *prop == "all" || strings.Contains(*prop, ",") {
		// development aid: all properties in one process, no evidence
		r, err := load(*repo, os.Getenv("MC_ARCH"))
		if err != nil || len(r.Errs) > 0 {
			fmt.Println(err, r.Errs)
			os.Exit(1)
		}
		ids := sortedKeys(props)
		if *prop != "all" {
			ids = strings.Split(*prop, ",")
		}
		for _, id := range ids {
			t := time.Now()
			c := NewCtx(r, r.interp(), id, *tier)
			runProp(c, props[id])
			bad := 0
			for _, o := range append(c.Obs, c.shortfalls(props[id])...) {
				if !o.OK {
					bad++
					if bad <= 5 {
						fmt.Printf("  %s: %s (%s): %s\n", id, o.Key(), o.Pos, strings.ToValidUTF8(o.Detail, "?"))
					}
				}
			}
			fmt.Printf("%s obligations %d failed %d  %.1fs\n", id, len(c.Obs), bad, time.Since(t).Seconds())
			if bad > 0 && os.Getenv("MC_FIRST") != "" {
				return
			}
		}
		return
	}
	def, ok := props[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	c, short, err := decide(*repo, os.Getenv("MC_ARCH"), *prop, *tier, def)
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		os.Exit(2)
	}
	if *tier == "thorough" || *prop == "C26" {
		// once more for a machine with words of 32 bits
		c32, short32, err := decide(*repo, "386", *prop, *tier, def)
		if err != nil {
			fmt.Println("cannot load the repository for 386:", err)
			os.Exit(2)
		}
		for _, o := range c32.Obs {
			o.Construct += " (386)"
			c.Obs = append(c.Obs, o)
		}
		for _, o := range short32 {
			o.Construct += " (386)"
			short = append(short, o)
		}
		c.Paths, c.Steps, c.Calls = c.Paths+c32.Paths, c.Steps+c32.Steps, c.Calls+c32.Calls
		c.note("word sizes analysed", 2)
	}
	known := knownFindings(filepath.Join(*verif, "known_findings.txt"), *prop)
	var bad, kn []Ob
	byRule := map[string]int{}
	disc := 0
	for _, o := range c.Obs {
		byRule[o.Rule]++
		if o.OK {
			disc++
			continue
		}
		if known[o.Key()] {
			kn = append(kn, o)
			continue
		}
		bad = append(bad, o)
	}
	bad = append(bad, short...)
	sort.Slice(bad, func(i, j int) bool { return bad[i].Key() < bad[j].Key() })
	ed := filepath.Join(*verif, "evidence")
	os.MkdirAll(ed, 0o755)
	rep := filepath.Join(ed, *prop+".violations.txt")
	os.Remove(rep)
	if len(bad) > 0 {
		var b strings.Builder
		for _, o := range bad {
			fmt.Fprintf(&b, "%s\n  at %s\n  %s\n", o.Key(), o.Pos, strings.ToValidUTF8(o.Detail, "?"))
		}
		os.WriteFile(rep, []byte(b.String()), 0o644)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var samples []string
	step := len(c.Obs)/12 + 1
	for i := 0; i < len(c.Obs); i += step {
		o := c.Obs[i]
		samples = append(samples, fmt.Sprintf("%s (%s): %v", o.Key(), o.Pos, o.OK))
	}
	fns := sortedKeys(c.Funcs)
	nf := len(fns)
	for i := range fns {
		fns[i] = c.short(fns[i])
	}
	if len(fns) > 60 {
		s := len(fns)/60 + 1
		var t []string
		for i := 0; i < len(fns); i += s {
			t = append(t, fns[i])
		}
		fns = t
	}
	ev := evidence{Property: *prop, Tier: *tier, Seed: seed, Level: "other", Violations: len(bad), Wall: time.Since(start).Seconds(),
		Assumptions: append(append([]string(nil), commonAssumptions...), def.Assume...),
		Coverage: map[string]interface{}{
			"explanation":           def.Explain,
			"obligations":           len(c.Obs),
			"discharged":            disc,
			"obligations_by_rule":   byRule,
			"functions_analysed":    nf,
			"functions":             fns,
			"paths_enumerated":      c.Paths,
			"instructions_analysed": c.Steps,
			"calls_inlined":         c.Calls,
			"notes":                 c.Notes,
			"samples":               samples,
			"known_findings":        len(kn),
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(ed, *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *all {
		for _, o := range c.Obs {
			fmt.Println(o.OK, o.Key(), o.Pos)
		}
	}
	fmt.Printf("%s: %d obligations on %d functions, %d paths; %d discharged, %d failed, %d known (%.1fs)\n", *prop, len(c.Obs), nf, c.Paths, disc, len(bad), len(kn), ev.Wall)
	for _, o := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, o.Key(), strings.ToValidUTF8(o.Detail, "?"))
	}
	if len(bad) > 0 {
		for i, o := range bad {
			if i >= 10 {
				fmt.Printf("  … %d more in %s\n", len(bad)-i, rep)
				break
			}
			fmt.Printf("  %s\n    at %s\n    %s\n", o.Key(), o.Pos, strings.ToValidUTF8(o.Detail, "?"))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rep)
		os.Exit(1)
	}
}

// decide runs the rules of a property for one architecture. The second result
// names the rules that generated too few obligations.
func decide(repo, arch, prop, tier string, def *Prop) (*Ctx, []Ob, error) {
	r, err := load(repo, arch)
	if err != nil {
		return nil, nil, err
	}
	var c *Ctx
	if len(r.Errs) > 0 {
		c = NewCtx(r, nil, prop, tier)
		for i, e := range r.Errs {
			if i < 20 {
				c.ob(false, "the module type-checks", e, e, "%s", e)
			}
		}
	} else {
		c = NewCtx(r, r.interp(), prop, tier)
		c.ob(true, "the module type-checks", "all packages", "", "")
		c.note("packages", len(r.Pkgs))
		runProp(c, def)
	}
	return c, c.shortfalls(def), nil
}

// shortfalls names the rules that generated too few obligations.
func (c *Ctx) shortfalls(def *Prop) []Ob {
	byRule := map[string]int{}
	for _, o := range c.Obs {
		byRule[o.Rule]++
	}
	var short []Ob
	for rule, n := range def.Floor {
		if byRule[rule] < n {
			short = append(short, Ob{Rule: "coverage", Construct: rule, Detail: fmt.Sprintf("only %d obligations of this rule were generated, expected at least %d", byRule[rule], n)})
		}
	}
	return short
}

func runProp(c *Ctx, d *Prop) {
	defer func() {
		if r := recover(); r != nil {
			c.ob(false, "analysable", "property", "", "analysis failed: %v %s", r, debug.Stack())
		}
	}()
	if len(c.In.InitUndecided) > 0 {
		c.ob(false, "package initialisation is analysable", "init", "", "%s", strings.Join(c.In.InitUndecided, "; "))
	}
	d.Run(c)
}
