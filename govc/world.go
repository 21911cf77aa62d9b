package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program and its contracts.
type World struct {
	prog          *ssa.Program
	pkg           *ssa.Package
	pkgPath       string
	fset          *token.FileSet
	sizes         types.Sizes
	allFns        []*ssa.Function
	fnByName      map[string]*ssa.Function
	specFns       map[*ssa.Function]bool
	specNames     map[string]*ssa.Function
	contracts     map[string]*Contract
	events        map[string]*EventSpec
	rtypes        map[string]int
	nonNilGlobals map[string]bool
	nonNilVals    map[string]bool
	nonNilExt     map[string]bool
	skipped       []string // contracts whose target does not exist
	taken         map[*ssa.Function]bool
	aliases       map[*ssa.Function]*EventSpec // specification names for opaque steps
	ranges        map[*ssa.Function][]string
	repo          string
	contractFiles []string
	overlay       map[string][]byte
}

type Contract struct {
	name      string
	fn        *ssa.Function
	pre, post []*ssa.Function
	spec      *ssa.Function
	mods      *ssa.Function
	loops     []*ssa.Function
	modKeys   []string
	modAny    []string
	pure      bool
	opaque    bool
	rootOnly  bool
	noFrame   bool
	trusted   string // reason the body is not verified against the contract
	skipRoot  bool
	underLock bool
	noLock    bool // never takes a lock
	nilable   bool
	fuel      int
	hard      int
	inline    map[string]bool
	events    map[string]*EventSpec
	notEvents map[string]bool
	props     map[string]bool
	sameArgs bool
	bounded   bool
	nokinds   map[string]bool
}

func keyMatch(k string, list []string) bool {
	for _, m := range list {
		if k == m || strings.HasPrefix(k, m+".") || m == "*" {
			return true
		}
	}
	return false
}

func (c *Contract) modifiesKey(k string) bool    { return keyMatch(k, c.modKeys) }
func (c *Contract) modifiesKeyAny(k string) bool { return keyMatch(k, c.modAny) }

func contractOverlay(repo, dir string) (map[string][]byte, []string, error) {
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, nil, err
	}
	sort.Strings(files)
	ov := map[string][]byte{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		ov[filepath.Join(repo, "zz_govc_"+filepath.Base(f))] = b
	}
	return ov, files, nil
}

func LoadWorld(repo, cdir string) (*World, error) {
	ov, files, err := contractOverlay(repo, cdir)
	if err != nil {
		return nil, err
	}
	var ps []*packages.Package
	var dropped []string
	for try := 0; ; try++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov}
		ps, err = packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		if len(ps) != 1 {
			return nil, fmt.Errorf("expected one package, got %d", len(ps))
		}
		if len(ps[0].Errors) == 0 {
			break
		}
		// contract functions that no longer fit the code are set aside
		d := dropDecls(ov, ps[0].Errors)
		if len(d) == 0 || try > 20 || os.Getenv("GOVC_LENIENT") == "" {
			return nil, fmt.Errorf("package errors: %v", ps[0].Errors)
		}
		dropped = append(dropped, d...)
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	p := pkgs[0]
	p.Build()
	w := &World{prog: prog, pkg: p, pkgPath: p.Pkg.Path(), fset: prog.Fset, sizes: types.SizesFor("gc", "amd64"),
		fnByName: map[string]*ssa.Function{}, specFns: map[*ssa.Function]bool{}, specNames: map[string]*ssa.Function{},
		contracts: map[string]*Contract{}, events: map[string]*EventSpec{}, rtypes: map[string]int{}, nonNilVals: nonNilMapVals,
		nonNilExt: map[string]bool{"container/list.New": true, "github.com/SteelSeries/set.v0.New": true}, taken: map[*ssa.Function]bool{}, aliases: map[*ssa.Function]*EventSpec{}, ranges: map[*ssa.Function][]string{}, repo: repo, contractFiles: files, overlay: ov, skipped: dropped}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == p {
			w.allFns = append(w.allFns, fn)
		} else if fn.Pkg == nil && fn.Parent() != nil && fn.Parent().Pkg == p {
			w.allFns = append(w.allFns, fn)
		}
	}
	sort.Slice(w.allFns, func(i, j int) bool {
		if w.allFns[i].String() != w.allFns[j].String() {
			return w.allFns[i].String() < w.allFns[j].String()
		}
		return w.allFns[i].Pos() < w.allFns[j].Pos()
	})
	var specs []*ssa.Function
	for _, fn := range w.allFns {
		file := w.fset.Position(fn.Pos()).Filename
		if strings.HasPrefix(filepath.Base(file), "zz_govc_") {
			w.specFns[fn] = true
			w.specNames[fn.Name()] = fn
			specs = append(specs, fn)
			continue
		}
		w.fnByName[w.shortFn(fn.String())] = fn
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var skip ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					skip = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg == p && (skip != ssa.Value(g) || countOperand(in, g) > 1) {
						w.taken[g] = true
					}
				}
			}
		}
	}
	for _, fn := range specs {
		if err := w.addContractFn(fn); err != nil {
			return nil, err
		}
	}
	e := w.newEnv(nil, nil)
	w.scanImmutable(e)
	return w, nil
}

func countOperand(in ssa.Instruction, g *ssa.Function) int {
	n := 0
	for _, op := range in.Operands(nil) {
		if *op == ssa.Value(g) {
			n++
		}
	}
	return n
}

func (w *World) shortFn(s string) string { return strings.ReplaceAll(s, w.pkgPath+".", "") }

// target resolves X or T_M to a function of the package.
func (w *World) target(n string) *ssa.Function {
	if f := w.fnByName[n]; f != nil {
		return f
	}
	if i := strings.Index(n, "_"); i > 0 {
		for _, s := range []string{"(*" + n[:i] + ")." + n[i+1:], "(" + n[:i] + ")." + n[i+1:]} {
			if f := w.fnByName[s]; f != nil {
				return f
			}
		}
		// anonymous function X$1
		if f := w.fnByName[strings.Replace(n, "_", "$", 1)]; f != nil {
			return f
		}
	}
	return nil
}

func directives(fn *ssa.Function) [][]string {
	d := fn.Syntax()
	if d == nil {
		return nil
	}
	type docer interface{ Pos() token.Pos }
	var out [][]string
	if fd, ok := declDoc(d); ok {
		for _, l := range fd {
			if strings.HasPrefix(l, "//govc:") {
				out = append(out, strings.Fields(strings.TrimPrefix(l, "//govc:")))
			}
		}
	}
	return out
}

func (w *World) addContractFn(fn *ssa.Function) error {
	name := fn.Name()
	kind, rest := "", ""
	for _, k := range []string{"ctr_", "pre_", "post_", "spec_", "mods_", "loop_", "inv_", "keep_"} {
		if strings.HasPrefix(name, k) {
			kind, rest = k[:len(k)-1], name[len(k):]
		}
	}
	for _, d := range directives(fn) {
		if d[0] == "range" {
			w.ranges[fn] = d[1:]
		}
		if d[0] == "eventas" { // NAME: this specification function stands for the opaque step
			w.aliases[fn] = &EventSpec{name: d[1]}
			if len(d) > 2 {
				w.aliases[fn].args = d[2]
			}
		}
	}
	if kind == "" || fn.Signature.Recv() != nil || fn.Parent() != nil {
		return nil
	}
	if i := strings.Index(rest, "__"); i >= 0 {
		rest = rest[:i]
	}
	t := w.target(rest)
	if t == nil {
		w.skipped = append(w.skipped, name)
		return nil
	}
	tn := w.shortFn(t.String())
	c := w.contracts[tn]
	if c == nil {
		c = &Contract{name: tn, fn: t, inline: map[string]bool{}, events: map[string]*EventSpec{}, notEvents: map[string]bool{}, props: map[string]bool{}, nokinds: map[string]bool{}}
		w.contracts[tn] = c
	}
	switch kind {
	case "pre":
		c.pre = append(c.pre, fn)
	case "post":
		c.post = append(c.post, fn)
	case "spec":
		c.spec = fn
	case "mods":
		c.mods = fn
	case "loop", "inv", "keep":
		c.loops = append(c.loops, fn)
	}
	for _, d := range directives(fn) {
		switch d[0] {
		case "range":
		case "pure":
			c.pure = true
		case "opaque":
			c.opaque = true
		case "sameargs": // executed: the specification runs on the very same arguments
			c.sameArgs = true
		case "bounded":
			c.bounded = true
		case "rootonly":
			c.rootOnly = true
		case "noframe":
			c.noFrame = true
		case "skiproot":
			c.skipRoot = true
		case "underlock":
			c.underLock = true
		case "nolock":
			c.noLock = true
		case "nilable":
			c.nilable = true
		case "trusted":
			c.trusted = strings.Join(d[1:], " ")
		case "modifies":
			c.modKeys = append(c.modKeys, d[1:]...)
		case "modifiesany":
			c.modAny = append(c.modAny, d[1:]...)
		case "hard": // seconds every solver gets for a loop template that the first one leaves undecided
			c.hard = 10
			if len(d) > 1 {
				c.hard, _ = strconv.Atoi(d[1])
			}
		case "fuel":
			fmt.Sscan(d[1], &c.fuel)
		case "inline":
			for _, x := range d[1:] {
				c.inline[x] = true
			}
		case "prop":
			for _, x := range d[1:] {
				c.props[x] = true
			}
		case "nokind":
			for _, x := range d[1:] {
				c.nokinds[x] = true
			}
		case "event": // this function is an opaque step everywhere
			ev := &EventSpec{name: tn}
			if len(d) > 1 {
				ev.args = d[1]
			}
			for _, x := range d[1:] {
				if x == "fresh" {
					ev.fresh = true
				}
				if x == "pure" {
					ev.pure = true
				}
				if strings.HasPrefix(x, "name=") {
					ev.name = x[5:]
				}
			}
			w.events[tn] = ev
		case "eventin": // name args : opaque while verifying this root
			ev := &EventSpec{name: d[1]}
			if len(d) > 2 {
				ev.args = d[2]
			}
			c.events[d[1]] = ev
		case "notevent":
			for _, x := range d[1:] {
				c.notEvents[x] = true
			}
		default:
			return fmt.Errorf("%s: unknown directive %s", name, d[0])
		}
	}
	return nil
}

// roots: the functions verified on their own. Everything else is checked where it is inlined.
func (w *World) roots() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.allFns {
		if w.specFns[fn] || fn.Synthetic != "" || len(fn.Blocks) == 0 {
			continue
		}
		n := w.shortFn(fn.String())
		c := w.contracts[n]
		if cgoGlue(n) {
			continue
		}
		if c != nil && c.skipRoot {
			continue
		}
		if w.isRoot(fn) {
			out = append(out, fn)
		}
	}
	return out
}

func (w *World) isRoot(fn *ssa.Function) bool {
	n := w.shortFn(fn.String())
	if c := w.contracts[n]; c != nil {
		return true
	}
	if fn.Parent() != nil {
		return true // closures handed to libraries, goroutines, deferred
	}
	if fn.Object() != nil && fn.Object().Exported() {
		return true
	}
	return w.taken[fn] || w.events[n] != nil || w.selfRecursive(fn)
}

func (w *World) selfRecursive(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(x *ssa.Function) bool
	dfs = func(x *ssa.Function) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, b := range x.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && s.Pkg == w.pkg {
						if s == fn || dfs(s) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return dfs(fn)
}

func (w *World) specByName(n string) *ssa.Function {
	f := w.specNames[n]
	if f == nil {
		panic("no specification function " + n)
	}
	return f
}

// dropDecls blanks the top-level contract declarations the errors lie in.
func dropDecls(ov map[string][]byte, errs []packages.Error) []string {
	var out []string
	lines := map[string][]int{}
	for _, e := range errs {
		parts := strings.Split(e.Pos, ":")
		if len(parts) < 2 || ov[parts[0]] == nil {
			return nil
		}
		n := 0
		fmt.Sscan(parts[1], &n)
		lines[parts[0]] = append(lines[parts[0]], n)
	}
	for f, ls := range lines {
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, ov[f], 0)
		if err != nil {
			return nil
		}
		src := append([]byte{}, ov[f]...)
		for _, d := range af.Decls {
			a, b := fs.Position(d.Pos()), fs.Position(d.End())
			hit := false
			for _, n := range ls {
				if n >= a.Line && n <= b.Line {
					hit = true
				}
			}
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT || !hit {
				continue
			}
			name := "declaration"
			if fd, ok := d.(*ast.FuncDecl); ok {
				name = fd.Name.Name
			}
			out = append(out, name+" (does not fit the code)")
			for i := a.Offset; i < b.Offset; i++ {
				if src[i] != '\n' {
					src[i] = ' '
				}
			}
		}
		ov[f] = src
	}
	return out
}

// cgoGlue: functions the C interface generator writes, and their direct users (line editing).
func cgoGlue(n string) bool {
	return strings.HasPrefix(n, "_C") || strings.HasPrefix(n, "_cgo") || n == "runtime_throw" || n == "ReadLine" || n == "AddHistory" ||
		n == "LoadHistoryFromFile" || n == "WriteHistoryToFile" || n == "TruncateHistoryFile"
}
