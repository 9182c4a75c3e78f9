package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const parserPath = "vimagination.zapto.org/parser"

var (
	prog     *ssa.Program
	icsPkg   *ssa.Package
	parPkg   *ssa.Package
	fset     *token.FileSet
	specFile = map[string]bool{}
	repoDir  = "/repo"
	verifDir = home()
	specDir  = filepath.Join(verifDir, "spec")

	contracts   = map[string]*Contract{} // code function key -> contract
	specByName  = map[string]*SpecFn{}
	specOf      = map[*ssa.Function]*SpecFn{}
	specOrder   []*SpecFn
	lemmas      []*SpecFn
	codeFuncs   []*ssa.Function
	loadedFiles []string
)

// SpecFn is a specification function: pure Go, recursion instead of loops.
type SpecFn struct {
	adv       []bool
	fn        *ssa.Function
	name      string
	recursive bool
	contract  *Contract
	requires  *ssa.Function
	forall    string // holds of a list when this holds of every element
	lemma     bool
	opts      map[string]string
	opaque    bool
	octets    bool // replaces octet by octet
	measure   string
}

// Contract attaches a specification function to a function of the code.
type Contract struct {
	kind string // enc chk dec decsec fun
	key  string // T.method or function
	spec *SpecFn
	fn   *ssa.Function // nil when the function does not exist
	opts map[string]string
	line string
	alts []*SpecFn // the same specification in another form, by a lemma
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "engine: "+f+"\n", a...)
	os.Exit(3)
}

func goEnv(tmp string) []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0", "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "ics.mod"))
	return env
}

// writeModfile makes a copy of the module file with the parser dependency
// taken from the module cache.
func writeModfile(tmp string) {
	mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	sum, _ := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	psum, err := os.ReadFile(filepath.Join(verifDir, "engine", "parser.sum"))
	if err != nil {
		fatal("%v", err)
	}
	m := string(mod) + "\nreplace vimagination.zapto.org/parser v1.0.3 => github.com/MJKWoolnough/parser v1.0.3\n"
	if err := os.WriteFile(filepath.Join(tmp, "ics.mod"), []byte(m), 0o644); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(tmp, "ics.sum"), append(sum, psum...), 0o644); err != nil {
		fatal("%v", err)
	}
}

func loadProgram(tmp string) {
	writeModfile(tmp)
	overlay := map[string][]byte{}
	ents, err := filepath.Glob(filepath.Join(specDir, "*.go"))
	if err != nil || len(ents) == 0 {
		fatal("no specification files in %s", specDir)
	}
	sort.Strings(ents)
	for _, e := range ents {
		b, err := os.ReadFile(e)
		if err != nil {
			fatal("%v", err)
		}
		p := filepath.Join(repoDir, "zz_verif_"+filepath.Base(e))
		overlay[p] = b
		specFile[p] = true
	}
	fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     repoDir,
		Env:     goEnv(tmp),
		Fset:    fset,
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, ".", parserPath)
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
	}
	if bad {
		fatal("the tree does not type-check together with the specification")
	}
	var ssaPkgs []*ssa.Package
	prog, ssaPkgs = ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for i, p := range ssaPkgs {
		if p == nil {
			fatal("no SSA for %s", pkgs[i].PkgPath)
		}
		p.Build()
		if pkgs[i].PkgPath == parserPath {
			parPkg = p
		} else {
			icsPkg = p
			loadedFiles = pkgs[i].GoFiles
			for _, f := range pkgs[i].Syntax {
				collectSpec(f, p)
			}
		}
	}
	if icsPkg == nil || parPkg == nil {
		fatal("packages not found")
	}
	finishSpecs()
}

func isSpecPos(p token.Pos) bool { return specFile[fset.Position(p).Filename] }

func home() string {
	if d := os.Getenv("VERIF_HOME"); d != "" {
		return d
	}
	return "/verif"
}

func isSpecFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg == icsPkg && isSpecPos(f.Pos())
}

// funcKey names a function of the code irrespective of receiver kind.
func funcKey(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

func collectSpec(file *ast.File, p *ssa.Package) {
	if !isSpecPos(file.Pos()) {
		return
	}
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil {
			continue
		}
		fn := p.Func(fd.Name.Name)
		if fn == nil {
			continue
		}
		s := &SpecFn{fn: fn, name: fd.Name.Name}
		specByName[s.name] = s
		specOf[fn] = s
		specOrder = append(specOrder, s)
		if fd.Doc == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			t, ok := strings.CutPrefix(c.Text, "//verif:")
			if !ok {
				continue
			}
			fs := strings.Fields(t)
			switch fs[0] {
			case "enc", "chk", "dec", "decsec", "fun", "write", "read", "tok", "phrase", "encode", "decode":
				c := &Contract{kind: fs[0], key: fs[1], spec: s, opts: map[string]string{}, line: t}
				for _, o := range fs[2:] {
					k, v, _ := strings.Cut(o, "=")
					c.opts[k] = v
				}
				if contracts[c.key] != nil {
					fatal("two contracts for %s", c.key)
				}
				contracts[c.key] = c
				s.contract = c
			case "alt":
				altOf[fs[1]] = append(altOf[fs[1]], s)
				fallthrough
			case "lemma", "line":
				s.opts = map[string]string{}
				for _, o := range fs[1:] {
					k, v, _ := strings.Cut(o, "=")
					s.opts[k] = v
				}
				if fs[0] == "lemma" {
					s.lemma = true
					lemmas = append(lemmas, s)
				}
			case "wrong":
				wrongs = append(wrongs, s)
				s.opts = map[string]string{"of": fs[1]}
				s.lemma = fs[1] == "lemma"
			case "forall":
				s.forall = fs[1]
			case "octets":
				s.octets = true
			case "opaque":
				s.opaque = true
			case "requires":
				s.measure = fs[1]
			default:
				fatal("unknown directive %s", t)
			}
		}
	}
}

// wrongs lists specifications which the code does not meet and statements
// which do not hold: each run has to fail at every one of them.
var wrongs []*SpecFn

// altOf lists other forms of the specifications of contracts.
var altOf = map[string][]*SpecFn{}

func finishSpecs() {
	for k, l := range altOf {
		if contracts[k] == nil {
			fatal("no contract %s", k)
		}
		contracts[k].alts = l
	}
	// code functions
	for _, m := range icsPkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			if !isSpecFn(m) && m.Name() != "init" && m.Synthetic == "" {
				codeFuncs = append(codeFuncs, m)
			}
		case *ssa.Type:
			if n, ok := m.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					f := prog.FuncValue(n.Method(i))
					if f != nil && !isSpecFn(f) {
						codeFuncs = append(codeFuncs, f)
					}
				}
			}
		}
	}
	sort.Slice(codeFuncs, func(i, j int) bool { return funcKey(codeFuncs[i]) < funcKey(codeFuncs[j]) })
	for _, f := range codeFuncs {
		if c := contracts[funcKey(f)]; c != nil {
			c.fn = f
		}
	}
	drop := map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VERIF_DROP"), ",") {
		drop[k] = true
	}
	for _, c := range contracts {
		if c.fn != nil && (drop[c.key] || !c.compatible()) {
			c.fn = nil
		}
		if c.fn == nil {
			c.spec.contract = nil
		}
	}
	for _, c := range contracts {
		if c.fn != nil {
			c.spec.contract = c
		}
	}
	for _, k := range strings.Split(os.Getenv("VERIF_NARROW"), ",") {
		narrow[k] = k != ""
	}
	for _, k := range strings.Split(os.Getenv("VERIF_WEAK"), ",") {
		weak[k] = true
	}
	// recursion among specification functions
	calls := map[*SpecFn]map[*SpecFn]bool{}
	for _, s := range specOrder {
		calls[s] = map[*SpecFn]bool{}
		for _, b := range s.fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						if t := specOf[f]; t != nil {
							calls[s][t] = true
						} else if f.Pkg == icsPkg && !isSpecFn(f) && f.Name() != "init" {
							fatal("specification %s calls code function %s", s.name, f)
						}
					}
				}
			}
		}
		if r := specByName[s.name+"_requires"]; r != nil {
			s.requires = r.fn
		}
	}
	for _, s := range specOrder {
		seen := map[*SpecFn]bool{}
		var walk func(t *SpecFn) bool
		walk = func(t *SpecFn) bool {
			for u := range calls[t] {
				if u == s {
					return true
				}
				if !seen[u] {
					seen[u] = true
					if walk(u) {
						return true
					}
				}
			}
			return false
		}
		s.recursive = walk(s)
		for u := range seen {
			if s.recursive && u != s && calls[u] != nil && reaches(calls, u, s) {
				fatal("specifications %s and %s are mutually recursive", s.name, u.name)
			}
		}
	}
}

func reaches(calls map[*SpecFn]map[*SpecFn]bool, from, to *SpecFn) bool {
	seen := map[*SpecFn]bool{}
	var walk func(t *SpecFn) bool
	walk = func(t *SpecFn) bool {
		for u := range calls[t] {
			if u == to {
				return true
			}
			if !seen[u] {
				seen[u] = true
				if walk(u) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}

// opaqueStruct reports struct types whose fields are not modelled.
func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	switch p.Path() + "." + n.Obj().Name() {
	case "strings.Builder", "bytes.Buffer":
		return false
	}
	return p != icsPkg.Pkg && p != parPkg.Pkg
}

func structOf(t types.Type) *types.Struct {
	if opaqueStruct(t) {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func zeroOf(t types.Type) *Term {
	if opaqueStruct(t) {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return App("zero:"+t.String(), SU, t)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Empty
		case u.Info()&types.IsFloat != 0:
			return App("float:0", SU, t)
		}
		return Nil
	case *types.Slice:
		return NilSlice
	case *types.Map:
		return MapNil
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		return Mk(fs...)
	case *types.Array:
		if u.Len() <= 64 {
			z := zeroOf(u.Elem())
			var ts []*Term
			for i := int64(0); i < u.Len(); i++ {
				ts = append(ts, Unit(z, u.Elem()))
			}
			return Concat(ts...)
		}
		return Fill(Int(u.Len()), zeroOf(u.Elem()))
	}
	return Nil
}

// compatible reports that the function has the form its contract is about.
func (c *Contract) compatible() bool {
	if ok, known := c.streamForm(); known {
		return ok
	}
	var ps []types.Type
	for i, p := range c.fn.Params {
		t := p.Type()
		switch {
		case i == 0 && c.fn.Signature.Recv() != nil:
			if q, ok := t.(*types.Pointer); ok {
				t = q.Elem()
			}
		case c.kind == "enc" && isWriter(t):
			continue
		case isTokeniser(t):
			t = types.Typ[types.String]
		case isStream(t):
			t = nil
		}
		ps = append(ps, t)
	}
	sp := c.spec.fn.Params
	if len(sp) != len(ps) {
		return false
	}
	for i, t := range ps {
		if t != nil && !types.Identical(t, sp[i].Type()) {
			return false
		}
	}
	rs := c.fn.Signature.Results()
	switch c.kind {
	case "enc":
		return rs.Len() == 0
	case "chk", "dec", "decsec":
		return rs.Len() == 1 && isErrorType(rs.At(0).Type())
	}
	return true
}
