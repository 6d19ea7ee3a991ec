package main

// Loading /repo with the contract files laid over it.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Harness struct {
	Name     string
	Props    []string
	Target   string
	Use      map[string]bool
	NoInline map[string]bool
	Hints    []*ssa.Function
	hintsN   []string
	Case     bool // a check that is not usable as the contract of its target
	Fuel     int
	Timeout  int
	MayPanic bool
	Slow     bool
	Aux      bool // checked, but not the contract of its target
	Nested   bool // while an outer loop's changes are collected, inner loops go without invariants
	RTPanic  bool // failed run-time checks are panics the contract allows
	cand     *ssa.Function
	Expect   string
	fn       *ssa.Function
	lemma    bool
	decr     *Term
	pre      *State
	alloc0   *Term
	file     string
	dropped  string
	Labels   string
}

type Loaded struct {
	prog      *ssa.Program
	pkgs      []*ssa.Package
	byPath    map[string]*packages.Package
	harness   []*Harness
	dropped   map[string]string
	bodies    map[string]*ssa.Function
	immutable map[string]bool
	closed    map[string]bool
	repoErr   string
	fset      *token.FileSet
}

const modPath = "github.com/breml/logstash-config"

func overlayFiles(repo, contracts string) map[string][]byte {
	ov := map[string][]byte{}
	filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(contracts, p)
		dir := filepath.Dir(rel)
		if dir == "root" {
			dir = "."
		}
		b, err := os.ReadFile(p)
		if err == nil {
			ov[filepath.Join(repo, dir, "zz_vc_"+filepath.Base(rel))] = b
		}
		return nil
	})
	return ov
}

func load(repo, contracts string) (*Loaded, error) {
	ov := overlayFiles(repo, contracts)
	ld := &Loaded{dropped: map[string]string{}, byPath: map[string]*packages.Package{}}
	var pkgs []*packages.Package
	for round := 0; ; round++ {
		if round > 8 {
			return nil, fmt.Errorf("contract files do not type-check")
		}
		ld.fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
			Dir:     repo,
			Overlay: ov,
			Fset:    ld.fset,
		}
		var err error
		pkgs, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		bad := false
		for _, p := range pkgs {
			for _, er := range p.Errors {
				parts := strings.SplitN(er.Pos, ":", 3)
				if c, ok := ov[parts[0]]; ok && len(parts) >= 2 {
					line, _ := strconv.Atoi(parts[1])
					nc, fn := dropFunc(c, line)
					if fn == "" {
						return nil, fmt.Errorf("contract file %s: %s", er.Pos, er.Msg)
					}
					ov[parts[0]] = nc
					ld.dropped[fn] = er.Msg
					bad = true
					continue
				}
				if !bad {
					return nil, fmt.Errorf("%s: %s", er.Pos, er.Msg)
				}
			}
		}
		if !bad {
			break
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	ld.prog = prog
	for i, p := range spkgs {
		if p != nil {
			p.Build()
			ld.pkgs = append(ld.pkgs, p)
			ld.byPath[p.Pkg.Path()] = pkgs[i]
		}
	}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		pk := ld.byPath[p.Pkg.Path()]
		for _, f := range pk.Syntax {
			fname := ld.fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fname), "zz_vc_") {
				continue
			}
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if t, ok := strings.CutPrefix(c.Text, "//vc:closed "); ok {
						if ld.closed == nil {
							ld.closed = map[string]bool{}
						}
						for _, x := range strings.Fields(t) {
							ld.closed[x] = true
						}
					}
					if t, ok := strings.CutPrefix(c.Text, "//vc:immutable "); ok {
						if ld.immutable == nil {
							ld.immutable = map[string]bool{}
						}
						for _, x := range strings.Fields(t) {
							ld.immutable[x] = true
						}
					}
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				n := fd.Name.Name
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if t, ok := strings.CutPrefix(c.Text, "//vc:body "); ok && p.Func(n) != nil {
							if ld.bodies == nil {
								ld.bodies = map[string]*ssa.Function{}
							}
							ld.bodies[strings.TrimSpace(t)] = p.Func(n)
						}
					}
				}
				if !strings.HasPrefix(n, "vccheck_") && !strings.HasPrefix(n, "vclemma_") {
					continue
				}
				h := parseHarness(fd, p)
				h.file = fname
				if h.fn != nil {
					ld.harness = append(ld.harness, h)
				}
			}
		}
	}
	// dropped harnesses still count for their properties
	for fn, msg := range ld.dropped {
		if !strings.HasPrefix(fn, "vccheck_") && !strings.HasPrefix(fn, "vclemma_") {
			continue
		}
		for _, c := range overlayFiles(repo, contracts) {
			f, err := parser.ParseFile(token.NewFileSet(), "x.go", c, parser.ParseComments)
			if err != nil {
				continue
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == fn {
					h := parseHarness(fd, nil)
					h.dropped = msg
					ld.harness = append(ld.harness, h)
				}
			}
		}
	}
	sort.Slice(ld.harness, func(i, j int) bool { return ld.harness[i].Name < ld.harness[j].Name })
	return ld, nil
}

func parseHarness(fd *ast.FuncDecl, p *ssa.Package) *Harness {
	n := fd.Name.Name
	h := &Harness{Name: n, Use: map[string]bool{}, NoInline: map[string]bool{}, Fuel: 2, Timeout: 30000, lemma: strings.HasPrefix(n, "vclemma_")}
	if p != nil {
		h.Name = fullName(p.Func(n))
		h.fn = p.Func(n)
		if h.lemma {
			h.Target = "-"
		}
	}
	if fd.Doc == nil {
		return h
	}
	for _, c := range fd.Doc.List {
		t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
		if !strings.HasPrefix(t, "vc:") {
			continue
		}
		k, v, _ := strings.Cut(t[3:], " ")
		fs := strings.Fields(strings.ReplaceAll(v, ",", " "))
		switch k {
		case "prop":
			h.Props = append(h.Props, fs...)
		case "target":
			h.Target = strings.TrimSpace(v)
		case "use":
			for _, f := range fs {
				h.Use[f] = true
			}
		case "noinline":
			for _, f := range fs {
				h.NoInline[f] = true
			}
		case "nested":
			h.Nested = true
		case "hints":
			h.hintsN = append(h.hintsN, fs...)
		case "fuel":
			h.Fuel, _ = strconv.Atoi(fs[0])
		case "timeout":
			h.Timeout, _ = strconv.Atoi(fs[0])
		case "case":
			h.Case = true
		case "aux":
			h.Aux = true
		case "slow":
			h.Slow = true
		case "maypanic":
			h.MayPanic = true
			h.RTPanic = len(fs) > 0 && fs[0] == "runtime"
		case "labels":
			h.Labels = strings.TrimSpace(v)
		}
	}
	if p != nil {
		for _, hn := range h.hintsN {
			if f := p.Func(hn); f != nil {
				h.Hints = append(h.Hints, f)
			}
		}
	}
	return h
}

// dropFunc blanks the top-level function around a line.
func dropFunc(src []byte, line int) ([]byte, string) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, ""
	}
	for _, d := range f.Decls {
		a, b := fs.Position(d.Pos()), fs.Position(d.End())
		if line < a.Line || line > b.Line {
			continue
		}
		name := "decl"
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
		} else if gd, ok := d.(*ast.GenDecl); ok {
			if gd.Tok == token.IMPORT {
				return dropImport(src, fs, f, line), "import"
			}
			name = fmt.Sprintf("decl@%d", line)
		}
		n := append([]byte{}, src...)
		for i := a.Offset; i < b.Offset; i++ {
			if n[i] != '\n' {
				n[i] = ' '
			}
		}
		return n, name
	}
	return nil, ""
}
func dropImport(src []byte, fs *token.FileSet, f *ast.File, line int) []byte {
	n := append([]byte{}, src...)
	for _, im := range f.Imports {
		a, b := fs.Position(im.Pos()), fs.Position(im.End())
		if a.Line == line {
			for i := a.Offset; i < b.Offset; i++ {
				n[i] = ' '
			}
		}
	}
	// a single-line import keyword left alone does not parse; blank it too
	re := regexp.MustCompile(`(?m)^import\s*$`)
	return re.ReplaceAll(n, []byte("      "))
}

var theEng *Eng

func newEng(ld *Loaded) *Eng {
	e := &Eng{prog: ld.prog, repoPkgs: map[*ssa.Package]bool{}, vcPath: modPath + "/internal/vc",
		cellType: map[int]types.Type{}, globals: map[*ssa.Global]int{}, harness: map[string]*Harness{}, byTarget: map[string]*Harness{},
		specs: map[*ssa.Function]*SpecFn{}, specName: map[string]*SpecFn{}, loops: map[*ssa.Function]*loopInfo{}, mods: map[*ssa.Function]*modSet{},
		assumed: map[string]bool{}, covered: map[string]bool{}, implMemo: map[string][]int{}, usedContracts: map[string]bool{}, loopCount: map[string]int{}, sealFacts: true,
		initVals: map[*ssa.Global]func(*State) Val{}}
	for _, p := range ld.pkgs {
		e.repoPkgs[p] = true
	}
	for _, h := range ld.harness {
		e.harness[h.Name] = h
		if h.Target != "" && h.Target != "-" && h.fn != nil && !h.Case {
			if _, dup := e.byTarget[h.Target]; !dup && !h.Aux {
				e.byTarget[h.Target] = h
			}
		}
	}
	collectBoxed(ssautil.AllFunctions(ld.prog), e.isRepo)
	e.scanGlobals(ld)
	e.immutable = ld.immutable
	e.bodies = ld.bodies
	e.closed = ld.closed
	theEng = e
	return e
}

// scanGlobals finds how package variables are initialised and whether they change later.
func (e *Eng) scanGlobals(ld *Loaded) {
	stores := map[*ssa.Global]int{}
	for f := range ssautil.AllFunctions(ld.prog) {
		if !e.isRepo(f) {
			continue
		}
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if !isInit {
					stores[g] += 100
					continue
				}
				stores[g]++
				g2 := g
				switch v := s.Val.(type) {
				case *ssa.Const:
					v2 := v
					e.initVals[g] = func(*State) Val { return e.constVal(v2) }
				case *ssa.Call:
					f := v.Call.StaticCallee()
					if f == nil {
						continue
					}
					switch fullName(f) {
					case "regexp.MustCompile":
						if c, ok := v.Call.Args[0].(*ssa.Const); ok {
							pat := e.constVal(c).(*Term).name
							e.initVals[g] = func(*State) Val { return RegexpV{pat} }
						}
					case "errors.New":
						nm := "err:" + g.Name()
						txt := ""
						if c, ok := v.Call.Args[0].(*ssa.Const); ok {
							txt = e.constVal(c).(*Term).name
						}
						_ = g2
						e.initVals[g] = func(s *State) Val {
							t := Box(TagOf("*errors.errorString"), Var(nm, SInt))
							termBound[Var(nm, SInt)] = 0
							if s != nil {
								e.fact(s, Lt(Int(0), Var(nm, SInt)))
								e.fact(s, Eq(App("errText", SStr, t), StrL(txt)))
							}
							return t
						}
					}
				}
			}
		}
	}
	for g, n := range stores {
		if n != 1 {
			delete(e.initVals, g)
		}
	}
}

func (e *Eng) globalCell(st *State, g *ssa.Global) int {
	if c, ok := e.globals[g]; ok {
		if _, ok := st.cells[c]; ok {
			return c
		}
		st.cells[c] = e.globalInit(st, g)
		return c
	}
	e.cellCnt++
	c := e.cellCnt
	e.globals[g] = c
	e.cellType[c] = g.Type().(*types.Pointer).Elem()
	st.cells[c] = e.globalInit(st, g)
	return c
}
func (e *Eng) globalInit(st *State, g *ssa.Global) Val {
	if f, ok := e.initVals[g]; ok {
		return f(st)
	}
	ty := g.Type().(*types.Pointer).Elem()
	key := "glob:" + fullGlobal(g)
	return e.stableVal(st, ty, key)
}
func fullGlobal(g *ssa.Global) string { return shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name() }

// stableVal: an unconstrained value that is the same on every path.
func (e *Eng) stableVal(st *State, ty types.Type, key string) Val {
	t := Var(key, sortOf(ty))
	termBound[t] = 0
	return e.fromTerm(st, t, ty)
}
