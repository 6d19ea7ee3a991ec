package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblOut struct {
	Harness string  `json:"harness"`
	Name    string  `json:"name"`
	Kind    string  `json:"kind"`
	Pos     string  `json:"pos,omitempty"`
	Status  string  `json:"status"`
	Solver  string  `json:"solver,omitempty"`
	Ms      float64 `json:"ms"`
	Query   string  `json:"query,omitempty"`
	Goal    string  `json:"goal,omitempty"`
}
type HarnessOut struct {
	Name    string   `json:"name"`
	Target  string   `json:"target"`
	Props   []string `json:"props"`
	Obls    int      `json:"obligations"`
	Proved  int      `json:"proved"`
	Error   string   `json:"error,omitempty"`
	Ms      float64  `json:"ms"`
	Paths   int      `json:"paths"`
	Vacuous bool     `json:"vacuous,omitempty"`
}
type Output struct {
	Harnesses []HarnessOut       `json:"harnesses"`
	Failed    []OblOut           `json:"failed"`
	Obls      int                `json:"obligations"`
	Proved    int                `json:"proved"`
	ByKind    map[string]int     `json:"by_kind"`
	BySolver  map[string]int     `json:"by_solver"`
	SolverMs  map[string]float64 `json:"solver_ms"`
	Covered   []string           `json:"functions"`
	Contracts []string           `json:"contracts_used"`
	Assumed   []string           `json:"assumed"`
	Loops     map[string]int     `json:"loops"`
	LoadError string             `json:"load_error,omitempty"`
	Extra     map[string]any     `json:"extra,omitempty"`
	WallMs    float64            `json:"wall_ms"`
}

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "")
	contracts := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "harness name regexp")
	outF := flag.String("out", "", "result file")
	verbose := flag.Bool("v", false, "")
	keep := flag.String("keep", "", "directory for failed queries")
	refDir := flag.String("ref", "/verif/ref", "reference grammar directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	jobs := flag.Int("jobs", 4, "worker processes")
	worker := flag.Int("worker", -1, "work for another gvc")
	budget := flag.Int("budget", 0, "seconds for everything (0: no limit)")
	flag.Parse()
	t0 := time.Now()
	_, _ = refDir, tier
	var err error
	tmpDir, err = os.MkdirTemp("", "gvc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(tmpDir)
	out := newOutput()
	write := func() {
		out.WallMs = float64(time.Since(t0).Milliseconds())
		b, _ := json.MarshalIndent(out, "", " ")
		if *outF != "" {
			os.WriteFile(*outF, b, 0o644)
		}
	}
	ld, err := load(*repo, *contracts)
	if err != nil {
		out.LoadError = err.Error()
		fmt.Fprintln(os.Stderr, "load:", err)
		write()
		os.Exit(0)
	}
	for f, m := range ld.dropped {
		fmt.Fprintln(os.Stderr, "dropped", f, ":", m)
	}
	resetTerms()
	e := newEng(ld)
	if *worker >= 0 {
		e.immutChecked = *worker > 0
		solverSem = make(chan struct{}, 3)
		workerLoop(e, ld, *keep)
		return
	}
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	if *keep != "" {
		os.MkdirAll(*keep, 0o755)
	}
	// the harnesses of the property and the contracts they rest on
	want := map[*Harness]bool{}
	var add func(h *Harness)
	add = func(h *Harness) {
		if want[h] {
			return
		}
		want[h] = true
		for u := range h.Use {
			if g := e.byTarget[u]; g != nil {
				add(g)
			}
		}
		if h.fn != nil {
			for _, b := range h.fn.Blocks {
				for _, in := range b.Instrs {
					if n := calledLemma(in); n != "" && e.harness[n] != nil {
						add(e.harness[n])
					}
				}
			}
		}
	}
	for _, h := range ld.harness {
		sel := *prop == "" && re == nil
		for _, p := range h.Props {
			if p == *prop {
				sel = true
			}
		}
		if re != nil {
			sel = re.MatchString(h.Name)
		}
		if sel {
			if re != nil {
				want[h] = true
			} else {
				add(h)
			}
		}
	}
	var hs []*Harness
	for _, h := range ld.harness {
		if want[h] {
			hs = append(hs, h)
		}
	}
	sort.SliceStable(hs, func(i, j int) bool { return hs[i].Slow && !hs[j].Slow })
	if len(hs) < *jobs {
		*jobs = len(hs)
	}
	if *jobs > 1 {
		os.RemoveAll(tmpDir)
		deadline := time.Now().Add(24 * time.Hour)
		if *budget > 0 {
			deadline = t0.Add(time.Duration(*budget) * time.Second)
		}
		args := []string{"-repo", *repo, "-contracts", *contracts, "-ref", *refDir, "-tier", *tier, "-keep", *keep}
		runParallel(*jobs, hs, out, args, *verbose, deadline)
	} else {
		for _, h := range hs {
			ho := e.verify(h, out, *verbose, *keep)
			out.Harnesses = append(out.Harnesses, ho)
			if *verbose {
				fmt.Printf("%-60s obl %d/%d  %.0f ms  %s\n", ho.Name, ho.Proved, ho.Obls, ho.Ms, ho.Error)
			}
		}
		e.collect(out)
	}
	write()
	if *verbose {
		fmt.Printf("obligations %d proved %d wall %.1fs\n", out.Obls, out.Proved, time.Since(t0).Seconds())
	}
}

func (e *Eng) verify(h *Harness, out *Output, verbose bool, keep string) (ho HarnessOut) {
	t0 := time.Now()
	ho = HarnessOut{Name: h.Name, Target: h.Target, Props: h.Props}
	if h.dropped != "" {
		ho.Error = "the contract no longer fits the code: " + h.dropped
		out.Failed = append(out.Failed, OblOut{Harness: h.Name, Name: "contract applies", Kind: "contract", Status: ho.Error})
		return
	}
	e.h = h
	e.obls = nil
	e.covers = nil
	e.candMemo = nil
	e.paths = 0
	e.steps = 0
	e.quiet, e.pure = 0, 0
	h.decr = nil
	fail := func(msg string) {
		ho.Error = msg
		out.Obls++
		ho.Obls++
		out.Failed = append(out.Failed, OblOut{Harness: h.Name, Name: "within the verifier's reach", Kind: "tool", Status: msg})
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					fail("unsupported: " + u.msg)
					return
				}
				fail(fmt.Sprintf("internal: %v\n%s", r, trimStack(debug.Stack())))
			}
		}()
		cands := []*ssa.Function{nil}
		if isFuncTarget(h.Target) {
			cands = e.funcCands(under(h.fn.Params[0].Type()).(*types.Signature))
		}
		if len(e.immutable) > 0 && !e.immutChecked {
			e.immutChecked = true
			for _, b := range e.checkImmutable() {
				out.Obls++
				out.Failed = append(out.Failed, OblOut{Harness: h.Name, Name: "immutable fields are only read", Kind: "frame", Status: b})
			}
		}
		var as []arrival
		for _, cand := range cands {
			st := newState()
			e.initAlloc(st)
			h.alloc0 = st.alloc
			e.epochBase = st.allocK
			h.cand = cand
			h.pre = nil
			e.panicIf = nil
			e.panics = nil
			e.frameDecl = nil
			var args []Val
			for i, p := range h.fn.Params {
				if cand != nil && i == 0 {
					c := ClosureV{Fn: cand}
					for _, fv := range cand.FreeVars {
						c.Binds = append(c.Binds, e.param(st, fv.Type(), fv.Name()))
					}
					args = append(args, c)
					continue
				}
				args = append(args, e.param(st, p.Type(), p.Name()))
			}
			as = append(as, e.execFunc(st, h.fn, args, nil, nil)...)
		}
		nret := 0
		for _, a := range as {
			if a.kind == aPanic {
				if !h.MayPanic {
					g := False
					if e.panicIf != nil {
						g = e.panicIf
					}
					e.oblige(a.st, "panic", "no panic ("+panicText(a.pv)+")", g, h.fn.Pos())
				}
				for _, c := range e.panics {
					for _, r := range e.callVal0(a.fr, a.st, c.f, nil, c.call, nil) {
						if r.kind != aRet {
							unsup("vc.Panics panics")
						}
						e.oblige(r.st, "panic", c.name, e.toTerm(r.st, r.vals[0]), c.call.Pos())
					}
				}
			} else {
				nret++
				// vacuity: the end of the harness must be reachable
				e.covers = append(e.covers, &Obl{H: h, Name: "end reachable", PC: append([]*Term{}, a.st.pc...), Goal: False})
			}
		}
	}()
	// discharge
	type job struct {
		o *Obl
		p prepared
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, 8)
	seen := map[string]*Obl{}
	var dups [][2]*Obl
	for _, o := range e.obls {
		if o.Goal == True {
			o.Res = solverRes{"unsat", "simplifier", 0}
			continue
		}
		var as []*Term
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					o.Res = solverRes{"unknown", fmt.Sprint(r), 0}
				}
			}()
			as = e.expand(o.PC, o.Goal, h.Fuel)
			return true
		}()
		if !ok {
			continue
		}
		p := prep(as, o.Goal)
		if f := seen[p.ax]; !p.trivial && f != nil {
			dups = append(dups, [2]*Obl{f, o})
			continue
		}
		seen[p.ax] = o
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obl) {
			defer wg.Done()
			defer func() { <-sem }()
			r, f := solve(p, h.Timeout)
			mu.Lock()
			o.Res, o.Query = r, f
			mu.Unlock()
		}(o)
	}
	wg.Wait()
	for _, d := range dups {
		d[1].Res, d[1].Query = d[0].Res, d[0].Query
	}
	for _, o := range e.obls {
		ho.Obls++
		out.Obls++
		out.ByKind[o.Kind]++
		if o.Res.verdict == "unsat" {
			ho.Proved++
			out.Proved++
			out.BySolver[o.Res.solver]++
			if verbose && o.Res.ms > 2000 {
				fmt.Printf("  slow %s [%s] %.0f ms %s\n", o.Name, o.Kind, o.Res.ms, o.Res.solver)
			}
			continue
		}
		oo := OblOut{Harness: h.Name, Name: o.Name, Kind: o.Kind, Pos: o.Pos, Status: o.Res.verdict, Solver: o.Res.solver, Ms: o.Res.ms, Goal: o.Goal.String()}
		if keep != "" && o.Query != "" {
			b, _ := os.ReadFile(o.Query)
			q := filepath.Join(keep, fmt.Sprintf("%s_%d.smt2", strings.Map(func(r rune) rune {
				if r == '/' || r == ' ' || r == '(' || r == ')' || r == '*' {
					return '_'
				}
				return r
			}, h.Name), len(out.Failed)))
			os.WriteFile(q, b, 0o644)
			b2, _ := os.ReadFile(strings.Replace(o.Query, "_ax", "_th", 1))
			os.WriteFile(strings.Replace(q, ".smt2", "_th.smt2", 1), b2, 0o644)
			oo.Query = q
		}
		if verbose {
			fmt.Printf("  FAILED %s [%s] %s: %s %s goal %s\n", o.Name, o.Kind, o.Pos, o.Res.verdict, o.Res.solver, o.Goal)
		}
		out.Failed = append(out.Failed, oo)
	}
	// vacuity
	if ho.Error == "" {
		vac := len(e.covers) > 0
		for i, c := range e.covers {
			if i > 4 {
				break
			}
			p := prep(c.PC, False)
			if d := os.Getenv("GVC_VACDIR"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", d, h.Name, i), []byte(p.ax), 0o644)
			}
			if !p.trivial && !runQuick([]string{p.ax}, 1500) {
				vac = false
				break
			}
		}
		if len(e.obls) == 0 {
			vac = true
		}
		if vac {
			ho.Vacuous = true
			out.Failed = append(out.Failed, OblOut{Harness: h.Name, Name: "not vacuous", Kind: "vacuity", Status: "the assumptions of the contract are contradictory or it yields no obligation"})
			out.Obls++
			ho.Obls++
		}
	}
	ho.Paths = e.paths
	ho.Ms = float64(time.Since(t0).Milliseconds())
	return
}

func panicText(v Val) string {
	if iv, ok := v.(IfaceV); ok {
		v = iv.V
	}
	if t, ok := v.(*Term); ok {
		return t.String()
	}
	return fmt.Sprintf("%T", v)
}
func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	var r []string
	for _, l := range ls {
		if strings.Contains(l, "/gvc/") {
			r = append(r, strings.TrimSpace(l))
		}
	}
	if len(r) > 12 {
		r = r[:12]
	}
	return strings.Join(r, "\n")
}
