package main

// Parallel runs: the main process hands harness names to workers, each a
// gvc process of its own that has loaded the same source.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"sync"
	"time"
)

func newOutput() *Output {
	return &Output{ByKind: map[string]int{}, BySolver: map[string]int{}, Loops: map[string]int{}}
}

// collect moves what the engine has noted into out.
func (e *Eng) collect(out *Output) {
	out.Covered, out.Contracts, out.Assumed = nil, nil, nil
	for k := range e.covered {
		out.Covered = append(out.Covered, k)
	}
	for k := range e.usedContracts {
		out.Contracts = append(out.Contracts, k)
	}
	for k := range e.assumed {
		out.Assumed = append(out.Assumed, k)
	}
	for k, v := range e.loopCount {
		out.Loops[k] = v
	}
	sort.Strings(out.Covered)
	sort.Strings(out.Contracts)
	sort.Strings(out.Assumed)
	statMu.Lock()
	out.SolverMs = map[string]float64{}
	for k, v := range solverMs {
		out.SolverMs[k] = v
	}
	statMu.Unlock()
}

func workerLoop(e *Eng, ld *Loaded, keep string) {
	byName := map[string]*Harness{}
	for _, h := range ld.harness {
		byName[h.Name] = h
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<16), 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		out := newOutput()
		h := byName[in.Text()]
		if h != nil {
			resetTerms()
			ic := e.immutChecked
			e = newEng(ld)
			e.immutChecked = ic
			ho := e.verify(h, out, false, keep)
			out.Harnesses = append(out.Harnesses, ho)
		}
		e.collect(out)
		statMu.Lock()
		for k := range solverMs {
			delete(solverMs, k)
		}
		statMu.Unlock()
		b, _ := json.Marshal(out)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

// runParallel decides the harnesses with n workers.
func runParallel(n int, hs []*Harness, out *Output, args []string, verbose bool, deadline time.Time) {
	var mu sync.Mutex
	next := 0
	cov, con, ass := map[string]bool{}, map[string]bool{}, map[string]bool{}
	byName := map[string]HarnessOut{}
	out.SolverMs = map[string]float64{}
	merge := func(o *Output) {
		for _, h := range o.Harnesses {
			byName[h.Name] = h
			if verbose {
				fmt.Printf("%-60s obl %d/%d  %.0f ms  %s\n", h.Name, h.Proved, h.Obls, h.Ms, h.Error)
			}
		}
		for _, f := range o.Failed {
			if verbose {
				g := f.Goal
				if len(g) > 300 {
					g = g[:300]
				}
				fmt.Printf("  FAILED %s %s [%s] %s: %s %s goal %s\n", f.Harness, f.Name, f.Kind, f.Pos, f.Status, f.Solver, g)
			}
		}
		out.Failed = append(out.Failed, o.Failed...)
		out.Obls += o.Obls
		out.Proved += o.Proved
		for k, v := range o.ByKind {
			out.ByKind[k] += v
		}
		for k, v := range o.BySolver {
			out.BySolver[k] += v
		}
		for k, v := range o.SolverMs {
			out.SolverMs[k] += v
		}
		for k, v := range o.Loops {
			out.Loops[k] = v
		}
		for _, k := range o.Covered {
			cov[k] = true
		}
		for _, k := range o.Contracts {
			con[k] = true
		}
		for _, k := range o.Assumed {
			ass[k] = true
		}
	}
	lost := func(h *Harness, why string) {
		byName[h.Name] = HarnessOut{Name: h.Name, Target: h.Target, Props: h.Props, Obls: 1, Error: why}
		out.Obls++
		out.Failed = append(out.Failed, OblOut{Harness: h.Name, Name: "within the verifier's reach", Kind: "tool", Status: why})
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var cmd *exec.Cmd
			var wr *bufio.Writer
			var rd *bufio.Reader
			start := func() bool {
				cmd = exec.Command(os.Args[0], append([]string{"-worker", fmt.Sprint(i)}, args...)...)
				cmd.Stderr = os.Stderr
				w, err1 := cmd.StdinPipe()
				r, err2 := cmd.StdoutPipe()
				if err1 != nil || err2 != nil || cmd.Start() != nil {
					cmd = nil
					return false
				}
				wr, rd = bufio.NewWriter(w), bufio.NewReaderSize(r, 1<<20)
				return true
			}
			defer func() {
				if cmd != nil {
					cmd.Process.Kill()
					cmd.Wait()
				}
			}()
			for {
				mu.Lock()
				if next >= len(hs) {
					mu.Unlock()
					return
				}
				h := hs[next]
				next++
				mu.Unlock()
				if time.Now().After(deadline) {
					mu.Lock()
					lost(h, "no time left")
					mu.Unlock()
					continue
				}
				if cmd == nil && !start() {
					mu.Lock()
					lost(h, "the worker does not start")
					mu.Unlock()
					continue
				}
				fmt.Fprintln(wr, h.Name)
				wr.Flush()
				type res struct {
					b   []byte
					err error
				}
				ch := make(chan res, 1)
				go func(rd *bufio.Reader) {
					b, err := rd.ReadBytes('\n')
					ch <- res{b, err}
				}(rd)
				var r res
				timeout := false
				select {
				case r = <-ch:
				case <-time.After(time.Until(deadline)):
					timeout = true
				}
				o := newOutput()
				if timeout || r.err != nil || json.Unmarshal(r.b, o) != nil {
					cmd.Process.Kill()
					cmd.Wait()
					cmd = nil
					why := "the worker ended without an answer"
					if timeout {
						why = "no time left"
					}
					mu.Lock()
					lost(h, why)
					mu.Unlock()
					continue
				}
				mu.Lock()
				merge(o)
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	for _, h := range hs {
		if o, ok := byName[h.Name]; ok {
			out.Harnesses = append(out.Harnesses, o)
		}
	}
	sort.Slice(out.Harnesses, func(i, j int) bool { return out.Harnesses[i].Name < out.Harnesses[j].Name })
	out.Covered, out.Contracts, out.Assumed = sortedKeys(cov), sortedKeys(con), sortedKeys(ass)
}
