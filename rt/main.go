// Command vcrt searches for inputs on which the real code breaks a property.
// It is built inside the module of the code under test through an overlay.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type violation struct {
	Property string `json:"property"`
	Key      string `json:"key"` // short class of the failure
	What     string `json:"what"`
	Input    string `json:"input"`
	Expected string `json:"expected"`
	Got      string `json:"got"`
	CaseSeed int64  `json:"case_seed"`
}

type result struct {
	Evaluations int         `json:"evaluations"`
	Distinct    int         `json:"distinct_nontrivial"`
	Samples     []string    `json:"samples"`
	Violations  []violation `json:"violations"`
	Known       []string    `json:"known"`
	hashes      map[uint64]bool
}

type ctx struct {
	prop    string
	g       *gen
	d       *dict
	gr      *grammarRef
	dir     string // scratch directory of this worker
	bin     string
	seed    int64
	res     *result
	verbose bool
}

type failStop struct{}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func (c *ctx) fail(key, what, input, want, got string) {
	c.res.Violations = append(c.res.Violations, violation{c.prop, key, what, clip(input, 20000), clip(want, 6000), clip(got, 6000), c.seed})
	panic(failStop{})
}

// nontrivial records a distinct case that exercises the property.
func (c *ctx) nontrivial(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	c.res.hashes[h.Sum64()] = true
	if len(c.res.Samples) < 4 && len(s) < 400 {
		c.res.Samples = append(c.res.Samples, strconv.Quote(s))
	}
}

var props = map[string]func(*ctx){}

func sortStrings(s []string) { sort.Strings(s) }
func sortInts(s []int)       { sort.Ints(s) }

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	secs := flag.Float64("secs", 10, "")
	workers := flag.Int("workers", 6, "")
	worker := flag.Int("worker", -1, "")
	out := flag.String("out", "", "")
	ref := flag.String("ref", "/verif/ref/logstash.peg", "")
	base := flag.String("base", "/verif/rt/baselits.txt", "")
	repo := flag.String("repo", "/repo", "")
	bin := flag.String("bin", "", "")
	lits := flag.Bool("lits", false, "")
	one := flag.Int64("case", 0, "run a single case")
	cases := flag.Int("cases", 0, "")
	mark := flag.String("mark", "", "")
	known := flag.String("known", "", "replay the findings listed in this file")
	table := flag.Bool("table", false, "evaluate the grammar table")
	flag.Parse()
	if *table {
		evalTable(*ref, *repo, *out)
		return
	}
	if *lits {
		m := scanLits(*repo)
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if !strings.Contains(k, "\n") {
				fmt.Printf("%d %s\n", m[k], k)
			}
		}
		return
	}
	debug.SetMaxStack(512 << 20)
	if *known != "" {
		replayKnown(*known, *prop)
		return
	}
	if *worker < 0 && *one == 0 {
		parent(*prop, *seed, *secs, *workers, *out, *ref, *base, *repo, *bin, *cases)
		return
	}
	fn := props[*prop]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	d := loadDict(*repo, *base)
	gr := loadGrammar(*ref)
	res := &result{hashes: map[uint64]bool{}}
	dir, err := os.MkdirTemp("", "vcrt")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.Chdir(dir)
	var mf *os.File
	if *mark != "" {
		mf, _ = os.OpenFile(*mark, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
	}
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	run := func(cs int64) (stop bool) {
		c := &ctx{prop: *prop, g: newGen(cs, d, gr), d: d, gr: gr, dir: dir, bin: *bin, seed: cs, res: res, verbose: *one != 0}
		if mf != nil {
			mf.WriteAt([]byte(fmt.Sprintf("%20d", cs)), 0)
		}
		defer func() {
			if e := recover(); e != nil {
				stop = true
				if _, ok := e.(failStop); !ok {
					res.Violations = append(res.Violations, violation{Property: *prop, Key: "panic", What: "the code under test panicked", Got: clip(fmt.Sprint(e), 2000) + "\n" + clip(string(debug.Stack()), 4000), CaseSeed: cs})
				}
			}
		}()
		res.Evaluations++
		fn(c)
		return false
	}
	if *one != 0 {
		run(*one)
	} else {
		for i := int64(0); ; i++ {
			if *cases > 0 && int(i) >= *cases || *cases == 0 && time.Now().After(deadline) {
				break
			}
			if run(*seed*1000003 + int64(*worker)*10000019 + i*7919 + 1) {
				break
			}
		}
	}
	res.Distinct = len(res.hashes)
	b, _ := json.MarshalIndent(res, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}

func parent(prop string, seed int64, secs float64, n int, out, ref, base, repo, bin string, cases int) {
	tmp, err := os.MkdirTemp("", "vcrtp")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	total := result{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			o := filepath.Join(tmp, fmt.Sprintf("o%d", w))
			mark := filepath.Join(tmp, fmt.Sprintf("m%d", w))
			cmd := exec.Command(self, "-prop", prop, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(secs), "-worker", fmt.Sprint(w), "-out", o, "-ref", ref, "-base", base, "-repo", repo, "-bin", bin, "-cases", fmt.Sprint(cases), "-mark", mark)
			var eb strings.Builder
			cmd.Stderr = &eb
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
			cmd.WaitDelay = time.Second
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			hang := false
			var werr error
			// a worker whose current case does not change for a long time hangs in it
			last, since := "", time.Now()
			tick := time.NewTicker(500 * time.Millisecond)
			defer tick.Stop()
		loop:
			for {
				select {
				case werr = <-done:
					break loop
				case <-tick.C:
					b, _ := os.ReadFile(mark)
					if string(b) != last {
						last, since = string(b), time.Now()
					} else if time.Since(since) > 60*time.Second {
						hang = true
						cmd.Process.Kill()
						werr = <-done
						break loop
					}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			b, rerr := os.ReadFile(o)
			var r result
			if rerr == nil && json.Unmarshal(b, &r) == nil {
				total.Evaluations += r.Evaluations
				total.Distinct += r.Distinct
				if len(total.Samples) < 4 {
					total.Samples = append(total.Samples, r.Samples...)
				}
				total.Violations = append(total.Violations, r.Violations...)
				return
			}
			mk, _ := os.ReadFile(mark)
			cs, _ := strconv.ParseInt(strings.TrimSpace(string(mk)), 10, 64)
			key, what := "crash", "the process died while the code under test ran"
			if hang {
				key, what = "hang", "the code under test did not return within 60 s"
			}
			total.Violations = append(total.Violations, violation{Property: prop, Key: key, What: what, Got: clip(fmt.Sprint(werr)+"\n"+eb.String(), 5000), CaseSeed: cs})
		}(w)
	}
	wg.Wait()
	b, _ := json.MarshalIndent(total, "", " ")
	if out != "" {
		os.WriteFile(out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}
