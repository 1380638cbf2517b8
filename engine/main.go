package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type runSpec struct {
	Name      string           `json:"name"` // pkg.Func relative to the harness module
	Params    map[string]int64 `json:"params"`
	MaxPaths  int64            `json:"max_paths"`
	MaxSteps  int64            `json:"max_steps"`
	Seconds   float64          `json:"seconds"`
	Timeout   int              `json:"timeout_ms"`
	Stop      int              `json:"stop_after"`
	Workers   int              `json:"workers"`
	NoSamples bool             `json:"no_samples"`
}

func main() {
	dir := flag.String("dir", "", "harness module directory")
	repo := flag.String("repomod", "github.com/continusec/verifiabledatastructures", "repository module path")
	spec := flag.String("spec", "", "JSON file with the list of runs")
	one := flag.String("run", "", "single harness pkg.Func")
	params := flag.String("params", "", "k=v,...")
	out := flag.String("out", "", "result file")
	workers := flag.Int("workers", runtime.NumCPU(), "")
	seconds := flag.Float64("seconds", 600, "")
	z3 := flag.String("z3", "z3-new", "")
	timeout := flag.Int("timeout", 20000, "ms per query")
	steps := flag.Int64("steps", 30000000, "")
	trace := flag.Bool("trace", false, "")
	memprofile := flag.String("memprofile", "", "")
	instr := flag.String("instrument", "", "only write an overlay here in which the statements of the sources below the arguments can be delayed")
	flag.Parse()
	if *instr != "" {
		if err := instrument(*instr, flag.Args()); err != nil {
			fatal(err)
		}
		return
	}
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(memoryLimit())
	if p := os.Getenv("GOSYM_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var specs []runSpec
	if *one != "" {
		s := runSpec{Name: *one, Params: map[string]int64{}}
		for _, kv := range strings.Split(*params, ",") {
			if i := strings.Index(kv, "="); i > 0 {
				v, _ := strconv.ParseInt(kv[i+1:], 10, 64)
				s.Params[kv[:i]] = v
			}
		}
		specs = []runSpec{s}
	} else {
		b, err := os.ReadFile(*spec)
		if err != nil {
			fatal(err)
		}
		if err := json.Unmarshal(b, &specs); err != nil {
			fatal(err)
		}
	}
	pk := map[string]bool{}
	pats := []string{"./models"}
	for _, s := range specs {
		p := "./" + s.Name[:strings.LastIndex(s.Name, ".")]
		if !pk[p] {
			pk[p] = true
			pats = append(pats, p)
		}
	}
	t0 := time.Now()
	prog, err := load(*dir, *repo, pats)
	if err != nil {
		fatal(err)
	}
	loadS := time.Since(t0).Seconds()
	deadline := time.Now().Add(time.Duration(*seconds * float64(time.Second)))
	var results []*Result
	for _, s := range specs {
		i := strings.LastIndex(s.Name, ".")
		sp := prog.pkgs[harnessMod+"/"+s.Name[:i]]
		var fn *ssa.Function
		if sp != nil {
			fn = sp.Func(s.Name[i+1:])
		}
		if fn == nil {
			fatal(fmt.Errorf("no harness %s", s.Name))
		}
		c := &Config{Z3: *z3, Timeout: *timeout, MaxSteps: *steps, MaxPaths: 1 << 40, Params: s.Params, Workers: *workers, Trace: *trace, StopAfter: 1, Samples: !s.NoSamples, Deadline: deadline}
		if s.Timeout > 0 {
			c.Timeout = s.Timeout
		}
		if s.MaxSteps > 0 {
			c.MaxSteps = s.MaxSteps
		}
		if s.MaxPaths > 0 {
			c.MaxPaths = s.MaxPaths
		}
		if s.Stop > 0 {
			c.StopAfter = s.Stop
		}
		if s.Workers > 0 {
			c.Workers = s.Workers
		}
		if s.Seconds > 0 {
			d := time.Now().Add(time.Duration(s.Seconds * float64(time.Second)))
			if d.Before(c.Deadline) {
				c.Deadline = d
			}
		}
		r := runHarness(prog, fn, c)
		r.Harness = s.Name
		for k, v := range prog.notes {
			r.Notes[k] = v
		}
		results = append(results, r)
		if *memprofile != "" {
			if f, err := os.Create(*memprofile); err == nil {
				pprof.WriteHeapProfile(f)
				f.Close()
			}
		}
		fmt.Fprintf(os.Stderr, "%s %v: paths=%d pruned=%d asserts=%d(q %d) queries=%d unsat=%d unknown=%d solver=%.1fs wall=%.1fs depth=%d steps=%d reach=%v inconclusive=%v violations=%d\n", s.Name, s.Params,
			r.Paths, r.Pruned, r.Asserts, r.AssertQ, r.Queries, r.Unsat, r.Unknown, r.SolverS, r.WallS, r.MaxDepth, r.Steps, r.Reached, r.Inconcl, len(r.Violations))
		for _, v := range r.Violations {
			fmt.Fprintf(os.Stderr, "  %s: %s\n", v.Kind, v.Msg)
			for _, in := range v.Inputs {
				fmt.Fprintf(os.Stderr, "     %s (%s) = %s\n", in.Name, in.Kind, in.Val)
			}
			for _, l := range firstN(v.Stack, 8) {
				fmt.Fprintf(os.Stderr, "     at %s\n", l)
			}
		}
	}
	dumpForks()
	if *out != "" {
		b, _ := json.MarshalIndent(map[string]any{"load_s": loadS, "results": results}, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fatal(err)
		}
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "gosym:", err)
	os.Exit(2)
}

// memoryLimit is what the heap may grow to before it is collected more often: half
// of what is free, up to 10 GB.
func memoryLimit() int64 {
	lim := int64(10 << 30)
	b, _ := os.ReadFile("/proc/meminfo")
	for _, l := range strings.Split(string(b), "\n") {
		var kb int64
		if n, _ := fmt.Sscanf(l, "MemAvailable: %d kB", &kb); n == 1 && kb<<9 < lim {
			lim = kb << 9
		}
	}
	if lim < 2<<30 {
		lim = 2 << 30
	}
	return lim
}
