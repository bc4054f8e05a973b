package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func repoDir() string { return cwd() }

// overlayFiles maps virtual files of /repo to the harness sources in /verif.
func overlayFiles(root, id string) (map[string]string, error) {
	m := map[string]string{}
	add := func(src, dst string) error {
		l, err := filepath.Glob(filepath.Join(src, "*.go"))
		if err != nil {
			return err
		}
		for _, f := range l {
			m[filepath.Join(dst, filepath.Base(f))] = f
		}
		return nil
	}
	repo := repoDir()
	if err := add(filepath.Join(root, "harness", "rt"), filepath.Join(repo, "verifrt")); err != nil {
		return nil, err
	}
	// helpers shared by the harnesses
	if err := add(filepath.Join(root, "harness", "hx"), filepath.Join(repo, "verifhx")); err != nil {
		return nil, err
	}
	dst := filepath.Join(repo, "verifharness", id)
	dir := filepath.Join(root, "harness", id)
	if isRun(id) {
		if err := add(filepath.Join(root, "harness", "run"), repo); err != nil {
			return nil, err
		}
		return m, add(dir, repo)
	}
	if _, err := os.Stat(filepath.Join(dir, "INPACKAGE")); err == nil {
		b, _ := os.ReadFile(filepath.Join(dir, "INPACKAGE"))
		dst = filepath.Join(repo, strings.TrimSpace(string(b)))
	}
	return m, add(dir, dst)
}

// A harness of whole runs of the command lies in the folder run of the harness of its property. Its functions are
// called CheckRun...
func isRun(id string) bool { return filepath.Base(id) == "run" }

func units(root, id string) []string {
	if st, err := os.Stat(filepath.Join(root, "harness", id, "run")); err == nil && st.IsDir() {
		if l, _ := filepath.Glob(filepath.Join(root, "harness", id, "*.go")); len(l) == 0 {
			return []string{id + "/run"}
		}
		return []string{id + "/run", id}
	}
	return []string{id}
}

func harnessPattern(root, id string) string {
	dir := filepath.Join(root, "harness", id)
	if isRun(id) {
		return "."
	}
	if b, err := os.ReadFile(filepath.Join(dir, "INPACKAGE")); err == nil {
		return "./" + strings.TrimSpace(string(b))
	}
	return "./verifharness/" + id
}

func loadHarness(root, id string) (*Engine, error) {
	var sp spec
	if b, err := os.ReadFile(filepath.Join(root, "harness", id, "spec.json")); err == nil {
		json.Unmarshal(b, &sp)
	}
	wholeRun = isRun(id)
	frontEndOn = sp.FrontEnd || wholeRun
	fm, err := overlayFiles(root, id)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range fm {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	e, err := load(repoDir(), harnessPattern(root, id), ov)
	if err != nil {
		return nil, err
	}
	return e, e.initialise()
}

func (e *Engine) checkFuncs(rx string) []*ssa.Function {
	re := regexp.MustCompile(rx)
	var fs []*ssa.Function
	for n, m := range e.main.Members {
		fn, ok := m.(*ssa.Function)
		if ok && strings.HasPrefix(n, "Check") && fn.Signature.Params().Len() == 0 && re.MatchString(n) {
			fs = append(fs, fn)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine run|check|replay ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	root := fs.String("root", "/verif", "verification directory")
	fn := fs.String("func", ".", "check functions (regexp)")
	tmo := fs.Duration("timeout", 60*time.Second, "time per function")
	workers := fs.Int("workers", runtime.NumCPU(), "workers")
	solver := fs.String("solver", "z3", "solver")
	solverMS := fs.Int("solverms", 20000, "solver timeout per query (ms)")
	seed := fs.Int64("seed", 1, "seed")
	debug := fs.Bool("debug", false, "debug")
	tier := fs.String("tier", "", "quick or thorough")
	prof := fs.String("prof", "", "cpu profile")
	ev := fs.String("evidence", "", "evidence file")
	novalidate := fs.Bool("novalidate", false, "skip native validation")
	fs.Parse(os.Args[2:])
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	opt := Options{Workers: *workers, Timeout: *tmo, SolverMS: *solverMS, Solver: *solver, Seed: *seed, Samples: 6, Debug: *debug}
	switch cmd {
	case "run":
		id := fs.Arg(0)
		if strings.Contains(*fn, "CheckRun") {
			id += "/run"
		}
		deepTier = *tier == "thorough"
		t0 := time.Now()
		e, err := loadHarness(*root, id)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Printf("loaded in %v\n", time.Since(t0))
		for _, f := range e.checkFuncs(*fn) {
			t0 := time.Now()
			r := e.explore(f, opt)
			fmt.Printf("%s: paths %d pruned %d decisions %d instrs %d queries %d (sat %d unsat %d unknown %d) solver %v asserts %d discharged %d trivial %d depth %d in %v\n", f.Name(), r.stats.Paths, r.stats.Pruned, r.stats.Decisions, r.stats.Instrs, r.stats.Queries, r.stats.Sat, r.stats.Unsat, r.stats.Unknown, time.Duration(r.stats.SolverNS), r.stats.Asserts, r.stats.Discharged, r.stats.Trivial, r.maxDepth, time.Since(t0))
			fmt.Printf("  reached %v\n", r.reached)
			for _, n := range r.noteList() {
				fmt.Println("  note:", trunc(n, 400))
			}
			for _, c := range r.cands {
				b, _ := json.Marshal(c.Vals)
				fmt.Println("  CAND", c.Kind, trunc(c.Msg, 300), trunc(string(b), 600))
			}
			if *debug {
				for _, s := range r.samples {
					b, _ := json.Marshal(s)
					fmt.Println("  SAMPLE", trunc(string(b), 500))
				}
			}
		}
	case "check":
		os.Exit(check(*root, fs.Arg(0), *tier, *ev, opt, *fn, !*novalidate))
	case "replay":
		os.Exit(replayCmd(*root, fs.Arg(0)))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var deepTier bool
