package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// spec is harness/<id>/spec.json.
type spec struct {
	Property    string             `json:"property"`
	Bounds      []string           `json:"bounds"`
	Outside     []string           `json:"outside"`
	Assumptions []string           `json:"assumptions"`
	Functions   map[string]*fnSpec `json:"functions"`
	FrontEnd    bool               `json:"front_end"` // the C front end is modelled
}

type fnSpec struct {
	Quick    int    `json:"quick"`    // seconds
	Thorough int    `json:"thorough"` // seconds
	Retries  int    `json:"retries"`  // native attempts for order- or schedule-dependent counterexamples
	NoObs    bool   `json:"noobs"`    // observations depend on an order the native run does not control
	DeepOnly bool   `json:"deep_only"`
	Budget   string `json:"budget"` // "fail": running out of the instruction budget is a candidate nontermination
	Solver   string `json:"solver"`
	MaxInstr int64  `json:"max_instrs"`
}

type known struct {
	Property string `json:"property"`
	Function string `json:"function"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"` // commit that repaired it: a fixed entry suppresses nothing
}

func loadKnown(root string) []known {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil {
			ks = append(ks, k)
		}
	}
	return ks
}

type native struct {
	bin string
	dir string
	n   int
	mu  sync.Mutex
}

// buildNative compiles the same harness with the ordinary Go toolchain against the same tree.
func buildNative(root, id string) (*native, error) {
	fm, err := overlayFiles(root, id)
	if err != nil {
		return nil, err
	}
	dir, err := os.MkdirTemp("", "verif-native-")
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(map[string]any{"Replace": fm})
	ov := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return nil, err
	}
	n := &native{bin: filepath.Join(dir, "harness"), dir: dir}
	cmd := exec.Command("go", "build", "-buildvcs=false", "-overlay", ov, "-o", n.bin, harnessPattern(root, id))
	cmd.Dir = repoDir()
	out, err := cmd.CombinedOutput()
	if err != nil {
		os.RemoveAll(dir)
		return nil, fmt.Errorf("native build: %v: %s", err, trunc(string(out), 1500))
	}
	return n, nil
}

func (n *native) close() {
	if n != nil {
		os.RemoveAll(n.dir)
	}
}

type nativeResult struct {
	fails    []string
	panicTxt string
	obs      []string
	done     bool
	assume   bool
	timeout  bool
	missing  int
	out      string
}

func (n *native) run(fn string, vals map[string]any, deep bool, tmo time.Duration) nativeResult {
	n.mu.Lock()
	n.n++
	f := filepath.Join(n.dir, fmt.Sprintf("v%d.json", n.n))
	wd := filepath.Join(n.dir, fmt.Sprintf("w%d", n.n))
	n.mu.Unlock()
	b, _ := json.Marshal(vals)
	os.WriteFile(f, b, 0o644)
	os.Mkdir(wd, 0o755)
	defer os.Remove(f)
	defer os.RemoveAll(wd)
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	argv := append(faultArgs(vals, wd), n.bin)
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "VERIF_FUNC="+fn, "VERIF_VALUES="+f, "GOTRACEBACK=single", "TMPDIR="+wd)
	if deep {
		cmd.Env = append(cmd.Env, "VERIF_DEEP=1")
	}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	r := nativeResult{out: buf.String()}
	if len(argv) > 1 {
		if b, _ := os.ReadFile(filepath.Join(wd, "trace")); !bytes.Contains(b, []byte("INJECTED")) {
			r.assume = true // the fault did not happen
			r.out += "(no fault injected)\n"
			return r
		}
	}
	for _, l := range strings.Split(r.out, "\n") {
		switch {
		case strings.HasPrefix(l, "ASSERT-FAILED "):
			s, e := strconv.Unquote(strings.TrimPrefix(l, "ASSERT-FAILED "))
			if e == nil {
				r.fails = append(r.fails, s)
			}
		case strings.HasPrefix(l, "OBS "):
			if s, e := strconv.Unquote(strings.TrimPrefix(l, "OBS ")); e == nil {
				r.obs = append(r.obs, s)
			}
		case strings.HasPrefix(l, "PANIC "):
			r.panicTxt, _ = strconv.Unquote(strings.TrimPrefix(l, "PANIC "))
			if r.panicTxt == "" {
				r.panicTxt = l
			}
		case strings.HasPrefix(l, "ASSUME-FAILED"):
			r.assume = true
		case strings.HasPrefix(l, "DONE "):
			r.done = true
			if i := strings.Index(l, "missing="); i >= 0 {
				r.missing, _ = strconv.Atoi(l[i+8:])
			}
		}
	}
	if ctx.Err() != nil {
		r.timeout = true
	} else if err != nil && !r.done {
		r.panicTxt = firstLineWith(r.out, "panic:", "fatal error:", "exit")
		if r.panicTxt == "" {
			r.panicTxt = err.Error()
		}
	} else if !r.done && err == nil {
		r.panicTxt = "the process exited"
	}
	return r
}

// faultArgs is the command prefix that makes the system call of a fault in vals fail for its file.
func faultArgs(vals map[string]any, wd string) []string {
	calls := map[string]string{"mkdir": "mkdirat", "create": "openat", "write": "write", "close": "close", "rename": "renameat"}
	for k, v := range vals {
		if on, _ := v.(bool); !on || !strings.HasPrefix(k, "fault:") {
			continue
		}
		k = strings.TrimPrefix(k, "fault:")
		i, j := strings.Index(k, ":"), strings.LastIndex(k, "#")
		if i < 0 || j < i {
			continue
		}
		nth, _ := strconv.Atoi(k[j+1:])
		call, ok := calls[k[:i]]
		if !ok {
			continue
		}
		p := filepath.Join(wd, "scratch", strings.TrimPrefix(k[i+1:j], scratch))
		return []string{"strace", "-f", "-qq", "-o", filepath.Join(wd, "trace"), "-P", p, "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:error=EIO:when=%d", call, nth+1)}
	}
	return nil
}

func firstLineWith(s string, keys ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, k := range keys {
			if strings.Contains(l, k) {
				return l
			}
		}
	}
	return ""
}

// reproduce replays a candidate on the native build; the result is the message it violates, if it does.
func (n *native) reproduce(fn string, c *Violation, fs *fnSpec, deep bool) (string, bool) {
	tries := 8 // what depends on an order the native run does not control may need more than one
	if fs != nil && fs.Retries > 1 {
		tries = fs.Retries
	}
	tmo := 60 * time.Second
	if c.Kind == "budget" {
		tries, tmo = 1, 40*time.Second
	}
	type res struct {
		msg string
		ok  bool
	}
	stop := false
	var mu sync.Mutex
	var found res
	try := func() {
		r := n.run(fn, c.Vals, deep, tmo)
		var x res
		switch {
		case r.assume && len(r.fails) == 0:
		case c.Kind == "budget":
			if r.timeout {
				x = res{c.Msg, true}
			}
		case len(r.fails) > 0:
			x = res{r.fails[0], true}
			for _, f := range r.fails {
				if f == c.Msg {
					x.msg = f
				}
			}
		case r.timeout && (c.Kind == "deadlock" || c.Kind == "assert"):
			x = res{c.Msg, true}
		case r.panicTxt != "":
			x = res{c.Msg, true}
			if c.Kind == "assert" {
				x.msg = "panic: " + r.panicTxt
			}
		}
		mu.Lock()
		if x.ok && (!found.ok || x.msg == c.Msg) {
			found, stop = x, true
		}
		mu.Unlock()
	}
	if tries == 1 {
		try()
		return found.msg, found.ok
	}
	try()
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i := 1; i < tries; i++ {
		mu.Lock()
		s := stop
		mu.Unlock()
		if s {
			break
		}
		sem <- true
		wg.Add(1)
		go func() { defer wg.Done(); try(); <-sem }()
	}
	wg.Wait()
	return found.msg, found.ok
}

type replayFile struct {
	Property string         `json:"property"`
	Function string         `json:"function"`
	Message  string         `json:"message"`
	Kind     string         `json:"kind"`
	Deep     bool           `json:"deep,omitempty"`
	Retries  int            `json:"retries,omitempty"`
	Values   map[string]any `json:"values"`
	Replay   string         `json:"replay_with"`
}

type fnReport struct {
	Name         string   `json:"function"`
	Paths        int64    `json:"paths"`
	Pruned       int64    `json:"paths_outside_assumptions"`
	Decisions    int64    `json:"branch_decisions"`
	Instrs       int64    `json:"instructions_executed_symbolically"`
	Domain       int64    `json:"alternatives_excluded_by_byte_domains"`
	Confirmed    int64    `json:"of_those_confirmed_by_solver"`
	Queries      int64    `json:"queries"`
	Sat          int64    `json:"sat"`
	Unsat        int64    `json:"unsat"`
	Unknown      int64    `json:"unknown"`
	SolverS      float64  `json:"solver_s"`
	Asserts      int64    `json:"assertions_reached"`
	Discharged   int64    `json:"assertions_discharged"`
	NoSymbol     int64    `json:"assertions_no_symbolic_input_reaches"`
	Exhausted    bool     `json:"bounded_space_exhausted"`
	Candidates   int      `json:"counterexamples"`
	Reproduced   int      `json:"counterexamples_reproduced"`
	Validated    int      `json:"paths_replayed_natively"`
	Disagree     int      `json:"replays_disagreeing_with_encoding"`
	WallS        float64  `json:"wall_s"`
	Notes        []string `json:"notes,omitempty"`
	Unreached    []string `json:"labels_not_reached,omitempty"`
	reachedLabel map[string]int
}

func round2(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

func check(root, id, tier, ev string, opt Options, fnRx string, validate bool) int {
	start := time.Now()
	deepTier = tier == "thorough"
	if tier == "" {
		tier = "quick"
	}
	if ev == "" {
		ev = filepath.Join(root, "evidence", id+".json")
	}
	sp := spec{Property: id}
	if b, err := os.ReadFile(filepath.Join(root, "harness", id, "spec.json")); err == nil {
		if err := json.Unmarshal(b, &sp); err != nil {
			fmt.Fprintln(os.Stderr, "spec.json:", err)
			return 2
		}
	}
	seed := opt.Seed
	evidence := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking"}
	coverage := map[string]any{"states": int64(0), "transitions": int64(0), "traces_validated_against_impl": 0, "samples": []any{}}
	finish := func(violations int) {
		evidence["coverage"] = coverage
		evidence["wall_s"] = round2(time.Since(start))
		evidence["violations"] = violations
		evidence["assumptions"] = append([]string{}, sp.Assumptions...)
		b, _ := json.MarshalIndent(evidence, "", " ")
		os.MkdirAll(filepath.Dir(ev), 0o755)
		os.WriteFile(ev, append(b, '\n'), 0o644)
	}
	coverage["bounds"] = sp.Bounds
	coverage["outside_the_bounds"] = sp.Outside

	knowns := loadKnown(root)
	knownHit := map[string]bool{}
	var reports []*fnReport
	var samples []any
	violations := 0
	replays := filepath.Join(root, "replays")
	var total Stats
	traces := 0
	encoded := map[string]bool{}
	one := func(unit string) {
		type nres struct {
			n   *native
			err error
		}
		nch := make(chan nres, 1)
		go func() {
			n, err := buildNative(root, unit)
			nch <- nres{n, err}
		}()
		e, err := loadHarness(root, unit)
		if err != nil {
			// The harness does not fit this tree (or the tree does not compile): nothing was decided.
			nr := <-nch
			nr.n.close()
			fmt.Printf("NOTE property=%s nothing decided, the harness could not be encoded: %s\n", id, trunc(err.Error(), 600))
			coverage["not_decided"] = trunc(err.Error(), 600)
			return
		}
		nr := <-nch
		if nr.err != nil {
			fmt.Printf("NOTE property=%s nothing decided, the harness could not be built: %s\n", id, trunc(nr.err.Error(), 600))
			coverage["not_decided"] = trunc(nr.err.Error(), 600)
			return
		}
		nat := nr.n
		defer nat.close()

		for _, f := range e.checkFuncs(fnRx) {
			fsx := sp.Functions[f.Name()]
			if fsx == nil {
				fsx = &fnSpec{}
			}
			if fsx.DeepOnly && !deepTier {
				continue
			}
			o := opt
			sec := fsx.Quick
			if sec == 0 {
				sec = 60
			}
			if deepTier {
				sec = fsx.Thorough
				if sec == 0 {
					sec = 600
				}
			}
			// the whole check is bounded too
			limit, left := 400, 0
			if deepTier {
				limit = 7200
			}
			if left = limit - int(time.Since(start).Seconds()); left < 5 {
				left = 5
			}
			if sec > left {
				sec = left
			}
			o.Timeout = time.Duration(sec) * time.Second
			if fsx.Solver != "" {
				o.Solver = fsx.Solver
			}
			if fsx.MaxInstr != 0 {
				o.MaxInstrs = fsx.MaxInstr
			}
			t0 := time.Now()
			r := e.explore(f, o)
			rep := &fnReport{Name: f.Name(), Paths: r.stats.Paths, Pruned: r.stats.Pruned, Decisions: r.stats.Decisions, Instrs: r.stats.Instrs,
				Domain: r.stats.Domain, Confirmed: r.stats.Confirmed, Queries: r.stats.Queries, Sat: r.stats.Sat, Unsat: r.stats.Unsat, Unknown: r.stats.Unknown, SolverS: round2(time.Duration(r.stats.SolverNS)),
				Asserts: r.stats.Asserts, Discharged: r.stats.Discharged, NoSymbol: r.stats.Trivial, Exhausted: r.incomplete.Load() == 0,
				Candidates: len(r.cands), Notes: r.noteList(), reachedLabel: r.reached}
			total.Paths += r.stats.Paths
			total.Decisions += r.stats.Decisions
			// which labels of this function stayed unreached
			for _, l := range e.reachLabels(f) {
				if r.reached[l] == 0 {
					rep.Unreached = append(rep.Unreached, l)
				}
			}
			// replay every counterexample
			doneMsg := map[string]int{}
			sort.SliceStable(r.cands, func(i, j int) bool { return r.cands[i].Kind == "assert" && r.cands[j].Kind != "assert" })
			for _, c := range r.cands {
				k := c.Kind + ":" + c.Msg
				if doneMsg[k] > 0 {
					continue
				}
				if c.Kind == "budget" && fsx.Budget != "fail" {
					continue
				}
				if violations >= 12 {
					break
				}
				msg, ok := nat.reproduce(f.Name(), c, fsx, deepTier)
				traces++
				if !ok {
					rep.Notes = append(rep.Notes, "counterexample not reproduced natively, not reported: "+trunc(c.Msg, 200))
					continue
				}
				doneMsg[k]++
				rep.Reproduced++
				isKnown := false
				for _, kn := range knowns {
					if kn.Fixed == "" && kn.Property == id && kn.Function == f.Name() && kn.Msg == msg {
						isKnown = true
						if !knownHit[kn.What] {
							knownHit[kn.What] = true
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kn.What)
						}
					}
				}
				if isKnown {
					continue
				}
				violations++
				os.MkdirAll(replays, 0o755)
				path := filepath.Join(replays, fmt.Sprintf("%s-%s-%d.json", id, f.Name(), violations))
				b, _ := json.MarshalIndent(replayFile{Property: id, Function: f.Name(), Message: msg, Kind: c.Kind, Deep: deepTier, Retries: fsx.Retries, Values: c.Vals, Replay: "/verif/check.sh replay " + path}, "", " ")
				os.WriteFile(path, append(b, '\n'), 0o644)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
				fmt.Printf("  %s: %s\n", f.Name(), trunc(msg, 500))
			}
			// compare sampled paths with the native build
			if validate {
				var mu sync.Mutex
				var wg sync.WaitGroup
				sem := make(chan bool, 8)
				for _, s := range r.samples {
					wg.Add(1)
					sem <- true
					go func(s sample) {
						defer wg.Done()
						defer func() { <-sem }()
						nr := nat.run(f.Name(), s.Values, deepTier, 60*time.Second)
						mu.Lock()
						defer mu.Unlock()
						rep.Validated++
						traces++
						bad := ""
						if nr.assume || nr.missing > 0 {
							bad = fmt.Sprintf("assume failed %v, inputs missing %d", nr.assume, nr.missing)
						} else if !fsx.NoObs && strings.Join(nr.obs, "\x00") != strings.Join(s.Obs, "\x00") {
							bad = fmt.Sprintf("native %q, encoding %q", nr.obs, s.Obs)
						}
						if bad != "" {
							rep.Disagree++
							v, _ := json.Marshal(s.Values)
							rep.Notes = append(rep.Notes, "native replay disagrees: "+trunc(bad, 700)+" on "+trunc(string(v), 300))
						}
					}(s)
				}
				wg.Wait()
			}
			for i, s := range r.samples {
				if i < 2 {
					for j := range s.Obs {
						s.Obs[j] = trunc(s.Obs[j], 300)
					}
					samples = append(samples, map[string]any{"function": f.Name(), "values": s.Values, "observed": s.Obs})
				}
			}
			rep.WallS = round2(time.Since(t0))
			reports = append(reports, rep)
			state := "exhausted"
			if !rep.Exhausted {
				state = "REDUCED"
			}
			fmt.Printf("%s %s: %d paths, %d queries (%d sat, %d unsat, %d unknown), %d/%d assertions discharged, %s, %d replayed natively (%d disagree), %.1fs\n",
				id, f.Name(), rep.Paths, rep.Queries, rep.Sat, rep.Unsat, rep.Unknown, rep.Discharged, rep.Asserts, state, rep.Validated, rep.Disagree, rep.WallS)
			for _, n := range rep.Notes {
				fmt.Println("  note:", trunc(n, 600))
			}
			if len(rep.Unreached) > 0 {
				fmt.Println("  note: labels not reached:", rep.Unreached)
			}
		}
		for _, n := range e.encodedRepo() {
			encoded[n] = true
		}
	}
	for _, unit := range units(root, id) {
		one(unit)
	}
	coverage["states"] = total.Paths
	coverage["transitions"] = total.Decisions
	coverage["traces_validated_against_impl"] = traces
	coverage["samples"] = samples
	coverage["functions"] = reports
	coverage["encoded"] = sortedKeys(encoded)
	coverage["rule"] = "states are feasible symbolic paths (each stands for all inputs satisfying its path condition), transitions are symbolic branch decisions"
	finish(violations)
	if violations > 0 {
		return 1
	}
	return 0
}

// encodedRepo lists the functions of the repository that were executed symbolically.
func (e *Engine) encodedRepo() []string {
	var l []string
	e.encoded.Range(func(k, v any) bool {
		n := k.(string)
		if strings.Contains(n, repoPath) && !strings.Contains(n, "verifrt") && !strings.Contains(n, "verifhx") && !strings.Contains(n, "verifharness") && !strings.Contains(n, ".init") {
			l = append(l, strings.ReplaceAll(n, repoPath+"/", ""))
		}
		return true
	})
	sort.Strings(l)
	return l
}

// reachLabels finds the labels of the calls of rt.Reach that f can make directly or through harness helpers.
func (e *Engine) reachLabels(f *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || fn.Pkg != nil && fn.Pkg != f.Pkg {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil {
					continue
				}
				if callee.Pkg != nil && callee.Pkg.Pkg.Path() == rtPkg && callee.Name() == "Reach" {
					if c, ok := ci.Common().Args[0].(*ssa.Const); ok {
						s, _ := strconv.Unquote(c.Value.ExactString())
						labels[s] = true
					}
					continue
				}
				visit(callee)
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	visit(f)
	return sortedKeys(labels)
}

var replayRx = regexp.MustCompile(`^[A-Za-z0-9]+$`)

// replayCmd runs a saved counterexample against the native build.
func replayCmd(root, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil || !replayRx.MatchString(rf.Property) {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		return 2
	}
	unit := rf.Property
	if strings.HasPrefix(rf.Function, "CheckRun") {
		unit += "/run"
	}
	n, err := buildNative(root, unit)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer n.close()
	msg, ok := n.reproduce(rf.Function, &Violation{Msg: rf.Message, Kind: rf.Kind, Vals: rf.Values}, &fnSpec{Retries: rf.Retries}, rf.Deep)
	r := n.run(rf.Function, rf.Values, rf.Deep, 60*time.Second)
	fmt.Print(r.out)
	if ok {
		fmt.Printf("REPRODUCED %s\n", msg)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
