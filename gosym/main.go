package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

func docOf(n ast.Node) string {
	if d, ok := n.(*ast.FuncDecl); ok && d.Doc != nil {
		s := ""
		for _, c := range d.Doc.List {
			t := c.Text
			if len(t) > 2 && t[:2] == "//" {
				t = t[2:]
			}
			s += t + "\n"
		}
		return s
	}
	return ""
}

// Harness is one entry point of a check.
type Harness struct {
	fn   *ssa.Function
	name string
	opts map[string]string // from //gosym:name value lines
	doc  string
}

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

type config struct {
	repo, verif, prop, tier string
	seed                    int
	only                    string
	verbose                 bool
	noReplay                bool
	budget                  time.Duration
	modOnce                 sync.Once
	modDir                  string
}

func main() {
	var c config
	flag.StringVar(&c.repo, "repo", "/repo", "")
	flag.StringVar(&c.verif, "verif", "/verif", "")
	flag.StringVar(&c.prop, "prop", "", "")
	flag.StringVar(&c.tier, "tier", "quick", "")
	flag.StringVar(&c.only, "only", "", "run only harnesses whose name contains this")
	flag.BoolVar(&c.verbose, "v", false, "")
	flag.BoolVar(&c.noReplay, "noreplay", false, "")
	budget := flag.Int("budget", 0, "seconds for all harnesses of the check")
	replay := flag.String("replay", "", "re-run one recorded violation natively")
	selftest := flag.Bool("selftest", false, "")
	flag.Parse()
	c.seed = 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		c.seed = s
	}
	if *selftest {
		runSelfTest()
		return
	}
	if c.prop == "" {
		fmt.Fprintln(os.Stderr, "-prop is required")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	c.budget = time.Duration(*budget) * time.Second
	if c.budget == 0 {
		c.budget = 300 * time.Second
		if c.tier == "thorough" {
			c.budget = 780 * time.Second
		}
	}
	code := 0
	if *replay != "" {
		code = c.replayFile(*replay)
	} else {
		code = c.check()
	}
	if c.modDir != "" {
		os.RemoveAll(c.modDir)
	}
	os.Exit(code)
}

// modfile is a throw-away copy of the repository's go.mod, so that no command rewrites it.
func (c *config) modfile() string {
	c.modOnce.Do(func() {
		dir, err := os.MkdirTemp("", "gosym-mod-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(c.repo, f))
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			os.WriteFile(filepath.Join(dir, f), b, 0o644)
		}
		c.modDir = dir
	})
	return filepath.Join(c.modDir, "go.mod")
}

func (c *config) pkgPath() string { return zz + "p/" + strings.ToLower(c.prop) }

type harnessReport struct {
	Name       string           `json:"harness"`
	What       string           `json:"what,omitempty"`
	Paths      map[string]int   `json:"paths"`
	Steps      int64            `json:"instructions"`
	Decisions  int64            `json:"decisions"`
	MaxDepth   int              `json:"longest_path_decisions"`
	Asserts    map[string]int   `json:"assertions_reached"`
	Discharged int              `json:"assertion_instances_discharged"`
	ByConst    int              `json:"of_these_already_decided_by_the_path_condition"`
	Unknown    map[string]int   `json:"assertion_unknown,omitempty"`
	Covers     map[string]int   `json:"witnesses_reached"`
	Incomplete map[string]int   `json:"outside_the_bound,omitempty"`
	Cuts       map[string]int   `json:"cut_branches,omitempty"`
	Wall       float64          `json:"wall_s"`
	Complete   bool             `json:"complete_within_bounds"`
	Queries    int64            `json:"solver_queries"`
	Sat        int64            `json:"sat"`
	Unsat      int64            `json:"unsat"`
	Unk        int64            `json:"unknown"`
	SolverS    float64          `json:"solver_s"`
	CrossOK    int64            `json:"unsat_confirmed_by_second_solver"`
	CrossBad   int64            `json:"solver_disagreements"`
	Errs       []string         `json:"solver_errors,omitempty"`
	Missing    []string         `json:"witnesses_missing,omitempty"`
	Bounds     string           `json:"bounds,omitempty"`
	Extra      map[string]int64 `json:"-"`
}

type candidate struct {
	harness string
	v       Violation
}

func (c *config) check() int {
	start := time.Now()
	w, err := Load(c.repo, filepath.Join(c.verif, "harness"), c.modfile(), []string{c.pkgPath(), zz + "models", zz + "vs"})
	if err != nil {
		// the tree does not build under the harness: report, never alarm
		fmt.Printf("CANNOT-CHECK property=%s %v\n", c.prop, err)
		c.writeEvidence(map[string]any{"explanation": "the harness could not be built against this tree: " + err.Error(), "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{"none"}}, nil, 0, start, nil)
		return 0
	}
	loadS := time.Since(start).Seconds()
	pkg := w.pkgs[c.pkgPath()]
	pkg.Build()
	var hs []Harness
	for name, m := range pkg.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "Check") || fn.Syntax() == nil {
			continue
		}
		if c.only != "" && !strings.Contains(name, c.only) {
			continue
		}
		h := Harness{fn: fn, name: name, opts: map[string]string{}}
		for _, l := range strings.Split(docOf(fn.Syntax()), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "gosym:") {
				k, v, _ := strings.Cut(strings.TrimPrefix(l, "gosym:"), " ")
				if o := h.opts[k]; o != "" {
					v = o + "," + v
				}
				h.opts[k] = strings.TrimSpace(v)
			} else if l != "" {
				h.doc += l + " "
			}
		}
		if h.opts["tier"] == "thorough" && c.tier != "thorough" {
			continue
		}
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness")
		return 2
	}

	// the native twin of the harnesses is compiled while the exploration runs
	var nat *native
	natCh := make(chan error, 1)
	if !c.noReplay {
		go func() {
			var err error
			nat, err = c.buildNative(hs)
			natCh <- err
		}()
	}

	var reports []*harnessReport
	var cands []candidate
	var traces []trace
	fns := map[string]bool{}
	weight := 0
	for _, h := range hs {
		weight += h.weight()
	}
	deadline := start.Add(c.budget)
	for _, h := range hs {
		left := time.Until(deadline)
		if left < 5*time.Second {
			left = 5 * time.Second
		}
		share := time.Duration(float64(left) * float64(h.weight()) / float64(weight))
		// what earlier harnesses leave unused is available to later ones
		weight -= h.weight()
		rep, vs, trs, fs := c.explore(w, h, share)
		reports = append(reports, rep)
		for _, v := range vs {
			cands = append(cands, candidate{h.name, v})
		}
		for _, t := range trs {
			traces = append(traces, trace{h.name, t})
		}
		for _, f := range fs {
			fns[f] = true
		}
		if c.verbose {
			b, _ := json.MarshalIndent(rep, "", " ")
			fmt.Println(string(b))
		} else {
			fmt.Printf("%s: %v paths, %d assertion instances discharged, %d queries, %.1fs%s\n", h.name, rep.Paths, rep.Discharged, rep.Queries, rep.Wall, map[bool]string{true: "", false: " (incomplete)"}[rep.Complete])
		}
	}

	res := &outcome{}
	if !c.noReplay {
		if err := <-natCh; err != nil {
			fmt.Println("native build failed:", err)
			res.natErr = err.Error()
		} else {
			c.confirm(nat, cands, traces, res)
			nat.close()
		}
	} else {
		for _, cd := range cands {
			fmt.Printf("candidate %s %s %s\n", cd.harness, cd.v.Label, inputsStr(cd.v.Inputs))
			fmt.Println("   ", cd.v.Trace)
		}
	}
	return c.finish(w, hs, reports, fns, res, loadS, start)
}

func (h *Harness) weight() int {
	if n, err := strconv.Atoi(h.opts["weight"]); err == nil {
		return n
	}
	return 1
}

func (h *Harness) num(k string, def int) int {
	if n, err := strconv.Atoi(h.opts[k]); err == nil {
		return n
	}
	return def
}

func (c *config) explore(w *World, h Harness, share time.Duration) (*harnessReport, []Violation, []PathResult, []string) {
	t0 := time.Now()
	thorough := c.tier == "thorough"
	o := Options{workers: runtime.NumCPU(), timeout: share, qms: h.num("qms", 20000), maxSteps: int64(h.num("steps", 20_000_000)), maxDec: h.num("maxdec", 20000),
		maxConc: h.num("maxconc", 300), maxPaths: 2_000_000, traces: 6, cross: 10, solver: "z3-new", cross1: "cvc5", perLabel: 4, verbose: c.verbose, maxPreempt: h.num("preempt", 3)}
	if thorough {
		o.qms *= 5
		o.cross = 200
		o.traces = 40
		o.maxPreempt++
	}
	if c.verbose && os.Getenv("GOSYM_WORKERS") != "" {
		o.workers, _ = strconv.Atoi(os.Getenv("GOSYM_WORKERS"))
	}
	e := NewEngine(w, o)
	e.thorough = thorough
	e.Explore(h.fn)
	rep := &harnessReport{Name: h.name, What: strings.TrimSpace(h.doc), Paths: e.paths, Steps: e.steps, Decisions: e.decisions, MaxDepth: e.maxLen, Asserts: e.asserts, Unknown: e.unknowns,
		Covers: e.covers, Incomplete: e.incomplete, Cuts: e.cuts, Errs: e.errs, Bounds: h.opts["bounds"]}
	for _, n := range e.discharged {
		rep.Discharged += n
	}
	for _, n := range e.trivial {
		rep.ByConst += n
	}
	st := &e.stats
	rep.Queries, rep.Sat, rep.Unsat, rep.Unk = atomic.LoadInt64(&st.queries), atomic.LoadInt64(&st.sat), atomic.LoadInt64(&st.unsat), atomic.LoadInt64(&st.unknown)
	rep.SolverS = time.Duration(atomic.LoadInt64(&st.nanos)).Seconds()
	rep.CrossOK, rep.CrossBad = atomic.LoadInt64(&st.crossOK), atomic.LoadInt64(&st.crossBad)
	rep.Complete = len(e.incomplete) == 0 && len(e.cuts) == 0 && len(e.unknowns) == 0
	for _, wv := range strings.FieldsFunc(h.opts["cover"], func(r rune) bool { return r == ',' || r == ' ' }) {
		if e.covers[wv] == 0 {
			rep.Missing = append(rep.Missing, wv)
		}
	}
	rep.Wall = time.Since(t0).Seconds()
	return rep, e.violations, e.traces, e.repoFunctions()
}

func inputsStr(in []Input) string {
	var sb strings.Builder
	for _, i := range in {
		if i.Kind == "str" {
			fmt.Fprintf(&sb, "%s=%q ", i.Name, i.Str)
		} else {
			fmt.Fprintf(&sb, "%s=%d ", i.Name, i.Int)
		}
	}
	return sb.String()
}

// ---------------------------------------------------------------- native replay

type native struct {
	dir, bin string
	race     string
	c        *config
	overlay  string
	hs       []Harness
}

type trace struct {
	harness string
	res     PathResult
}

type outcome struct {
	confirmed   []candidate
	files       []string
	known       []Known
	unconfirmed []string
	validated   int
	mismatched  []string
	samples     []any
	natErr      string
}

func (n *native) close() { os.RemoveAll(n.dir) }

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

// buildNative compiles the harnesses with the ordinary compiler against the working tree.
func (c *config) buildNative(hs []Harness) (*native, error) {
	dir, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		return nil, err
	}
	n := &native{dir: dir, c: c, hs: hs}
	ov, err := overlayFiles(filepath.Join(c.verif, "harness"), c.repo)
	if err != nil {
		return nil, err
	}
	// the clock
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, err
	}
	root := strings.TrimSpace(string(out))
	tf := filepath.Join(root, "src/time/time.go")
	src, err := os.ReadFile(tf)
	if err != nil {
		return nil, err
	}
	s := strings.Replace(string(src), "func Now() Time {\n", "// ZZNow replaces the clock in replays.\nvar ZZNow func() (int64, bool)\n\nfunc Now() Time {\n\tif ZZNow != nil {\n\t\tif s, ok := ZZNow(); ok {\n\t\t\treturn Time{0, s + unixToInternal, nil}\n\t\t}\n\t}\n", 1)
	tt := filepath.Join(dir, "time.go")
	os.WriteFile(tt, []byte(s), 0o644)
	ov[tf] = tt
	// scheduling points at locks and concurrent maps
	for _, f := range []struct {
		file string
		subs [][2]string
	}{
		{"mutex.go", [][2]string{{"func (m *Mutex) Lock() {\n", "// ZZHook is a scheduling point of replays.\nvar ZZHook func(try func() bool, release func())\n\nfunc (m *Mutex) Lock() {\n\tif ZZHook != nil {\n\t\tZZHook(m.TryLock, m.Unlock)\n\t}\n"}}},
		{"rwmutex.go", [][2]string{{"func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n\tif ZZHook != nil {\n\t\tZZHook(rw.TryLock, rw.Unlock)\n\t}\n"},
			{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tif ZZHook != nil {\n\t\tZZHook(rw.TryRLock, rw.RUnlock)\n\t}\n"}}},
		{"map.go", [][2]string{{"func (m *Map) Load(key any) (value any, ok bool) {\n", ""}, {"func (m *Map) Store(key, value any) {\n", ""}, {"func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {\n", ""},
			{"func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {\n", ""}, {"func (m *Map) Delete(key any) {\n", ""}, {"func (m *Map) Swap(key, value any) (previous any, loaded bool) {\n", ""},
			{"func (m *Map) Range(f func(key, value any) bool) {\n", ""}}},
	} {
		sf := filepath.Join(root, "src/sync", f.file)
		src, err := os.ReadFile(sf)
		if err != nil {
			return nil, err
		}
		s := string(src)
		for _, x := range f.subs {
			to := x[1]
			if to == "" {
				to = x[0] + "\tif ZZHook != nil {\n\t\tZZHook(nil, nil)\n\t}\n"
			}
			s = strings.Replace(s, x[0], to, 1)
		}
		t := filepath.Join(dir, "sync_"+f.file)
		os.WriteFile(t, []byte(s), 0o644)
		ov[sf] = t
	}
	// the random strings
	cmd := exec.Command("go", "list", "-modfile="+c.modfile(), "-m", "-f", "{{.Dir}}", "github.com/dchest/uniuri")
	cmd.Dir = c.repo
	cmd.Env = goEnv()
	out, err = cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("uniuri: %v", err)
	}
	src, err = os.ReadFile(filepath.Join(strings.TrimSpace(string(out)), "uniuri.go"))
	if err != nil {
		return nil, err
	}
	s = strings.Replace(string(src), "func NewLenCharsBytes(length int, chars []byte) []byte {\n", "// ZZHook replaces the generator in replays.\nvar ZZHook func(int, []byte) (string, bool)\n\nfunc NewLenCharsBytes(length int, chars []byte) []byte {\n\tif ZZHook != nil {\n\t\tif s, ok := ZZHook(length, chars); ok {\n\t\t\treturn []byte(s)\n\t\t}\n\t}\n", 1)
	ud := filepath.Join(dir, "uniuri")
	os.MkdirAll(ud, 0o755)
	os.WriteFile(filepath.Join(ud, "uniuri.go"), []byte(s), 0o644)
	os.WriteFile(filepath.Join(ud, "go.mod"), []byte("module github.com/dchest/uniuri\n"), 0o644)
	mb, err := os.ReadFile(c.modfile())
	if err != nil {
		return nil, err
	}
	os.WriteFile(filepath.Join(dir, "go.mod"), append(mb, []byte("\nreplace github.com/dchest/uniuri => "+ud+"\n")...), 0o644)
	if mb, err = os.ReadFile(filepath.Join(filepath.Dir(c.modfile()), "go.sum")); err == nil {
		os.WriteFile(filepath.Join(dir, "go.sum"), mb, 0o644)
	}
	// the runner
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"os\"\n\th %q\n\t\"%svs\"\n)\n\nfunc main() {\n\tvs.Load(os.Args[2])\n\tswitch os.Args[1] {\n", c.pkgPath(), zz)
	for _, h := range hs {
		fmt.Fprintf(&sb, "\tcase %q:\n\t\tvs.MaxPreempt = %d\n\t\tvs.Run(h.%s)\n", h.name, h.num("preempt", 3)+map[bool]int{true: 1, false: 0}[c.tier == "thorough"], h.name)
	}
	sb.WriteString("\t}\n}\n")
	mf := filepath.Join(dir, "main.go")
	os.WriteFile(mf, []byte(sb.String()), 0o644)
	ov[filepath.Join(c.repo, "zzverif", "zzrun", "main.go")] = mf
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	n.overlay = filepath.Join(dir, "overlay.json")
	os.WriteFile(n.overlay, b, 0o644)
	n.bin = filepath.Join(dir, "run")
	if err := n.build(n.bin); err != nil {
		return nil, err
	}
	return n, nil
}

func (n *native) build(bin string, extra ...string) error {
	args := append([]string{"build", "-overlay", n.overlay, "-modfile=" + filepath.Join(n.dir, "go.mod"), "-tags=verif", "-o", bin}, extra...)
	args = append(args, zz+"zzrun")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.c.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

type natRun struct {
	exit   int
	lines  []string
	out    string
	killed bool
}

func (n *native) run(bin, harness string, file string, env ...string) natRun {
	cmd := exec.Command("timeout", "-k", "1", "20", bin, harness, file)
	cmd.Env = append(append(os.Environ(), "TZ=UTC", "GOTRACEBACK=all"), env...)
	cmd.Dir = n.dir
	out, err := cmd.CombinedOutput()
	r := natRun{out: string(out)}
	if ee, ok := err.(*exec.ExitError); ok {
		r.exit = ee.ExitCode()
	} else if err != nil {
		r.exit = -1
	}
	r.killed = r.exit == 124 || r.exit == 137
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "VS-") {
			r.lines = append(r.lines, l)
		}
	}
	return r
}

func (r natRun) has(l string) bool {
	for _, x := range r.lines {
		if x == l || strings.HasPrefix(x, l+" ") {
			return true
		}
	}
	return false
}

func (c *config) writeAssignment(file string, in []Input, extra map[string]any) {
	m := map[string]any{"inputs": in, "tier": c.tier, "property": c.prop}
	for k, v := range extra {
		m[k] = v
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(file, b, 0o644)
}

// reproduces runs a candidate natively and tells whether the real code fails the same way.
func (n *native) reproduces(harness, label, file string) (bool, natRun) {
	if label == "race" {
		if n.race == "" {
			n.race = filepath.Join(n.dir, "run-race")
			if err := n.build(n.race, "-race"); err != nil {
				n.race = "-"
			}
		}
		if n.race == "-" {
			return false, natRun{out: "race build failed"}
		}
		var r natRun
		for i := 0; i < 20; i++ {
			r = n.run(n.race, harness, file, "VS_FREE=1", "GORACE=halt_on_error=1 exitcode=66")
			if r.exit == 66 || strings.Contains(r.out, "DATA RACE") || strings.Contains(r.out, "concurrent map") {
				return true, r
			}
		}
		return false, r
	}
	r := n.run(n.bin, harness, file)
	switch label {
	case "panic":
		return r.has("VS-PANIC") || strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:") && !strings.Contains(r.out, "deadlock"), r
	case "deadlock":
		return r.killed || r.has("VS-DEADLOCK") || strings.Contains(r.out, "all goroutines are asleep"), r
	}
	return r.has("VS-VIOLATION " + label), r
}

func (c *config) confirm(n *native, cands []candidate, traces []trace, res *outcome) {
	rdir := filepath.Join(c.verif, "evidence", "replays")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, c.prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	done := map[string]bool{}
	for i, cd := range cands {
		key := cd.harness + "/" + cd.v.Label
		if done[key] {
			continue
		}
		file := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", c.prop, cd.harness, i))
		c.writeAssignment(file, cd.v.Inputs, map[string]any{"harness": cd.harness, "label": cd.v.Label, "symbolic_trace": cd.v.Trace})
		ok, r := n.reproduces(cd.harness, cd.v.Label, file)
		if ok {
			done[key] = true
			res.confirmed = append(res.confirmed, cd)
			res.files = append(res.files, file)
		} else {
			tail := r.out
			if len(tail) > 400 {
				tail = tail[:400]
			}
			res.unconfirmed = append(res.unconfirmed, fmt.Sprintf("%s/%s [%s] native: exit %d %s", cd.harness, cd.v.Label, inputsStr(cd.v.Inputs), r.exit, tail))
			if c.verbose || os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Printf("UNCONFIRMED %s/%s\n  %s\n  %s\n  native exit %d:\n%s\n", cd.harness, cd.v.Label, inputsStr(cd.v.Inputs), cd.v.Trace, r.exit, r.out)
			}
			os.Remove(file)
		}
	}
	// completed paths: the native run must reach the same witnesses and pass every assertion
	for i, t := range traces {
		file := filepath.Join(n.dir, fmt.Sprintf("t%d.json", i))
		c.writeAssignment(file, t.res.inputs, nil)
		r := n.run(n.bin, t.harness, file)
		okRun := r.has("VS-END") && !r.has("VS-ASSUME-FALSE") && !r.has("VS-PANIC")
		var cov []string
		for _, l := range r.lines {
			if strings.HasPrefix(l, "VS-COVER ") {
				cov = append(cov, strings.TrimPrefix(l, "VS-COVER "))
			}
		}
		same := strings.Join(cov, ",") == strings.Join(t.res.covers, ",")
		if okRun && same {
			res.validated++
			if len(res.samples) < 6 {
				res.samples = append(res.samples, map[string]any{"harness": t.harness, "inputs": sampleInputs(t.res.inputs), "witnesses": t.res.covers, "decisions": t.res.decisions})
			}
		} else {
			msg := fmt.Sprintf("%s [%s] symbolic witnesses %v, native %v exit %d", t.harness, inputsStr(t.res.inputs), t.res.covers, r.lines, r.exit)
			res.mismatched = append(res.mismatched, msg)
			if c.verbose || os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Println("MISMATCH", msg, r.out)
			}
		}
	}
}

func sampleInputs(in []Input) string {
	s := inputsStr(in)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func (c *config) loadKnown() []Known {
	b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var k struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
	}
	return k.Findings
}

func (c *config) finish(w *World, hs []Harness, reports []*harnessReport, fns map[string]bool, res *outcome, loadS float64, start time.Time) int {
	known := c.loadKnown()
	exit := 0
	vio := 0
	var findings []string
	for i, cd := range res.confirmed {
		var k *Known
		for j := range known {
			if known[j].Status == "known" && known[j].Property == c.prop && known[j].Label == cd.v.Label && (known[j].Harness == "" || known[j].Harness == cd.harness) {
				k = &known[j]
			}
		}
		if k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.prop, k.What, cd.v.Label)
			findings = append(findings, k.What)
			os.Remove(res.files[i])
			continue
		}
		vio++
		exit = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, res.files[i])
		fmt.Printf("  %s: %s\n  inputs: %s\n  at%s\n", cd.harness, cd.v.Label, inputsStr(cd.v.Inputs), cd.v.Trace)
	}
	if len(res.unconfirmed) > 0 {
		fmt.Printf("%d solver counterexample(s) did not reproduce on the compiled code and are not reported\n", len(res.unconfirmed))
	}
	if len(res.mismatched) > 0 {
		fmt.Printf("%d path(s) behaved differently in the native run\n", len(res.mismatched))
	}
	var states, trans, queries, unsat, disch int64
	var solverS float64
	var missing, incomplete []string
	for _, r := range reports {
		for st, n := range r.Paths {
			if st != "infeasible" {
				states += int64(n)
			}
		}
		trans += r.Steps
		queries += r.Queries
		unsat += r.Unsat
		disch += int64(r.Discharged)
		solverS += r.SolverS
		for _, m := range r.Missing {
			missing = append(missing, r.Name+":"+m)
		}
		for k, n := range r.Incomplete {
			incomplete = append(incomplete, fmt.Sprintf("%s: %s (%d)", r.Name, k, n))
		}
		for k, n := range r.Cuts {
			incomplete = append(incomplete, fmt.Sprintf("%s: %s (%d)", r.Name, k, n))
		}
		for k, n := range r.Unknown {
			incomplete = append(incomplete, fmt.Sprintf("%s: assertion %s undecided on %d path(s)", r.Name, k, n))
		}
	}
	sort.Strings(incomplete)
	if len(missing) > 0 {
		fmt.Println("witnesses not reached:", strings.Join(missing, " "))
	}
	for _, s := range incomplete {
		fmt.Println("outside the bound:", s)
	}
	if len(res.samples) == 0 {
		res.samples = append(res.samples, "no completed path was sampled on this run")
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": res.validated, "samples": res.samples,
		"meaning":                        "states: symbolic paths explored to an end; transitions: SSA instructions executed symbolically; traces: models of completed paths run on the compiled code with the same witnesses and no failing assertion",
		"functions_encoded":              sortedKeys(fns),
		"harnesses":                      reports,
		"solver_queries":                 queries,
		"unsat_queries":                  unsat,
		"assertion_instances_discharged": disch,
		"solver_s":                       solverS,
		"load_s":                         loadS,
		"outside_the_bound":              incomplete,
		"witnesses_missing":              missing,
		"unconfirmed_counterexamples":    res.unconfirmed,
		"native_mismatches":              res.mismatched,
		"known_findings":                 findings,
		"exhaustive":                     len(incomplete) == 0 && len(missing) == 0,
	}
	if res.natErr != "" {
		cov["native_build_error"] = res.natErr
	}
	c.writeEvidence(cov, hs, vio, start, findings)
	forkReport()
	if exit == 0 && (disch == 0 || len(missing) > 0 && len(incomplete) == 0) {
		fmt.Println("nothing was decided")
		return 2
	}
	if exit == 0 {
		fmt.Printf("OK property=%s paths=%d discharged=%d queries=%d solver=%.1fs wall=%.1fs\n", c.prop, states, disch, queries, solverS, time.Since(start).Seconds())
	}
	return exit
}

func (c *config) writeEvidence(cov map[string]any, hs []Harness, vio int, start time.Time, findings []string) {
	ass := []string{
		"bounds are those of the harnesses (lengths, choices, number of operations); inputs outside them are not covered",
		"standard library and third-party calls named in DESIGN.md run as models (hashes and MACs as collision-free functions)",
		"undecided queries and unsupported operations are listed as outside the bound, never as success",
	}
	for _, h := range hs {
		if b := h.opts["bounds"]; b != "" {
			ass = append(ass, h.name+": "+b)
		}
	}
	ev := map[string]any{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov, "assumptions": ass, "wall_s": time.Since(start).Seconds(), "violations": vio}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// replayFile re-runs a recorded violation on the compiled code.
func (c *config) replayFile(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var a struct{ Harness, Label string }
	json.Unmarshal(b, &a)
	n, err := c.buildNative([]Harness{{name: a.Harness, opts: map[string]string{}}})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer n.close()
	ok, r := n.reproduces(a.Harness, a.Label, file)
	fmt.Println(r.out)
	if ok {
		fmt.Println("reproduced:", a.Label)
		return 1
	}
	return 0
}

func runSelfTest() {
	got := fmt.Sprintf("%x", blake2bSum(32, []byte("k"), []byte(strings.Repeat("abc", 60))))
	if got != "1aff86d0ee1b084ba2fe37d427e72a2e81e34afd692c5f2e83d5f060d8eefd9d" {
		fmt.Println("blake2b: got", got)
		os.Exit(1)
	}
	fmt.Println("ok")
}
