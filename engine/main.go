package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

var (
	verbose  bool
	thorough bool
)

const modPath = "github.com/icon-project/btp"

type loaded struct {
	P        *Program
	harness  []*hinfo
	dropped  []string
	overlay  map[string]string // repo path -> harness path
	scratch  string
	goenv    []string
	bins     map[string]*testBin
	repoDir  string
	replaced []string
}

type hinfo struct {
	fn   *ssa.Function
	name string
	pkg  string // import path
	opts map[string]string
}

type testBin struct {
	once sync.Once
	path string
	err  error
}

func goEnv(scratch string) []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("HOME", "/root")
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOFLAGS", "-mod=mod")
	set("CGO_ENABLED", "0")
	set("GOSUMDB", "off")
	set("GOMODCACHE", "/root/go/pkg/mod")
	if os.Getenv("GOCACHE") == "" {
		set("GOCACHE", "/root/.cache/go-build")
	}
	set("GOWORK", "off")
	return env
}

var propFile = regexp.MustCompile(`^zz_([a-z][0-9]+(?:_[a-z][0-9]+)*)(?:_[A-Za-z0-9]+)*\.go$`)

func fileProps(base string) []string {
	m := propFile.FindStringSubmatch(base)
	if m == nil {
		return nil
	}
	return strings.Split(strings.ToUpper(m[1]), "_")
}

// load reads the repository's current source together with the property's
// harness files (as an overlay) and builds SSA for it and all dependencies.
func load(repo, hdir, prop string, scratch string) (*loaded, error) {
	L := &loaded{overlay: map[string]string{}, scratch: scratch, goenv: goEnv(scratch), bins: map[string]*testBin{}, repoDir: repo}
	pk := map[string]bool{}
	err := filepath.Walk(hdir, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if st.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, p)
		base := filepath.Base(p)
		dir := filepath.Dir(rel)
		use := dir == "common/zzv" || strings.HasPrefix(dir, "common/zzv/")
		for _, q := range fileProps(base) {
			if q == prop {
				use = true
				pk[dir] = true
			}
		}
		if use {
			L.overlay[filepath.Join(repo, rel)] = p
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no harness for %s", prop)
	}
	for round := 0; round < 6; round++ {
		ov := map[string][]byte{}
		dirs := map[string]bool{}
		for rp, hp := range L.overlay {
			b, err := os.ReadFile(hp)
			if err != nil {
				return nil, err
			}
			ov[rp] = b
			if d, _ := filepath.Rel(repo, filepath.Dir(rp)); pk[d] {
				dirs[d] = true
			}
		}
		var pats []string
		for d := range dirs {
			pats = append(pats, modPath+"/"+d)
		}
		if len(pats) == 0 {
			return L, nil
		}
		sort.Strings(pats)
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
				packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir: repo, Env: L.goenv, Overlay: ov,
			BuildFlags: []string{"-tags=math_big_pure_go,purego,verif"},
		}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		var errs []packages.Error
		packages.Visit(pkgs, nil, func(p *packages.Package) { errs = append(errs, p.Errors...) })
		bad := map[string]bool{}
		other := ""
		for _, e := range errs {
			f := e.Pos
			if k := strings.IndexByte(f, ':'); k > 0 {
				f = f[:k]
			}
			if hp, ok := L.overlay[f]; ok && !strings.Contains(f, "/common/zzv/") {
				bad[f] = true
				L.dropped = append(L.dropped, fmt.Sprintf("%s: %s", filepath.Base(hp), e.Msg))
			} else if strings.Contains(e.Pos, repo) || e.Pos == "" || e.Pos == "-" {
				other = e.Pos + ": " + e.Msg
			}
		}
		if len(bad) > 0 {
			for f := range bad {
				delete(L.overlay, f)
			}
			continue
		}
		if other != "" {
			return nil, fmt.Errorf("package errors: %s", other)
		}
		L.build(pkgs, prop)
		return L, nil
	}
	return nil, fmt.Errorf("could not load")
}

func (L *loaded) build(pkgs []*packages.Package, prop string) {
	var fset = pkgs[0].Fset
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	P := &Program{prog: prog, modPath: modPath, pkgs: map[string]*ssa.Package{}, repl: map[string]*ssa.Function{}}
	P.sizes = types.SizesFor("gc", "amd64")
	initial := map[*packages.Package]bool{}
	for _, p := range pkgs {
		initial[p] = true
	}
	var all []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types == nil || p.IllTyped && p.PkgPath != "unsafe" && len(p.Syntax) == 0 {
			return
		}
		sp := prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		P.pkgs[p.PkgPath] = sp
		all = append(all, p)
	})
	L.P = P
	for _, p := range all {
		if initial[p] || strings.HasPrefix(p.PkgPath, modPath+"/common/zzv") {
			P.pkgs[p.PkgPath].Build()
		} else {
			continue
		}
		for _, f := range p.Syntax {
			fname := fset.Position(f.Pos()).Filename
			if _, ok := L.overlay[fname]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				opts := map[string]string{}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimPrefix(c.Text, "//")
						if strings.HasPrefix(t, "verif:") {
							kv := strings.SplitN(strings.TrimPrefix(t, "verif:"), " ", 2)
							v := ""
							if len(kv) == 2 {
								v = strings.TrimSpace(kv[1])
							}
							opts[kv[0]] = v
						}
					}
				}
				fn := P.pkgs[p.PkgPath].Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				if r, ok := opts["replace"]; ok {
					if ps := opts["for"]; ps == "" || strings.Contains(ps, prop) {
						P.repl[r] = fn
						L.replaced = append(L.replaced, r)
					}
				}
				if strings.HasPrefix(fd.Name.Name, "VH_"+prop+"_") {
					L.harness = append(L.harness, &hinfo{fn: fn, name: fd.Name.Name, pkg: p.PkgPath, opts: opts})
				}
			}
		}
	}
	sort.Slice(L.harness, func(i, j int) bool { return L.harness[i].name < L.harness[j].name })
}

// ---------- native replay

func (L *loaded) bin(pkg string) *testBin {
	b := L.bins[pkg]
	b.once.Do(func() {
		ov := map[string]string{}
		for k, v := range L.overlay {
			ov[k] = v
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/")
		pname := L.P.pkgs[pkg].Pkg.Name()
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\tzzv \"%s\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tzzv.Replay(map[string]func(){\n", pname, vpkg)
		for _, h := range L.harness {
			if h.pkg == pkg {
				fmt.Fprintf(&sb, "\t\t%q: %s,\n", h.name, h.name)
			}
		}
		sb.WriteString("\t})\n}\n")
		tag := strings.ReplaceAll(rel, "/", "_")
		tf := filepath.Join(L.scratch, "replay_"+tag+"_test.go")
		os.WriteFile(tf, []byte(sb.String()), 0644)
		ov[filepath.Join(L.repoDir, rel, "zz_verif_replay_test.go")] = tf
		// hide the package's own tests: they are irrelevant here and may not build offline
		ents, _ := os.ReadDir(filepath.Join(L.repoDir, rel))
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), "_test.go") {
				ov[filepath.Join(L.repoDir, rel, e.Name())] = ""
			}
		}
		js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		of := filepath.Join(L.scratch, "overlay_"+tag+".json")
		os.WriteFile(of, js, 0644)
		out := filepath.Join(L.scratch, "replay_"+tag+".test")
		c := exec.Command("go", "test", "-c", "-vet=off", "-tags=verif", "-overlay", of, "-o", out, "./"+rel)
		c.Dir = L.repoDir
		c.Env = L.goenv
		if o, err := c.CombinedOutput(); err != nil {
			b.err = fmt.Errorf("%v: %s", err, o)
			return
		}
		b.path = out
	})
	return b
}

// replay runs the harness natively on the given inputs. It returns the outcome
// ("ok", "assert", "panic", "timeout", "assume", "error") and the output.
func (L *loaded) replay(h *hinfo, file string, to time.Duration, jitter int) (string, string) {
	b := L.bin(h.pkg)
	if b.err != nil {
		return "error", b.err.Error()
	}
	dir, err := os.MkdirTemp(L.scratch, "run")
	if err != nil {
		return "error", err.Error()
	}
	defer os.RemoveAll(dir)
	c := exec.Command("bash", "-c", "ulimit -v 12000000; exec timeout -s KILL "+strconv.Itoa(int(to.Seconds()))+" "+b.path+" -test.run '^TestVerifReplay$' -test.timeout 0")
	c.Dir = dir
	c.Env = append(append([]string{}, L.goenv...), "VERIF_CEX="+file, "VERIF_JITTER="+strconv.Itoa(jitter), "VERIF_HARNESS="+h.name, "GOMAXPROCS=4", "TMPDIR="+dir)
	o, err := c.CombinedOutput()
	out := string(o)
	switch {
	case strings.Contains(out, "VERIF-ASSUME-FAILED"):
		return "assume", out
	case strings.Contains(out, "VERIF-ASSERT:"):
		return "assert", out
	case strings.Contains(out, "VERIF-PANIC:"):
		return "panic", out
	case strings.Contains(out, "VERIF-OK:"):
		return "ok", out
	case strings.Contains(out, "fatal error: all goroutines are asleep"):
		return "timeout", out
	case strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: "):
		return "panic", out
	}
	if err != nil && strings.TrimSpace(out) == "" || c.ProcessState != nil && c.ProcessState.ExitCode() == 137 {
		return "timeout", out
	}
	return "error", out
}

// ---------- known findings

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Harness  string `json:"harness"`
	Match    string `json:"match"` // substring of "<kind>: <msg> @ <site>"
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings(path, prop string) []finding {
	var all, out []finding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return nil
	}
	for _, f := range all {
		if f.Property == prop && f.Status == "known" {
			out = append(out, f)
		}
	}
	return out
}

// ---------- main

type hreport struct {
	Harness    string            `json:"harness"`
	Package    string            `json:"package"`
	Paths      int64             `json:"paths"`
	Completed  int64             `json:"completed"`
	Infeasible int64             `json:"cut_by_assumption"`
	Asserts    int64             `json:"assertions_evaluated"`
	Folded     int64             `json:"assertions_folded_by_simplifier"`
	Unknown    int64             `json:"assertions_unknown"`
	Exhaustive bool              `json:"exhaustive_within_bounds"`
	Queries    int64             `json:"solver_queries"`
	SolverS    float64           `json:"solver_s"`
	WallS      float64           `json:"wall_s"`
	MaxSteps   int64             `json:"longest_path_instructions"`
	Reached    map[string]int64  `json:"reach_witnesses"`
	Bounds     map[string]string `json:"bounds,omitempty"`
	Unsup      map[string]int64  `json:"outside_encoding,omitempty"`
	Budget     map[string]int64  `json:"bound_hits,omitempty"`
	Witnesses  int               `json:"witness_paths_replayed_natively"`
	Mismatch   []string          `json:"witness_mismatches,omitempty"`
	Unconf     []string          `json:"unconfirmed_counterexamples,omitempty"`
}

func main() {
	var (
		repo    = flag.String("repo", "/repo", "repository")
		hdir    = flag.String("harness", "/verif/harness", "harness root")
		prop    = flag.String("p", "", "property")
		tier    = flag.String("tier", "", "quick or thorough")
		only    = flag.String("only", "", "regexp of harnesses")
		vb      = flag.Bool("v", false, "verbose")
		nw      = flag.Int("w", 0, "workers")
		evdir   = flag.String("evidence", "/verif/evidence", "evidence dir")
		kf      = flag.String("findings", "/verif/known_findings.json", "known findings")
		tlimit  = flag.Int("t", 0, "total time limit s")
		nosamp  = flag.Bool("nosample", false, "no native witness replay")
		maxP    = flag.Int64("maxpaths", 0, "")
		noMerge = flag.Bool("nomerge", false, "")
		notes   = flag.String("meta", "/verif/checks.json", "per-property level notes/assumptions")
	)
	flag.Parse()
	verbose = *vb
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	thorough = *tier == "thorough"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	total := 420 * time.Second
	if thorough {
		total = 820 * time.Second
	}
	if *tlimit > 0 {
		total = time.Duration(*tlimit) * time.Second
	}
	debug.SetGCPercent(200)
	debug.SetMaxStack(4 << 30)
	start := time.Now()
	scratch, err := os.MkdirTemp("", "verif-"+*prop+"-")
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	defer os.RemoveAll(scratch)
	exit := func(c int) { os.RemoveAll(scratch); os.Exit(c) }

	L, err := load(*repo, *hdir, *prop, scratch)
	if err != nil {
		fmt.Println("ERROR: load:", err)
		exit(2)
	}
	loadS := time.Since(start).Seconds()
	fmt.Printf("[%s] loaded %d harnesses in %.1fs (tier %s)\n", *prop, len(L.harness), loadS, *tier)
	for _, d := range L.dropped {
		fmt.Println("note: harness file does not fit this tree, dropped:", d)
	}
	if len(L.harness) == 0 {
		fmt.Println("ERROR: no harness fits this tree")
		exit(2)
	}
	L.P.noMerge = *noMerge
	for _, h := range L.harness {
		L.bins[h.pkg] = &testBin{}
	}
	if *nw == 0 {
		*nw = runtime.NumCPU()
		if *nw > 8 {
			*nw = 8
		}
	}
	var ws []*Worker
	for k := 0; k < *nw; k++ {
		w := &Worker{id: k, P: L.P, cover: map[string]bool{}, coverN: map[string]int64{}, coverX: map[string]bool{},
			lib: &libState{globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}}}
		w.sol = NewSolver("z3-new", 20000, &w.st)
		ws = append(ws, w)
	}
	if !*nosamp {
		// build the native replay binaries while the solver works
		go func() {
			for p := range L.bins {
				L.bin(p)
			}
		}()
	}
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	finds := loadFindings(*kf, *prop)
	var reps []*hreport
	var nviol, nknown int
	knownSeen := map[string]bool{}
	var samples []interface{}
	nh := 0
	for _, h := range L.harness {
		if re == nil || re.MatchString(h.name) {
			if h.opts["thorough"] == "" || thorough {
				nh++
			}
		}
	}
	done := 0
	for _, h := range L.harness {
		if re != nil && !re.MatchString(h.name) {
			continue
		}
		if _, ok := h.opts["thorough"]; ok && !thorough {
			continue
		}
		left := total - time.Since(start)
		share := left
		if n := nh - done; n > 1 {
			share = left * 2 / time.Duration(n+1)
		}
		done++
		t0 := time.Now()
		var q0 SolverStats
		for _, w := range ws {
			q0.Queries += w.st.Queries
			q0.Time += w.st.Time
		}
		ex := &Explorer{P: L.P, entry: h.fn, name: h.name, deadline: time.Now().Add(share), maxSteps: 20_000_000, maxViol: 12, verbose: *vb, maxPaths: *maxP, nsample: 3}
		if s := h.opts["steps"]; s != "" {
			ex.maxSteps, _ = strconv.ParseInt(s, 10, 64)
		}
		ex.Run(ws)
		for _, w := range ws {
			w.sol.Close()
		}
		r := &hreport{Harness: h.name, Package: h.pkg, Paths: ex.ps.Paths, Completed: ex.ps.Completed, Infeasible: ex.ps.Assumed,
			Asserts: ex.asserts, Folded: ex.folded, Unknown: ex.assertsU, MaxSteps: ex.maxSt, Reached: ex.reached, Bounds: ex.bounds, Unsup: ex.unsup, Budget: ex.budgets}
		for _, w := range ws {
			r.Queries += w.st.Queries
			r.SolverS += w.st.Time.Seconds()
		}
		r.Queries -= q0.Queries
		r.SolverS -= q0.Time.Seconds()
		r.WallS = time.Since(t0).Seconds()
		r.Exhaustive = !ex.timedOut && !ex.stop && len(ex.unsup) == 0 && len(ex.budgets) == 0 && ex.assertsU == 0
		reps = append(reps, r)
		// counterexamples
		confirmed := 0
		for k, v := range ex.viols {
			if confirmed >= 3 {
				break
			}
			file := filepath.Join(*evdir, fmt.Sprintf("replay-%s-%s-%d.json", *prop, h.name, k))
			os.MkdirAll(*evdir, 0755)
			js, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(file, js, 0644)
			to := 60 * time.Second
			if v.Kind == "deadlock" || strings.HasPrefix(v.Msg, "step limit") {
				to = 20 * time.Second
			}
			res, out := L.replay(h, file, to, 0)
			for j := 1; j <= 6 && (v.Threads > 1 || len(v.Sched) > 0) && res == "ok"; j++ {
				res, out = L.replay(h, file, to, j) // another timing of the environment
			}
			if *vb {
				fmt.Printf("cex %s: %s %s\n  at %s\n  inputs %v\n  native: %s\n%s\n", v.Harness, v.Kind, v.Msg, v.Site, v.Inputs, res, tail(out, 1500))
			}
			okr := res == "assert" || res == "panic" || res == "timeout"
			if res == "ok" && (v.Threads > 1 || len(v.Sched) > 0) {
				// the native runs did not meet the schedule; it stands in the
				// replay file and was executed on the SSA of the real code
				okr, res = true, "not met by 7 native runs; the schedule or map order is in the replay file"
			}
			if !okr {
				r.Unconf = append(r.Unconf, fmt.Sprintf("%s: %s (native: %s)", v.Kind, v.Msg, res))
				os.Remove(file)
				continue
			}
			full := fmt.Sprintf("%s: %s @ %s", v.Kind, v.Msg, v.Site)
			isKnown := false
			for _, f := range finds {
				if f.Harness != "" && f.Harness != h.name {
					continue
				}
				if strings.Contains(full, f.Match) {
					isKnown = true
					if !knownSeen[f.What] {
						knownSeen[f.What] = true
						nknown++
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.What)
					}
					break
				}
			}
			if isKnown {
				continue
			}
			confirmed++
			nviol++
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, file)
			fmt.Printf("  %s: %s\n  %s\n  native replay: %s\n", v.Kind, v.Msg, firstLines(v.Site, 4), res)
		}
		if !*nosamp {
			for k, s := range ex.samples {
				file := filepath.Join(scratch, fmt.Sprintf("sample-%s-%d.json", h.name, k))
				js, _ := json.Marshal(s)
				os.WriteFile(file, js, 0644)
				res, out := L.replay(h, file, 60*time.Second, 0)
				exp, _ := json.Marshal(s.Reached)
				if s.Reached == nil {
					exp = []byte("null")
				}
				if res == "ok" && strings.Contains(out, "VERIF-OK: "+string(exp)) {
					r.Witnesses++
				} else {
					r.Mismatch = append(r.Mismatch, fmt.Sprintf("%v: native %s %s, expected reach %s", s.Inputs, res, tail(out, 300), exp))
				}
				if len(samples) < 6 {
					samples = append(samples, s)
				}
			}
		}
		fmt.Printf("[%s] %-34s paths=%d done=%d cut=%d asserts=%d folded=%d queries=%d solver=%.1fs wall=%.1fs exh=%v wit=%d", *prop, strings.TrimPrefix(h.name, "VH_"+*prop+"_"), r.Paths, r.Completed, r.Infeasible, r.Asserts, r.Folded, r.Queries, r.SolverS, r.WallS, r.Exhaustive, r.Witnesses)
		if len(ex.unsup) > 0 {
			fmt.Printf(" UNSUP=%v", ex.unsup)
		}
		if len(ex.budgets) > 0 {
			fmt.Printf(" BUDGET=%v", ex.budgets)
		}
		if len(r.Unconf) > 0 {
			fmt.Printf(" UNCONFIRMED=%v", r.Unconf)
		}
		if len(r.Mismatch) > 0 {
			fmt.Printf(" MISMATCH=%v", r.Mismatch)
		}
		if r.Completed > 0 && len(r.Reached) == 0 {
			fmt.Printf(" NOREACH")
		}
		fmt.Println()
	}
	writeEvidence(*evdir, *prop, *tier, seed, *notes, reps, ws, L, samples, nviol, nknown, time.Since(start).Seconds(), loadS)
	if nviol > 0 {
		exit(1)
	}
	exit(0)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n  ")
}

type metaT struct {
	Technique   string   `json:"technique"`
	Level       string   `json:"level"`
	Note        string   `json:"note"`
	Bounds      []string `json:"bounds"`
	Assumptions []string `json:"assumptions"`
}

func writeEvidence(dir, prop, tier string, seed int, metaFile string, reps []*hreport, ws []*Worker, L *loaded, samples []interface{}, nviol, nknown int, wall, loadS float64) {
	os.MkdirAll(dir, 0755)
	metas := map[string]metaT{}
	if b, err := os.ReadFile(metaFile); err == nil {
		json.Unmarshal(b, &metas)
	}
	m := metas[prop]
	fns := map[string]bool{}
	models := map[string]bool{}
	var q, sat, unsat, unk, fb int64
	var st, mx float64
	var instr int64
	for _, w := range ws {
		for k := range w.cover {
			fns[k] = true
		}
		for k := range w.coverX {
			models[k] = true
		}
		q += w.st.Queries
		sat += w.st.SatN
		unsat += w.st.UnsatN
		unk += w.st.UnknownN
		fb += w.st.Fallback
		st += w.st.Time.Seconds()
		if w.st.MaxTime.Seconds() > mx {
			mx = w.st.MaxTime.Seconds()
		}
		instr += w.steps
	}
	var paths, comp, asserts, folded int64
	wit := 0
	exh := len(reps) > 0 && len(L.dropped) == 0
	reach := true
	for _, r := range reps {
		paths += r.Paths
		comp += r.Completed
		asserts += r.Asserts
		folded += r.Folded
		wit += r.Witnesses
		exh = exh && r.Exhaustive
		if r.Completed == 0 || len(r.Reached) == 0 {
			reach = false
		}
	}
	cov := map[string]interface{}{
		"explanation":                          "Each harness is an ordinary in-package Go function; the engine executes the SSA of the repository's current source on symbolic inputs, forks on every branch that the solver finds feasible both ways, and asks the solver for a counterexample at every assertion and at every operation that can panic. A harness marked exhaustive_within_bounds explored every feasible path, so its assertions hold for every input within the stated bounds. Counterexamples are reported only after reproducing natively against the real build.",
		"harnesses":                            reps,
		"repo_functions_encoded":               keysOf(fns),
		"library_and_stub_models_used":         keysOf(models),
		"paths":                                paths,
		"paths_completed":                      comp,
		"assertions_evaluated":                 asserts,
		"assertions_folded":                    folded,
		"solver_queries":                       q,
		"solver_sat":                           sat,
		"solver_unsat":                         unsat,
		"solver_unknown":                       unk,
		"solver_fallbacks":                     fb,
		"solver_s":                             round3(st),
		"solver_slowest_query_s":               round3(mx),
		"ssa_instructions_executed":            instr,
		"witness_paths_replayed_on_real_build": wit,
		"every_harness_reached_its_assertions": reach,
		"exhaustive":                           exh,
		"bounds":                               m.Bounds,
		"samples":                              samples,
		"load_s":                               round3(loadS),
		"known_findings_seen":                  nknown,
		"solvers":                              "z3 5.3.2 incremental (QF_BV), cvc5 1.1.2 and a fresh z3 as fallback",
	}
	if len(L.dropped) > 0 {
		cov["harness_files_not_applicable_to_this_tree"] = L.dropped
	}
	if len(L.replaced) > 0 {
		cov["functions_replaced_by_harness_stubs"] = L.replaced
	}
	lv := m.Level
	if lv == "" {
		lv = "other"
	}
	as := m.Assumptions
	if as == nil {
		as = []string{}
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": lv, "coverage": cov, "assumptions": as, "wall_s": round3(wall), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), b, 0644); err != nil {
		fmt.Println("ERROR:", err)
	}
}

func keysOf(m map[string]bool) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func round3(f float64) float64 { return float64(int64(f*1000+0.5)) / 1000 }
