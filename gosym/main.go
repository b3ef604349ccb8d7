package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"go/ast"
	"go/parser"
	"go/token"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// HarnessSpec is one entry of checks.json.
type HarnessSpec struct {
	Fn       string         `json:"fn"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	BudgetQ  int            `json:"budget_q"`
	BudgetT  int            `json:"budget_t"`
	Only     string         `json:"only"` // "thorough": skipped in the quick tier
	Reach    []string       `json:"reach"`
	Bound    string         `json:"bound"`
	SolTmo   int            `json:"solver_s"`
}

type CheckSpec struct {
	Pkg string `json:"pkg"`
	// file of /repo -> file that takes its place without its build
	// constraints: the code of another platform
	Overlay     map[string]string `json:"overlay"`
	Harnesses   []HarnessSpec     `json:"harnesses"`
	Bounds      string            `json:"bounds"`
	Assumptions []string          `json:"assumptions"`
	Outside     string            `json:"outside"`
}

type Finding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // finding, fixed
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`   // exact assertion or prefix of the panic text
	Where    string `json:"where"` // function at the failing position
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

var verifDir = "/verif"

func fatal(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

type project struct {
	repo, tmp        string
	modfile, overlay string
	files            map[string][]byte // contents that take the place of a file's
}

func setupProject(repo string, files map[string]string) *project {
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(2, "%v", err)
	}
	p := &project{repo: repo, tmp: tmp, modfile: tmp + "/go.mod", overlay: tmp + "/overlay.json", files: map[string][]byte{}}
	b, err := os.ReadFile(verifDir + "/harness/go.mod")
	if err != nil {
		fatal(2, "%v", err)
	}
	s := strings.ReplaceAll(string(b), "=> /repo", "=> "+repo)
	s = strings.ReplaceAll(s, "=> ./stubs", "=> "+verifDir+"/harness/stubs")
	os.WriteFile(p.modfile, []byte(s), 0644)
	sum, _ := os.ReadFile(verifDir + "/harness/go.sum")
	os.WriteFile(tmp+"/go.sum", sum, 0644)
	rep := map[string]string{repo + "/go.mod": verifDir + "/harness/psd.go.mod"}
	for name, by := range files {
		b, err := os.ReadFile(repo + "/" + by)
		if err != nil {
			fatal(2, "%v", err)
		}
		lines := strings.Split(string(b), "\n")
		for i, l := range lines {
			if strings.HasPrefix(l, "//go:build ") || strings.HasPrefix(l, "// +build ") {
				lines[i] = "//" // keeps the line numbers
			}
			if strings.HasPrefix(l, "package ") {
				break
			}
		}
		f := tmp + "/" + strings.ReplaceAll(name, "/", "_")
		os.WriteFile(f, []byte(strings.Join(lines, "\n")), 0644)
		rep[repo+"/"+name] = f
		p.files[repo+"/"+name] = []byte(strings.Join(lines, "\n"))
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(p.overlay, ov, 0644)
	return p
}

func (p *project) env() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off")
}

func (p *project) load(pkg string) (*ssa.Program, *ssa.Package) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        verifDir + "/harness",
		Env:        append(p.env(), "CGO_ENABLED=0"),
		BuildFlags: []string{"-modfile=" + p.modfile, "-overlay=" + p.overlay},
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			if b := p.files[name]; b != nil {
				src = b
			}
			return parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
		},
	}
	pkgs, err := packages.Load(cfg, "verif/harness/"+pkg)
	if err != nil {
		fatal(2, "load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			if strings.Contains(q.PkgPath, "oov/psd") || strings.HasPrefix(q.PkgPath, "verif") {
				fmt.Fprintln(os.Stderr, e)
				bad = true
			}
		}
	})
	if bad {
		fatal(2, "the code does not load")
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return prog, sp[0]
}

func (p *project) build(pkg string, race bool) (string, error) {
	out := p.tmp + "/replay-" + strings.ReplaceAll(pkg, "/", "_")
	args := []string{"build", "-modfile=" + p.modfile, "-overlay=" + p.overlay}
	if race {
		out += "-race"
		args = append(args, "-race")
	}
	args = append(args, "-o", out, "verif/harness/"+pkg+"/cmd")
	cmd := osexec.Command("go", args...)
	cmd.Dir = verifDir + "/harness"
	cmd.Env = p.env()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, b)
	}
	return out, nil
}

type replayResult struct {
	code  int
	out   string
	reach []string
	outs  []string
	fail  string // assert / panic / race / deadlock / ""
	text  string
}

func (p *project) replay(bin, model string, race bool, tmo time.Duration) replayResult {
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	var cmd *osexec.Cmd
	if race {
		cmd = osexec.CommandContext(ctx, bin, model)
	} else {
		cmd = osexec.CommandContext(ctx, "bash", "-c", `ulimit -v 24000000; exec "$0" "$1"`, bin, model)
	}
	cmd.Env = append(os.Environ(), "SYM_REPO="+p.repo, "GORACE=halt_on_error=1 exitcode=66")
	b, err := cmd.CombinedOutput()
	r := replayResult{out: string(b)}
	if cmd.ProcessState != nil {
		r.code = cmd.ProcessState.ExitCode()
	}
	for _, l := range strings.Split(r.out, "\n") {
		switch {
		case strings.HasPrefix(l, "SYM-REACH "):
			r.reach = append(r.reach, l[10:])
		case strings.HasPrefix(l, "SYM-OUT "):
			r.outs = append(r.outs, l[8:])
		case strings.HasPrefix(l, "SYM-ASSERT "):
			r.fail, r.text = "assert", l[11:]
		case strings.HasPrefix(l, "panic: ") && r.fail == "":
			r.fail, r.text = "panic", l
		case strings.HasPrefix(l, "fatal error: ") && r.fail == "":
			r.fail, r.text = "panic", l
			if strings.Contains(l, "deadlock") {
				r.fail = "deadlock"
			}
		case strings.Contains(l, "WARNING: DATA RACE"):
			r.fail, r.text = "race", l
		}
	}
	if ctx.Err() != nil && r.fail == "" {
		r.fail, r.text = "deadlock", "no answer in time"
	}
	_ = err
	return r
}

func writeModel(path, harness string, vals map[string]uint64, params map[string]int, extra map[string]any) {
	m := map[string]any{"harness": harness, "vars": vals, "params": params}
	for k, v := range extra {
		m[k] = v
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(path, b, 0644)
}

var posFn = regexp.MustCompile(`\(([^()]*(?:\([^()]*\))?[^()]*)\)$`)

func whereOf(pos string) string {
	i := strings.Index(pos, " (")
	if i < 0 {
		return pos
	}
	return strings.TrimSuffix(pos[i+2:], ")")
}

func main() {
	runtime.GOMAXPROCS(runtime.NumCPU())
	rdebug.SetGCPercent(200)
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	repo := fs.String("repo", "/repo", "repository under check")
	only := fs.String("only", "", "run only harnesses matching this regexp")
	verbose := fs.Bool("v", false, "details")
	budget := fs.Int("budget", 0, "override the time budget of a harness in seconds")
	noreplay := fs.Bool("noreplay", false, "skip native replays (development)")
	paramS := fs.String("p", "", "override parameters k=v,...")
	if len(os.Args) < 3 {
		fatal(2, "usage: gosym check ID [flags] | replay FILE")
	}
	cmd, id := os.Args[1], os.Args[2]
	fs.Parse(os.Args[3:])
	switch cmd {
	case "check":
	case "replay":
		replayFile(id, *repo)
		return
	default:
		fatal(2, "unknown command")
	}
	spec := loadChecks()[id]
	if spec == nil {
		fatal(2, "no check for %s", id)
	}
	over := map[string]int{}
	for _, kv := range strings.Split(*paramS, ",") {
		var v int
		if i := strings.IndexByte(kv, '='); i > 0 {
			fmt.Sscan(kv[i+1:], &v)
			over[kv[:i]] = v
		}
	}
	code := runCheck(id, spec, *tier, *repo, *only, *verbose, *budget, *noreplay, over)
	os.Exit(code)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func loadChecks() map[string]*CheckSpec {
	checks := map[string]*CheckSpec{}
	b, err := os.ReadFile(verifDir + "/checks.json")
	if err != nil {
		fatal(2, "%v", err)
	}
	if err := json.Unmarshal(b, &checks); err != nil {
		fatal(2, "checks.json: %v", err)
	}
	return checks
}

func loadFindings() []Finding {
	var fs []Finding
	b, err := os.ReadFile(verifDir + "/known_findings.json")
	if err == nil {
		if err := json.Unmarshal(b, &fs); err != nil {
			fatal(2, "known_findings.json: %v", err)
		}
	}
	return fs
}

func replayFile(path, repo string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(2, "%v", err)
	}
	var m struct {
		Pkg      string `json:"pkg"`
		Kind     string `json:"kind"`
		Property string `json:"property"`
	}
	json.Unmarshal(b, &m)
	var files map[string]string
	if s := loadChecks()[m.Property]; s != nil {
		files = s.Overlay
	}
	p := setupProject(repo, files)
	defer os.RemoveAll(p.tmp)
	bin, err := p.build(m.Pkg, m.Kind == "race")
	if err != nil {
		fatal(2, "%v", err)
	}
	r := p.replay(bin, path, m.Kind == "race", 60*time.Second)
	fmt.Print(r.out)
	fmt.Println("exit", r.code, r.fail, r.text)
}

func runCheck(id string, spec *CheckSpec, tier, repo, only string, verbose bool, budget int, noreplay bool, over map[string]int) int {
	t0 := time.Now()
	p := setupProject(repo, spec.Overlay)
	defer os.RemoveAll(p.tmp)
	prog, pkg := p.load(spec.Pkg)
	loadT := time.Since(t0)
	e := newEngine(prog)
	e.repo = repo
	if os.Getenv("GOSYM_FIRST") != "" { // stop at the first violation
		e.maxViol = 1
	}
	findings := loadFindings()
	type bres struct {
		bin string
		err error
	}
	binCh := make(chan bres, 1)
	go func() {
		b, err := p.build(spec.Pkg, false)
		binCh <- bres{b, err}
	}()
	hard := 14 * time.Minute // the whole check must answer within 900 s
	if tier == "thorough" {
		hard = 10 * time.Hour
	}
	var results []HarnessResult
	var specs []HarnessSpec
	for _, h := range spec.Harnesses {
		if h.Only == "thorough" && tier != "thorough" {
			continue
		}
		if only != "" && !regexp.MustCompile(only).MatchString(h.Fn) {
			continue
		}
		fn := pkg.Func(h.Fn)
		if fn == nil {
			fatal(2, "no harness %s", h.Fn)
		}
		ps, bs := h.Quick, h.BudgetQ
		if bs == 0 {
			bs = 60
		}
		if tier == "thorough" {
			if h.Thorough != nil {
				ps = h.Thorough
			}
			bs = h.BudgetT
			if bs == 0 {
				bs = 600
			}
		}
		if budget > 0 {
			bs = budget
		}
		e.params = map[string]int{}
		for k, v := range ps {
			e.params[k] = v
		}
		for k, v := range over {
			e.params[k] = v
		}
		bud := time.Duration(bs) * time.Second
		if left := hard - time.Since(t0) - 60*time.Second; bud > left {
			bud = left
		}
		e.hardTimeout = 20 * time.Second
		if h.SolTmo > 0 {
			e.hardTimeout = time.Duration(h.SolTmo) * time.Second
		}
		base, err := e.initState(pkg)
		if err != nil {
			fatal(2, "%v", err)
		}
		q0 := e.st
		r := e.runHarness(fn, base, bud)
		results = append(results, r)
		specs = append(specs, h)
		done := e.maxViol == 1 && len(r.Violations) > 0
		fmt.Printf("%s %s: paths=%d done=%d assumed-away=%d steps=%d asserts=%d (by simplification %d) queries=%d unknown=%d inconclusive=%d violations=%d %.1fs\n",
			id, h.Fn, r.Paths, r.Done, r.Assumed, r.Steps, r.Asserts, r.AssertsTrivial, e.st.Queries-q0.Queries, e.st.Unknown-q0.Unknown, len(r.Inconc), len(r.Violations), r.Seconds)
		if verbose || len(r.Inconc) > 0 {
			for k, n := range r.Inconc {
				fmt.Printf("   inconclusive x%d: %s\n", n, k)
			}
		}
		if verbose {
			for k, n := range r.Reach {
				fmt.Printf("   reached x%d: %s\n", n, k)
			}
			fmt.Printf("   params %v\n", r.Params)
		}
		if done {
			break
		}
	}
	// ---- replay ----
	br := <-binCh
	if br.err != nil {
		fatal(2, "replay build: %v", br.err)
	}
	outDir := verifDir + "/replays"
	if os.Getenv("GOSYM_REPLAYS") != "" {
		outDir = os.Getenv("GOSYM_REPLAYS")
	}
	os.MkdirAll(outDir, 0755)
	exit := 0
	validated, mismatched := 0, 0
	var unrepro []string
	known := map[string]bool{}
	violN := 0
	for ri := range results {
		r := &results[ri]
		// completed paths are replayed to compare the encoding with the compiled code
		if !noreplay {
			var wg sync.WaitGroup
			var mu sync.Mutex
			sem := make(chan bool, 8)
			for ti, tr := range r.Traces {
				wg.Add(1)
				go func(ti int, tr Trace) {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					f := fmt.Sprintf("%s/trace-%d-%d.json", p.tmp, ri, ti)
					writeModel(f, r.Name, tr.Vals, r.Params, nil)
					rr := p.replay(br.bin, f, false, 60*time.Second)
					ok := rr.code == 0 && fmt.Sprint(rr.reach) == fmt.Sprint(tr.Reach) && fmt.Sprint(rr.outs) == fmt.Sprint(tr.Outs)
					mu.Lock()
					defer mu.Unlock()
					if ok {
						validated++
					} else {
						mismatched++
						fmt.Printf("   WARNING %s: compiled code and encoding differ on a completed path (exit %d %s %s)\n", r.Name, rr.code, rr.fail, rr.text)
						r.Inconc["encoding and compiled code differ on a replayed path"]++
						if verbose {
							fmt.Println("native reach", rr.reach, "engine", tr.Reach)
							fmt.Println("native outs", rr.outs, "\nengine outs", tr.Outs, tr.Vals)
						}
						if os.Getenv("GOSYM_KEEP") != "" {
							b, _ := os.ReadFile(f)
							os.WriteFile(fmt.Sprintf("%s/mismatch-%s-%d.json", os.Getenv("GOSYM_KEEP"), r.Name, ti), b, 0644)
						}
					}
				}(ti, tr)
			}
			wg.Wait()
		}
		for _, v := range r.Violations {
			violN++
			f := fmt.Sprintf("%s/%s-%s-%d.json", outDir, id, r.Name, violN)
			writeModel(f, r.Name, v.Vals, r.Params, map[string]any{"pkg": spec.Pkg, "kind": v.Kind, "property": id, "msg": v.Msg, "pos": v.Pos})
			where := whereOf(v.Pos)
			if verbose {
				fmt.Printf("   candidate %s: %s at %s\n", v.Kind, v.Msg, v.Pos)
			}
			ok := false
			var rr replayResult
			if noreplay {
				ok = true
			} else {
				bin := br.bin
				race := v.Kind == "race"
				if race {
					rb, err := p.build(spec.Pkg, true)
					if err != nil {
						fmt.Println("   race replay build failed:", err)
						unrepro = append(unrepro, v.Msg)
						continue
					}
					bin = rb
				}
				tries := 1
				if race {
					tries = 20
				}
				for k := 0; k < tries && !ok; k++ {
					rr = p.replay(bin, f, race, 60*time.Second)
					switch v.Kind {
					case "assert":
						ok = rr.fail == "assert" && rr.text == v.Msg || rr.fail == "panic"
					case "panic":
						ok = rr.fail == "panic"
					case "race": // the race detector remembers few accesses; a wrong result counts too
						ok = rr.fail == "race" || rr.fail == "assert" || rr.fail == "panic"
					default:
						ok = rr.fail == v.Kind
					}
				}
			}
			if !ok {
				fmt.Printf("   unreproduced counterexample (%s: %s at %s; native: exit %d %s %s)\n", v.Kind, v.Msg, v.Pos, rr.code, rr.fail, rr.text)
				unrepro = append(unrepro, r.Name+": "+v.Kind+": "+v.Msg)
				r.Inconc["counterexample not reproduced by the compiled code: "+v.Msg]++
				if os.Getenv("GOSYM_KEEP") == "" {
					os.Remove(f)
				}
				continue
			}
			isKnown := false
			for _, kf := range findings {
				if kf.Kind == "finding" && kf.Property == id && (kf.Harness == "" || kf.Harness == r.Name) && strings.HasPrefix(v.Msg, kf.Msg) && (kf.Where == "" || kf.Where == where) {
					isKnown = true
					if !known[kf.What] {
						known[kf.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf.What)
					}
				}
			}
			if isKnown {
				os.Remove(f)
				continue
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
			fmt.Printf("   %s in %s: %s at %s (native: %s)\n", v.Kind, r.Name, v.Msg, v.Pos, rr.text)
			exit = 1
		}
	}
	writeEvidence(id, spec, tier, e, results, specs, validated, mismatched, unrepro, exit, time.Since(t0), loadT, known)
	fmt.Printf("%s %s: exit %d, %d traces validated, %.1fs (load %.1fs, solver %.1fs)\n", id, tier, exit, validated, time.Since(t0).Seconds(), loadT.Seconds(), float64(e.st.TimeNS)/1e9)
	return exit
}

var _ = bytes.NewReader
var _ = filepath.Join
var _ = sort.Strings
