// vsym decides one property of /repo by symbolic execution of its source.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"io/fs"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"verif/engine/exec"
	"verif/engine/sym"
)

var (
	prop    = flag.String("prop", "", "property id")
	tier    = flag.String("tier", "quick", "quick or thorough")
	verif   = flag.String("verif", "/verif", "framework directory")
	repo    = flag.String("repo", "/repo", "repository under test")
	only    = flag.String("only", "", "run only harnesses whose name contains this")
	verbose = flag.Bool("v", false, "progress on stderr")
	keep    = flag.Bool("keep", false, "keep the scratch directory")
	budget  = flag.Int("budget", 0, "seconds of symbolic execution per harness")
	dump    = flag.String("dump", "", "directory for SMT dumps of undecided queries")
	par     = flag.Int("par", runtime.NumCPU(), "parallel harnesses")
	prof    = flag.String("cpuprofile", "", "write a CPU profile")
	replayF = flag.String("replay", "", "replay a recorded violation on the real code")
)

type finding struct{ harness, label, what string }

type known struct {
	f    []finding
	used map[int]bool
}

func loadKnown(path, prop string) (k known) {
	k.used = map[int]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, what, _ := strings.Cut(l[7:], " | ")
		f := finding{what: what}
		ok := false
		for _, kv := range strings.Fields(head) {
			a, v, _ := strings.Cut(kv, "=")
			switch a {
			case "property":
				ok = v == prop
			case "harness":
				f.harness = v
			case "label":
				f.label = v
			}
		}
		if ok {
			k.f = append(k.f, f)
		}
	}
	return
}

func (k *known) match(h, label string) int {
	for i, f := range k.f {
		if f.harness == h && f.label == label {
			return i
		}
	}
	return -1
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vsym: "+f+"\n", a...)
	exit(2)
}

var scratch string
var exitOnce sync.Once

func exit(c int) {
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	if scratch != "" && !*keep {
		os.RemoveAll(scratch)
	}
	os.Exit(c)
}

func copyGo(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			if d.Name() == "testdata" || d.Name() == "node_modules" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if filepath.Base(filepath.Dir(p)) != "hmac" { // see harness/vh/hmac
			b = bytes.Replace(b, []byte("\"crypto/hmac\""), []byte("\"github.com/ndau/ndaumath/verifh/vh/hmac\""), 1)
		}
		if !strings.HasSuffix(filepath.Dir(p), "/vh/ed25519") {
			for _, q := range []string{"\"crypto/ed25519\"", "\"golang.org/x/crypto/ed25519\""} {
				b = bytes.Replace(b, []byte(q), []byte("\"github.com/ndau/ndaumath/verifh/vh/ed25519\""), 1)
			}
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

type harness struct {
	name string
	fn   *ssa.Function
	deep bool
	x    *exec.Exec
	wall float64
	// results
	violations []violation
	inconcl    []string
	unconf     []string
	discharged int
	proved     map[string]int
	bySolver   map[string]int
	validated  int
	mismatches []string
	samples    []interface{}
	stuckRun   int
}

type violation struct {
	harness, label, where string
	inputs                map[string]string
	detail                string
	how                   string
}

func main() {
	flag.Parse()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(12 << 30)
	os.Unsetenv("GOWORK")
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
	}
	start := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	var rec map[string]interface{}
	if *replayF != "" {
		b, err := os.ReadFile(*replayF)
		if err != nil {
			die("%v", err)
		}
		if err := json.Unmarshal(b, &rec); err != nil {
			die("%v", err)
		}
		*prop = rec["property"].(string)
	}
	id := strings.ToLower(*prop)
	var err error
	scratch, err = os.MkdirTemp("", "vsym-"+id+"-")
	if err != nil {
		die("%v", err)
	}
	root := filepath.Join(scratch, "repo")
	hs := prepare(root, id)
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GO111MODULE=on", "GOTOOLCHAIN=local", "GODEBUG=randautoseed=0")
	replayBin := filepath.Join(scratch, "replay")
	buildDone := make(chan error, 1)
	go func() {
		cmd := osexec.Command("go", "build", "-o", replayBin, "./verifh/"+id+"_main")
		cmd.Dir, cmd.Env = root, env
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v\n%s", err, out)
		}
		buildDone <- err
	}()
	if rec != nil {
		if err := <-buildDone; err != nil {
			die("native build: %v", err)
		}
		in := map[string]string{}
		for k, v := range rec["inputs"].(map[string]interface{}) {
			in[k] = v.(string)
		}
		rs, err := native(replayBin, rec["harness"].(string), []caseT{{in, rec["deep"] == true}}, nil, 60*time.Second)
		j, _ := json.MarshalIndent(rs, "", " ")
		fmt.Println(string(j), err)
		exit(0)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: root, Env: env}
	pkgs, err := packages.Load(cfg, "./verifh/"+id)
	if err != nil {
		die("load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			bad = true
		}
	})
	if bad {
		die("the source does not type-check")
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	_ = ssautil.AllFunctions
	hp := spkgs[0]
	var run []*harness
	for _, n := range hs {
		deep := strings.HasPrefix(n, "Deep")
		if deep && *tier != "thorough" || *only != "" && !strings.Contains(n, *only) {
			continue
		}
		fn := hp.Func(n)
		if fn == nil {
			die("no function %s", n)
		}
		run = append(run, &harness{name: n, fn: fn, deep: deep, proved: map[string]int{}, bySolver: map[string]int{}})
	}
	loadS := time.Since(start).Seconds()
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs, %d harnesses\n", loadS, len(run))
	}
	execB, obTO, total := 300*time.Second, 90*time.Second, 700*time.Second
	if *tier == "thorough" {
		execB, obTO, total = 1500*time.Second, 300*time.Second, 3000*time.Second
	}
	if *budget > 0 {
		execB = time.Duration(*budget) * time.Second
	}
	hard := start.Add(total)
	kf := loadKnown(filepath.Join(*verif, "known-findings.txt"), *prop)
	sem := make(chan bool, *par)
	solveSem := make(chan bool, 6)
	var wg sync.WaitGroup
	var berr error
	var bonce sync.Once
	built := func() error {
		bonce.Do(func() { berr = <-buildDone })
		return berr
	}
	for _, h := range run {
		wg.Add(1)
		go func(h *harness) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			t0 := time.Now()
			runHarness(h, prog, execB, obTO, hard, solveSem, func() string {
				if err := built(); err != nil {
					die("native build: %v", err)
				}
				return replayBin
			}, seed)
			h.wall = time.Since(t0).Seconds()
			if *verbose {
				fmt.Fprintf(os.Stderr, "%-28s %6.1fs steps=%d paths=%d oblig=%d (+%d trivial) viol=%d inconcl=%d incomplete=%d validated=%d mism=%d\n", h.name, h.wall, steps(h), h.x.EndCount(), len(h.x.Oblig), sum(h.x.Trivial()), len(h.violations), len(h.inconcl), len(h.x.Incomplete), h.validated, len(h.mismatches))
			}
		}(h)
	}
	wg.Wait()
	report(run, kf, seed, start, loadS)
}

func steps(h *harness) int { a, _, _ := h.x.Stats(); return a }
func sum(m map[string]int) (n int) {
	for _, v := range m {
		n += v
	}
	return
}

// prepare builds the scratch module and returns the harness names.
func prepare(root, id string) []string {
	must := func(err error) {
		if err != nil {
			die("%v", err)
		}
	}
	must(os.MkdirAll(root, 0o755))
	must(copyGo(filepath.Join(*repo, "pkg"), filepath.Join(root, "pkg")))
	if _, err := os.Stat(filepath.Join(*verif, "harness", id, ".cmdkeyaddr")); err == nil {
		must(copyGo(filepath.Join(*repo, "cmd", "keyaddr"), filepath.Join(root, "cmd", "keyaddr")))
	}
	mod, sumf := "", ""
	for _, c := range [][2]string{{*repo + "/go.mod", *repo + "/go.sum"}, {"/opt/vp/ndaumath.mod", "/opt/vp/ndaumath.sum"}, {*verif + "/engine/repo.mod", *verif + "/engine/repo.sum"}} {
		b, err := os.ReadFile(c[0])
		s, err2 := os.ReadFile(c[1])
		if err == nil && err2 == nil {
			mod, sumf = string(b), string(s)
			break
		}
	}
	mod += "\nrequire github.com/ericlagergren/decimal v0.0.0\nreplace github.com/ericlagergren/decimal => ./decimalshim\n"
	must(os.WriteFile(root+"/go.mod", []byte(mod), 0o644))
	must(os.WriteFile(root+"/go.sum", []byte(sumf), 0o644))
	must(copyGo(filepath.Join(*verif, "shim", "decimal"), root+"/decimalshim"))
	b, err := os.ReadFile(filepath.Join(*verif, "shim", "decimal", "go.mod"))
	must(err)
	must(os.WriteFile(root+"/decimalshim/go.mod", b, 0o644))
	must(copyGo(filepath.Join(*verif, "harness", "vh"), root+"/verifh/vh"))
	must(copyGo(filepath.Join(*verif, "harness", "common"), root+"/verifh/common"))
	must(copyGo(filepath.Join(*verif, "harness", id), root+"/verifh/"+id))
	// names
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedSyntax | packages.NeedFiles | packages.NeedCompiledGoFiles, Dir: root, Env: append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")}
	ps, err := packages.Load(cfg, "./verifh/"+id)
	must(err)
	var names []string
	for _, p := range ps {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if ok && fd.Recv == nil && (strings.HasPrefix(fd.Name.Name, "Check") || strings.HasPrefix(fd.Name.Name, "Deep")) {
					names = append(names, fd.Name.Name)
				}
			}
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		die("no harness for %s (%v)", id, ps[0].Errors)
	}
	var sb bytes.Buffer
	fmt.Fprintf(&sb, "package main\nimport (\n\"github.com/ndau/ndaumath/verifh/vh\"\nh \"github.com/ndau/ndaumath/verifh/%s\"\n)\nfunc main() { vh.Main(map[string]func(){\n", id)
	for _, n := range names {
		fmt.Fprintf(&sb, "%q: h.%s,\n", n, n)
	}
	sb.WriteString("}) }\n")
	must(os.MkdirAll(root+"/verifh/"+id+"_main", 0o755))
	must(os.WriteFile(root+"/verifh/"+id+"_main/main.go", sb.Bytes(), 0o644))
	return names
}

type caseT struct {
	Inputs map[string]string `json:"inputs"`
	Deep   bool              `json:"deep"`
}
type resT struct {
	Failed []string          `json:"failed"`
	Panic  string            `json:"panic"`
	Assume bool              `json:"assume_failed"`
	Obs    []string          `json:"obs"`
	Inputs map[string]string `json:"inputs"`
}

var natN int64

// native runs cases on the natively compiled harness and real code.
// A crash or hang of the process is reported as err.
func native(bin, h string, cs []caseT, extra []string, to time.Duration) ([]resT, error) {
	n := atomic.AddInt64(&natN, 1)
	f := filepath.Join(scratch, fmt.Sprintf("cases%d.json", n))
	b, _ := json.Marshal(cs)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	cmd := osexec.CommandContext(ctx, bin, append([]string{h, f}, extra...)...)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "GODEBUG=randautoseed=0", "GOMEMLIMIT=2GiB")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return nil, fmt.Errorf("hang: no result within %v", to)
	}
	if err != nil {
		msg := errb.String()
		if len(msg) > 400 {
			msg = msg[:400]
		}
		return nil, fmt.Errorf("crash: %v: %s", err, msg)
	}
	o := out.Bytes()
	if i := bytes.LastIndexByte(bytes.TrimSpace(o), '\n'); i >= 0 {
		o = bytes.TrimSpace(o)[i+1:]
	}
	var rs []resT
	if err := json.Unmarshal(o, &rs); err != nil {
		return nil, fmt.Errorf("bad replay output: %v", err)
	}
	return rs, nil
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func runHarness(h *harness, prog *ssa.Program, execB, obTO time.Duration, hard time.Time, solveSem chan bool, bin func() string, seed int64) {
	x := exec.New(prog)
	h.x = x
	if *tier == "thorough" {
		x.Tier = 1
	}
	x.Deadline = time.Now().Add(execB)
	if x.Deadline.After(hard) {
		x.Deadline = hard
	}
	deep := x.Tier > 0
	x.Run(h.fn)
	x.Close()
	if *verbose {
		fmt.Fprintf(os.Stderr, "%-28s executed: steps=%d paths=%d oblig=%d\n", h.name, steps(h), x.EndCount(), len(x.Oblig))
	}
	// discharge, at most one confirmed violation per label
	var mu sync.Mutex
	confirmed := map[string]bool{}
	attempts := map[string]int{}
	var wg sync.WaitGroup
	for _, o := range x.Oblig {
		wg.Add(1)
		go func(o *exec.Obligation) {
			defer wg.Done()
			solveSem <- true
			defer func() { <-solveSem }()
			mu.Lock()
			skip := confirmed[o.Label]
			mu.Unlock()
			if skip {
				return
			}
			to := obTO
			if r := time.Until(hard); r < to {
				to = r
			}
			if to < time.Second {
				mu.Lock()
				h.inconcl = append(h.inconcl, o.Label+": time budget exhausted")
				mu.Unlock()
				return
			}
			x.Discharge(o, to)
			mu.Lock()
			defer mu.Unlock()
			switch o.Result {
			case sym.Unsat:
				h.discharged++
				h.proved[o.Label]++
				h.bySolver[o.Solver]++
			case sym.Unknown:
				h.inconcl = append(h.inconcl, fmt.Sprintf("%s: solvers undecided (%s) at %s", o.Label, o.Solver, o.Where))
				if *dump != "" {
					x.Ctx().Mu.Lock()
					os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s-%s-%d.smt2", h.name, strings.ReplaceAll(o.Label, " ", "_"), len(h.inconcl))), []byte(x.Ctx().DumpQuery(append(append([]*sym.Term(nil), o.Conj...), x.Axioms()...))), 0o644)
					x.Ctx().Mu.Unlock()
				}
			case sym.Sat:
				if confirmed[o.Label] {
					return
				}
				attempts[o.Label]++
				att := attempts[o.Label]
				in := x.InputsOf(o.Model)
				mu.Unlock()
				v, why := confirm(h, o, in, deep, bin())
				if v == nil && x.UFUsed && att <= 3 {
					if m := x.Realise(o, 60*time.Second); m != nil {
						in2 := x.InputsOf(m)
						v, why = confirm(h, o, in2, deep, bin())
						if v == nil {
							why = "with real hashes: " + why
						}
					} else {
						why += "; no model with real hashes found"
					}
				}
				if v == nil && x.UFUsed && att <= 3 {
					v2, _ := search(h, o.Label, deep, bin(), seed)
					if v2 != nil {
						v2.where = o.Where
						v = v2
					}
				}
				mu.Lock()
				if v != nil {
					if !confirmed[o.Label] {
						confirmed[o.Label] = true
						h.violations = append(h.violations, *v)
					}
				} else {
					if *dump != "" {
						x.Ctx().Mu.Lock()
						var sb strings.Builder
						for _, t := range o.Conj {
							sb.WriteString(t.String() + "\n")
						}
						x.Ctx().Mu.Unlock()
						os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s-unconf-%d.txt", h.name, len(h.unconf))), []byte(sb.String()), 0o644)
					}
					h.unconf = append(h.unconf, fmt.Sprintf("%s at %s: solver model not reproduced natively (%s) inputs=%v engine=%v", o.Label, o.Where, why, in, x.ObsOf(o.Model, o.Obs)))
				}
			}
		}(o)
	}
	wg.Wait()
	// end states: validate the encoding against the real code
	n := 12
	if deep {
		n = 24
	}
	ends := x.Ends
	if len(ends) > n {
		var pick []*exec.EndState
		for i := 0; i < n; i++ {
			pick = append(pick, ends[i*len(ends)/n])
		}
		ends = pick
	}
	type vc struct {
		c   caseT
		obs []string
		end bool
	}
	var cases []vc
	var wg2 sync.WaitGroup
	for _, e := range ends {
		if time.Until(hard) < 5*time.Second {
			break
		}
		wg2.Add(1)
		go func(e *exec.EndState) {
			defer wg2.Done()
			solveSem <- true
			defer func() { <-solveSem }()
			m := x.EndModel(e, 20*time.Second)
			if m == nil {
				return
			}
			v := vc{caseT{x.InputsOf(m), deep}, x.ObsOf(m, e.Obs), true}
			mu.Lock()
			cases = append(cases, v)
			mu.Unlock()
		}(e)
	}
	for _, e := range x.Stuck {
		if e.Model != nil {
			h.stuckRun++
			cases = append(cases, vc{caseT{x.InputsOf(e.Model), deep}, nil, false})
		}
	}
	wg2.Wait()
	if len(cases) == 0 {
		return
	}
	var cs []caseT
	for _, c := range cases {
		cs = append(cs, c.c)
	}
	rs, err := native(bin(), h.name, cs, nil, 30*time.Second)
	if err != nil {
		// find the offending case
		rs = nil
		for _, c := range cs {
			r, err := native(bin(), h.name, []caseT{c}, nil, 15*time.Second)
			if err != nil {
				if !confirmed["terminates"] {
					confirmed["terminates"] = true
					h.violations = append(h.violations, violation{h.name, "terminates normally", "", c.Inputs, err.Error(), "native run of a path's model"})
				}
				rs = append(rs, resT{Assume: true})
				continue
			}
			rs = append(rs, r[0])
		}
	}
	for i, r := range rs {
		c := cases[i]
		if r.Assume {
			if c.end && !x.UFUsed {
				h.mismatches = append(h.mismatches, fmt.Sprintf("assumption fails natively for %v", c.c.Inputs))
			}
			continue
		}
		for _, l := range r.Failed {
			if !confirmed[l] {
				confirmed[l] = true
				h.violations = append(h.violations, violation{h.name, l, "", c.c.Inputs, "assertion failed", "native run of a path's model"})
			}
		}
		if r.Panic != "" && !confirmed["panic"] {
			confirmed["panic"] = true
			h.violations = append(h.violations, violation{h.name, "no panic", "", c.c.Inputs, r.Panic, "native run of a path's model"})
			continue
		}
		if !c.end {
			continue
		}
		if x.UFUsed {
			h.validated++
			continue
		}
		if strings.Join(r.Obs, "|") != strings.Join(c.obs, "|") {
			h.mismatches = append(h.mismatches, fmt.Sprintf("inputs=%v engine=%v native=%v", c.c.Inputs, c.obs, r.Obs))
			continue
		}
		h.validated++
		if len(h.samples) < 2 {
			h.samples = append(h.samples, map[string]interface{}{"harness": h.name, "inputs": compact(c.c.Inputs), "observed": r.Obs})
		}
	}
}

func compact(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var o []string
	for _, k := range ks {
		o = append(o, k+"="+m[k])
	}
	s := strings.Join(o, " ")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func confirm(h *harness, o *exec.Obligation, in map[string]string, deep bool, bin string) (*violation, string) {
	rs, err := native(bin, h.name, []caseT{{in, deep}}, nil, 30*time.Second)
	v := &violation{h.name, o.Label, o.Where, in, "", "solver model replayed on the real code"}
	if err != nil {
		v.detail = err.Error()
		if strings.HasPrefix(err.Error(), "bad") {
			return nil, err.Error()
		}
		return v, ""
	}
	r := rs[0]
	if r.Assume {
		return nil, "assumption fails natively"
	}
	if r.Panic != "" {
		v.detail = "panic: " + r.Panic
		return v, ""
	}
	if has(r.Failed, o.Label) {
		v.detail = "assertion failed: " + strings.Join(r.Obs, " ")
		return v, ""
	}
	if len(r.Failed) > 0 {
		v.label = r.Failed[0]
		v.detail = "assertion failed: " + strings.Join(r.Obs, " ")
		return v, ""
	}
	return nil, "native run passes"
}

// search looks for a native input failing the label the solver refuted under
// uninterpreted functions.
func search(h *harness, label string, deep bool, bin string, seed int64) (*violation, string) {
	want := label
	if strings.HasPrefix(label, "no panic") {
		want = "panic"
	}
	ex := []string{"3000", want, strconv.FormatInt(seed, 10)}
	if deep {
		ex = append(ex, "deep")
	}
	rs, err := native(bin, h.name, nil, ex, 60*time.Second)
	if err != nil {
		return nil, err.Error()
	}
	if len(rs) > 0 {
		return &violation{h.name, label, "", rs[0].Inputs, rs[0].Panic + strings.Join(rs[0].Obs, " "), "refuted by the solver under uninterpreted primitives; concrete input found by native search"}, ""
	}
	return nil, "not found"
}

func report(run []*harness, kf known, seed int64, start time.Time, loadS float64) {
	viol := 0
	var viols []violation
	fns := map[string]bool{}
	mods := map[string]bool{}
	notes := map[string]bool{}
	labels := map[string]interface{}{}
	var incompl, inconcl, unconf, mism []string
	solvers := map[string]int{}
	states, trans, validated, oblig, disch, triv, ends := 0, 0, 0, 0, 0, 0, 0
	var samples []interface{}
	hres := []interface{}{}
	for _, h := range run {
		for _, f := range h.x.Functions() {
			if strings.Contains(f, "ndaumath/pkg/") || strings.Contains(f, "ndaumath/cmd/") {
				fns[f] = true
			} else if strings.HasPrefix(f, "model:") {
				if !strings.Contains(f, "verifh/vh") {
					mods[f[6:]] = true
				}
			}
		}
		for n := range h.x.Notes {
			notes[n] = true
		}
		if h.x.UFUsed {
			notes["hash/curve primitives are uninterpreted functions (functional consistency only)"] = true
		}
		st, fk, mg := h.x.Stats()
		states += h.x.EndCount() + fk + mg
		trans += st
		ends += h.x.EndCount()
		validated += h.validated
		oblig += len(h.x.Oblig)
		disch += h.discharged
		triv += sum(h.x.Trivial())
		for k, v := range h.bySolver {
			solvers[k] += v
		}
		for _, s := range h.x.Incomplete {
			incompl = append(incompl, h.name+": "+s)
		}
		for _, s := range h.inconcl {
			inconcl = append(inconcl, h.name+": "+s)
		}
		for _, s := range h.unconf {
			unconf = append(unconf, h.name+": "+s)
		}
		for _, s := range h.mismatches {
			mism = append(mism, h.name+": "+s)
		}
		for l, n := range h.x.Labels {
			labels[h.name+"/"+l] = n
		}
		if len(h.x.Labels) == 0 && len(h.x.Oblig) == 0 && len(h.x.Incomplete) == 0 {
			incompl = append(incompl, h.name+": no assertion reached (vacuous)")
		}
		if len(samples) < 8 {
			samples = append(samples, h.samples...)
		}
		hres = append(hres, map[string]interface{}{"harness": h.name, "paths": h.x.EndCount(), "instructions": st, "forks": fk, "merges": mg, "obligations": len(h.x.Oblig), "discharged_by_solver": h.discharged, "trivially_true": sum(h.x.Trivial()), "covers": h.x.Covers, "wall_s": round(h.wall), "inputs": len(h.x.Inputs), "natively_validated": h.validated, "given_up_paths_run_natively": h.stuckRun})
		viols = append(viols, h.violations...)
	}
	rdir := filepath.Join(*verif, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	out := []string{}
	for _, v := range viols {
		if i := kf.match(v.harness, v.label); i >= 0 {
			kf.used[i] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, kf.f[i].what)
			continue
		}
		viol++
		p := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", *prop, v.harness, viol))
		j, _ := json.MarshalIndent(map[string]interface{}{"property": *prop, "harness": v.harness, "label": v.label, "where": v.where, "inputs": v.inputs, "detail": v.detail, "how": v.how, "deep": *tier == "thorough", "replay_cmd": "/verif/check.sh -replay " + p}, "", " ")
		os.WriteFile(p, append(j, '\n'), 0o644)
		fmt.Printf("%s: %s: %s\n  inputs: %s\n  %s\n", v.harness, v.label, v.detail, compact(v.inputs), v.where)
		out = append(out, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, p))
	}
	for i, f := range kf.f {
		if !kf.used[i] && *only == "" {
			ran := false
			for _, h := range run {
				ran = ran || h.name == f.harness
			}
			if ran {
				fmt.Printf("note: listed finding not observed on this run: %s/%s\n", f.harness, f.label)
			}
		}
	}
	for _, l := range [][]string{incompl, inconcl, unconf, mism} {
		seen := map[string]int{}
		for _, s := range l {
			seen[s]++
		}
		n := 0
		for _, s := range l {
			c := seen[s]
			if c == 0 {
				continue
			}
			seen[s] = 0
			if n++; n > 12 {
				fmt.Println("reduced: ... more (see evidence)")
				break
			}
			if len(s) > 700 {
				s = s[:700] + "..."
			}
			fmt.Printf("reduced: %dx %s\n", c, s)
		}
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"states_meaning":          "symbolic states created by forks and merges plus completed symbolic paths",
		"transitions_meaning":     "SSA instructions executed symbolically",
		"paths_completed":         ends,
		"assertion_queries":       oblig,
		"assertions_unsat":        disch,
		"assertions_simplified":   triv,
		"feasibility_queries":     sym.Global.Feas,
		"portfolio_queries":       sym.Global.Queries,
		"solver_seconds":          round(float64(sym.Global.SolverNs) / 1e9),
		"discharged_by":           solvers,
		"functions_encoded":       keys(fns),
		"functions_modelled":      keys(mods),
		"harnesses":               hres,
		"assertions":              labels,
		"paths_given_up":          incompl,
		"undecided":               inconcl,
		"unconfirmed_models":      unconf,
		"engine_native_mismatch":  mism,
		"bounds":                  bounds(),
		"load_s":                  round(loadS),
		"exhaustive_within_bound": len(incompl) == 0 && len(inconcl) == 0 && len(unconf) == 0,
	}
	ev := map[string]interface{}{"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.Since(start).Seconds()), "violations": viol, "assumptions": keys(notes)}
	j, _ := json.MarshalIndent(ev, "", " ")
	if *only == "" {
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(j, '\n'), 0o644); err != nil {
			die("%v", err)
		}
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertion queries (%d unsat, %d simplified away), %d violations, %d given up, %d undecided, %d unconfirmed, %.0fs\n", *prop, *tier, len(run), ends, oblig+triv, disch, triv, viol, len(incompl), len(inconcl), len(unconf), time.Since(start).Seconds())
	for _, s := range out {
		fmt.Println(s)
	}
	if viol > 0 {
		exit(1)
	}
	exit(0)
}

func bounds() string {
	b, err := os.ReadFile(filepath.Join(*verif, "harness", strings.ToLower(*prop), "BOUNDS"))
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(b))
}

func round(f float64) float64 { return float64(int(f*10+0.5)) / 10 }
func keys(m map[string]bool) []string {
	o := []string{}
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
