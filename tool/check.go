package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/tool/smt"
)

// Clauses are the names of the clauses of a contract.
func (p *Program) Clauses(c *Contract) []string {
	seen, names := map[*ssa.Function]bool{}, map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := call.Common().StaticCallee()
				if callee == nil || callee.Pkg == nil {
					continue
				}
				if callee.Pkg.Pkg.Path() == vspecPath {
					if n := callee.Name(); n == "Ensures" || n == "Assert" {
						if k, ok := call.Common().Args[0].(*ssa.Const); ok {
							names[constant.StringVal(k.Value)] = true
						}
					}
					continue
				}
				if strings.HasPrefix(callee.Name(), "verif_") {
					walk(callee)
				}
			}
		}
	}
	walk(c.Fn)
	var out []string
	for n := range names {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func hasTag(name, id string) bool {
	for _, t := range tagsOf(name) {
		if t == id {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- running contracts

type runFailure struct {
	Contract string   `json:"contract"`
	Clause   string   `json:"clause"`
	Kind     string   `json:"kind"`
	Seed     int64    `json:"seed"`
	Iter     int      `json:"iter"`
	Args     []string `json:"args"`
	Detail   string   `json:"detail,omitempty"`
	Pkg      string   `json:"package"`
}

type runStats struct {
	Contract string         `json:"contract"`
	Runs     int            `json:"runs"`
	Skipped  int            `json:"skipped"`
	Clauses  map[string]int `json:"clauses"`
	Sample   []string       `json:"sample"`
}

type runReport struct {
	Failures []runFailure `json:"failures"`
	Stats    []runStats   `json:"stats"`
}

// runner runs contracts on the real code.
type runner struct {
	p         *Program
	contracts string // directory
	dir       string // scratch
	overlay   string
	built     map[string]string
	broken    map[string]string
	mu        sync.Mutex
}

func newRunner(p *Program, contracts string) (*runner, error) {
	r := &runner{p: p, contracts: contracts, built: map[string]string{}, broken: map[string]string{}}
	d, err := os.MkdirTemp("", "govc-run")
	if err != nil {
		return nil, err
	}
	r.dir = d
	repl := map[string]string{}
	n := 0
	put := func(path string, b []byte) {
		n++
		f := filepath.Join(d, fmt.Sprintf("f%d.go", n))
		os.WriteFile(f, b, 0o644)
		repl[path] = f
	}
	for path, b := range p.Overlay {
		put(path, b)
	}
	b, err := os.ReadFile(filepath.Join(contracts, "vspec", "gen.go"))
	if err != nil {
		return nil, err
	}
	put(filepath.Join(p.Repo, "internal", "vspec", "gen.go"), b)
	byPkg := map[string][]*Contract{}
	for _, c := range p.Order {
		byPkg[c.Fn.Pkg.Pkg.Path()] = append(byPkg[c.Fn.Pkg.Pkg.Path()], c)
	}
	for path, cs := range byPkg {
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		var s strings.Builder
		fmt.Fprintf(&s, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s\"\n)\n\nfunc TestVerifDrive(t *testing.T) {\n\tvspec.Drive([]vspec.Case{\n", cs[0].Fn.Pkg.Pkg.Name(), vspecPath)
		for _, c := range cs {
			var hints []string
			for _, p := range c.Fn.Params {
				hints = append(hints, c.Hints[p.Name()])
			}
			fmt.Fprintf(&s, "\t\t{Name: %q, Fn: %s, Hints: %#v, Frame: %v, Runs: %d},\n", c.Name, c.Fn.Name(), hints, !c.has("noframe"), 1)
		}
		if g, err := os.ReadFile(filepath.Join(contracts, rel, "gen.go")); err == nil {
			put(filepath.Join(p.Repo, rel, "zz_verif_gen_test.go"), g)
		}
		s.WriteString("\t})\n}\n")
		put(filepath.Join(p.Repo, rel, "zz_verif_drive_test.go"), []byte(s.String()))
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	for path := range repl {
		if strings.HasSuffix(path, "zz_verif_gen_test.go") {
			delete(repl, path)
		}
	}
	plain, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(filepath.Join(d, "plain.json"), plain, 0o644)
	r.overlay = filepath.Join(d, "overlay.json")
	return r, os.WriteFile(r.overlay, ov, 0o644)
}

func (r *runner) close() { os.RemoveAll(r.dir) }

// binary builds the test binary of a package.
func (r *runner) binary(pkg string) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.built[pkg]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", r.broken[pkg])
		}
		return b, nil
	}
	out := filepath.Join(r.dir, sanitize(pkg)+".test")
	build := func(overlay string) ([]byte, error) {
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", overlay, "-o", out, pkg)
		cmd.Dir = r.p.Repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0")
		return cmd.CombinedOutput()
	}
	b, err := build(r.overlay)
	if err != nil {
		// the generators of the package may name what is no longer there.
		b, err = build(filepath.Join(r.dir, "plain.json"))
	}
	if err != nil {
		r.built[pkg] = ""
		r.broken[pkg] = cut(string(b), 2000)
		return "", fmt.Errorf("%s", cut(string(b), 2000))
	}
	r.built[pkg] = out
	return out, nil
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// run runs contracts of a package.
func (r *runner) run(pkg string, names []string, seed int64, runs, secs int, iter int) (*runReport, error) {
	bin, err := r.binary(pkg)
	if err != nil {
		return nil, err
	}
	out := filepath.Join(r.dir, fmt.Sprintf("%s-%d-%d.json", sanitize(pkg), seed, time.Now().UnixNano()))
	cmd := exec.Command(bin, "-test.run", "^TestVerifDrive$", "-test.timeout", fmt.Sprintf("%ds", secs+120))
	cmd.Dir = r.dir
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.FormatInt(seed, 10), "VERIF_RUNS="+strconv.Itoa(runs), "VERIF_SECS="+strconv.Itoa(secs),
		"VERIF_ONLY="+strings.Join(names, " "), "VERIF_ITER="+strconv.Itoa(iter), "VERIF_OUT="+out, "GOMEMLIMIT=2GiB")
	log, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(out)
	if rerr != nil {
		return nil, fmt.Errorf("running the contracts of %s: %v: %s", pkg, err, cut(string(log), 2000))
	}
	var rep runReport
	if err := json.Unmarshal(b, &rep); err != nil {
		return nil, err
	}
	for i := range rep.Failures {
		rep.Failures[i].Pkg = pkg
	}
	return &rep, nil
}

// ---------------------------------------------------------------- the check

type checkOpts struct {
	repo, verif, property, tier string
	seed                        int64
}

type failedObl struct {
	Contract string `json:"contract"`
	Kind     string `json:"kind"`
	Name     string `json:"obligation"`
	At       string `json:"at"`
	Answer   string `json:"answer"`
	Back     string `json:"back_end"`
	PC       string `json:"path_condition,omitempty"`
	Goal     string `json:"goal,omitempty"`
	Model    string `json:"model,omitempty"`
}

type conEvidence struct {
	Contract   string         `json:"contract"`
	Target     string         `json:"function,omitempty"`
	Role       string         `json:"role"`
	Obls       int            `json:"obligations"`
	Discharged int            `json:"discharged"`
	ByBack     map[string]int `json:"by_back_end"`
	Inlined    []string       `json:"functions_verified_inline,omitempty"`
	Uses       []string       `json:"uses_contracts,omitempty"`
	Unsup      string         `json:"unsupported,omitempty"`
	GenSecs    float64        `json:"generation_s"`
}

// Check decides a property.
func Check(o checkOpts) int {
	start := time.Now()
	thorough := o.tier == "thorough"
	limit := 560 * time.Second
	if thorough {
		limit = 800 * time.Second
	}
	contracts := filepath.Join(o.verif, "contracts")
	p, err := Load(o.repo, contracts)
	if err != nil {
		fmt.Println("cannot load the code under verification:", err)
		return 2
	}
	roots, bounded := map[*Contract]bool{}, map[*Contract]bool{}
	whole := o.property == "C25" || o.property == "C26"
	for _, c := range p.Order {
		in := whole
		for _, n := range p.Clauses(c) {
			in = in || hasTag(n, o.property)
		}
		if !in {
			continue
		}
		if c.has("bounded") {
			bounded[c] = true
		} else {
			roots[c] = true
		}
	}
	if len(roots) == 0 && len(p.Dropped) == 0 {
		fmt.Println("no contract states", o.property)
		return 2
	}

	// run the contracts on the real code, meanwhile.
	r, err := newRunner(p, contracts)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer r.close()
	runs, secs := 6000, 30
	if thorough {
		runs, secs = 400000, 240
	}
	relevant := func(f runFailure) bool {
		if f.Kind == "frame" {
			return o.property == "C25"
		}
		if f.Kind == "panic" || f.Kind == "hang" {
			return o.property == "C26" || !whole
		}
		return hasTag(f.Clause, o.property)
	}
	pkgs := map[string][]string{}
	for _, c := range p.Order {
		if roots[c] || bounded[c] {
			pkgs[c.Fn.Pkg.Pkg.Path()] = append(pkgs[c.Fn.Pkg.Pkg.Path()], c.Name)
		}
	}
	type ran struct {
		fails []runFailure
		stats []runStats
		errs  []string
	}
	search := func(seed int64, runs, secs int) ran {
		var out ran
		var wg sync.WaitGroup
		var mu sync.Mutex
		for pkg, names := range pkgs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rep, err := r.run(pkg, names, seed, runs, secs, -1)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					out.errs = append(out.errs, err.Error())
					return
				}
				for _, f := range rep.Failures {
					if relevant(f) {
						out.fails = append(out.fails, f)
					}
				}
				out.stats = append(out.stats, rep.Stats...)
			}()
		}
		wg.Wait()
		return out
	}
	results := make(chan ran, 1)
	pool := smt.NewPool(8)
	go func() {
		res := search(o.seed, runs, secs)
		if len(res.fails) > 0 {
			// the obligation that fails is worth naming, but not worth long.
			pool.StopBy(time.Now().Add(40 * time.Second))
		}
		results <- res
	}()

	// prove.
	pool.StopBy(start.Add(limit))
	defer pool.Close()
	e := NewEngine(p, pool)
	e.onFail = func() { pool.StopBy(time.Now().Add(60 * time.Second)) }
	if thorough {
		e.backs = append(e.backs, smt.Z3M(200, 120), smt.Z3(200, 120))
	}
	var failed []failedObl
	initErr := e.RunInit()
	initFacts := 0
	if initErr != nil {
		failed = append(failed, failedObl{Contract: "package initialization", Kind: "unsupported", Name: initErr.Error()})
	}
	_ = initFacts
	var evs []conEvidence
	back := map[string]int{}
	total, discharged := 0, 0
	inlined := map[string]bool{}
	samples := []string{}
	done := map[*Contract]bool{}
	queue := []*Contract{}
	for _, c := range p.Order {
		if roots[c] {
			queue = append(queue, c)
		}
	}
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		if done[c] {
			continue
		}
		done[c] = true
		t := time.Now()
		out := e.Verify(c)
		ev := conEvidence{Contract: c.Name, Role: "states the property", ByBack: map[string]int{}, Inlined: out.Inlined, Unsup: out.Unsup, GenSecs: time.Since(t).Seconds()}
		if c.Target != nil {
			ev.Target = c.Target.String()
		}
		dep := !roots[c]
		if dep {
			ev.Role = "used in place of the function"
		}
		modular := c.has("modular")
		want := func(ob *Obl) bool {
			switch {
			case dep || ob.Kind == "ensures" && len(ob.Tags) == 0:
				return true
			case o.property == "C25":
				return ob.Kind == "frame" || ob.Kind == "requires" || modular
			case o.property == "C26":
				return ob.Kind == "panic" || ob.Kind == "requires" || ob.Kind == "unreachable" || modular
			case ob.Kind == "ensures":
				for _, t := range ob.Tags {
					if t == o.property {
						return true
					}
				}
				return false
			case ob.Kind == "frame":
				return modular
			}
			return true
		}
		e.Discharge(out, e.facts, want)
		if out.End != nil {
			if q := e.Query(e.facts, out.End, smt.Mode{}); pool.Run("vacuity", q, smt.Z3C(4, 4)).Answer == "unsat" {
				failed = append(failed, failedObl{Contract: c.Name, Kind: "vacuity", Name: "the assumptions of the contract contradict each other"})
			}
		}
		for _, u := range out.Used {
			ev.Uses = append(ev.Uses, u.Name)
			if !u.has("bounded") {
				queue = append(queue, u)
			}
		}
		for _, f := range out.Inlined {
			inlined[f] = true
		}
		if out.Unsup != "" {
			failed = append(failed, failedObl{Contract: c.Name, Kind: "unsupported", Name: "the verifier cannot generate all obligations: " + out.Unsup})
		}
		for _, ob := range out.Obls {
			if !want(ob) {
				continue
			}
			total++
			ev.Obls++
			if ob.Result.Answer == "unsat" {
				discharged++
				ev.Discharged++
				ev.ByBack[ob.Result.Back]++
				back[ob.Result.Back]++
				if ob.Kind == "ensures" && len(samples) < 5 && ob.Result.Back != "simplifier" {
					samples = append(samples, c.Name+": "+ob.Name)
				}
				continue
			}
			f := failedObl{Contract: c.Name, Kind: ob.Kind, Name: ob.Name, At: e.pos(ob.Pos), Answer: ob.Result.Answer, Back: ob.Result.Back, PC: cut(fmt.Sprint(ob.PC), 4000), Goal: cut(fmt.Sprint(ob.Goal), 4000)}
			failed = append(failed, f)
		}
		evs = append(evs, ev)
	}
	for _, d := range p.Dropped {
		// a contract that no longer applies says nothing about what it stated.
		if p.DroppedTags[d][o.property] || whole {
			failed = append(failed, failedObl{Contract: d, Kind: "dropped", Name: "the contract no longer fits the code"})
		}
	}
	res := <-results
	if len(failed) > 0 && len(res.fails) == 0 {
		// look for an input harder.
		for s := int64(1); s < 40 && len(res.fails) == 0 && time.Since(start) < limit-60*time.Second && s < 3; s++ {
			more := search(o.seed+1000*s, runs*4, 30)
			res.fails = more.fails
			res.stats = append(res.stats, more.stats...)
		}
	}
	evaluations, nontrivial := 0, 0
	clauseRuns := map[string]int{}
	var runSamples []any
	for _, s := range res.stats {
		evaluations += s.Runs + s.Skipped
		nontrivial += s.Runs
		for k, n := range s.Clauses {
			if hasTag(k, o.property) {
				clauseRuns[k] += n
			}
		}
		if len(s.Sample) > 0 && len(runSamples) < 4 {
			runSamples = append(runSamples, map[string]any{"contract": s.Contract, "arguments": s.Sample})
		}
	}
	code := 0
	replay := filepath.Join(o.verif, "replays", o.property+".json")
	violations := 0
	if len(res.fails) > 0 || len(failed) > 0 {
		os.MkdirAll(filepath.Dir(replay), 0o755)
		b, _ := json.MarshalIndent(map[string]any{
			"property": o.property, "failing_inputs": res.fails, "failed_obligations": failed,
			"replay_command": fmt.Sprintf("%s/scripts/replay.sh %s", o.verif, replay),
		}, "", " ")
		os.WriteFile(replay, b, 0o644)
		code, violations = 1, 1
		sort.SliceStable(failed, func(i, j int) bool { return failed[i].Answer != "out of time" && failed[j].Answer == "out of time" })
		for i, f := range failed {
			if i < 10 && (i == 0 || f.Answer != "out of time") {
				fmt.Printf("failed obligation: %s: %s %q at %s (%s)\n", f.Contract, f.Kind, f.Name, f.At, cut(f.Answer, 200))
			}
		}
		for i, f := range res.fails {
			if i < 5 {
				fmt.Printf("failing input: %s: %q with %s\n", f.Contract, f.Clause, cut(strings.Join(f.Args, "; "), 600))
			}
		}
		suffix := ""
		if len(res.fails) == 0 {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", o.property, replay, suffix)
	}
	var under, trusted []string
	for c := range done {
		under = append(under, c.Name)
	}
	sort.Strings(under)
	for t := range e.trusted {
		trusted = append(trusted, t)
	}
	for t := range e.notes {
		trusted = append(trusted, "note: "+t)
	}
	sort.Strings(trusted)
	var inl []string
	for f := range inlined {
		inl = append(inl, f)
	}
	sort.Strings(inl)
	var bnd []string
	for c := range bounded {
		bnd = append(bnd, c.Name)
	}
	sort.Strings(bnd)
	evid := map[string]any{
		"property": o.property, "tier": o.tier, "seed": o.seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": total, "discharged": discharged,
			"checker_cmd":                       fmt.Sprintf("govc check -property %s -tier %s -repo %s", o.property, o.tier, o.repo),
			"trusted_base":                      append([]string{"govc (the generator of obligations in /verif/tool) and golang.org/x/tools/go/ssa", "z3 5.3.2, cvc5 1.1.2"}, trusted...),
			"discharged_by_back_end":            back,
			"solver_s":                          float64(pool.Spent.Load()) / 1e9,
			"contracts":                         evs,
			"contracts_verified":                under,
			"functions_of_the_code_in_proofs":   inl,
			"contracts_dropped":                 p.Dropped,
			"failed_obligations":                failed,
			"samples":                           samples,
			"evaluations":                       evaluations,
			"distinct_nontrivial":               nontrivial,
			"rule":                              "bounded supplement, not counted as proved: each contract is also executed on the real code with generated arguments; a run is non-trivial if the arguments meet the contract's assumptions",
			"executed_clauses":                  clauseRuns,
			"executed_samples":                  runSamples,
			"execution_errors":                  res.errs,
			"contracts_only_executed (bounded)": bnd,
		},
		"assumptions": assumptions(trusted),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(evid, "", " ")
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(o.verif, "evidence", o.property+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d of %d obligations discharged for %d contracts (%s), %d executions of contracts, %.1f s\n", o.property, discharged, total, len(done), mapString(back), evaluations, time.Since(start).Seconds())
	if code == 0 {
		for _, l := range knownFindings(o.verif, o.property) {
			fmt.Println(l)
		}
	}
	return code
}

func mapString(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s %d", k, m[k]))
	}
	return strings.Join(out, ", ")
}

func knownFindings(verif, id string) []string {
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			out = append(out, "KNOWN-FINDING:"+strings.TrimPrefix(l, "finding:"))
		}
	}
	return out
}

func assumptions(trusted []string) []string {
	return append([]string{
		"integers are mathematical (no overflow); float32 and float64 arithmetic is IEEE 754 in the floating-point encoding, and uninterpreted but monotone facts elsewhere",
		"termination is not proved: contracts speak about calls that return",
		"goroutines: calls do not interfere because nothing shared is written (C25); data races inside dependencies are not considered",
	}, trusted...)
}

// hints are what a contract says about how to generate its arguments.
func hints(doc *ast.CommentGroup) map[string]string {
	m := map[string]string{}
	if doc == nil {
		return m
	}
	for _, c := range doc.List {
		t := strings.TrimPrefix(c.Text, "//verif:gen ")
		if t == c.Text {
			continue
		}
		for _, f := range strings.Fields(t) {
			if k, v, ok := strings.Cut(f, "="); ok {
				m[k] = v
			}
		}
	}
	return m
}

var _ = types.Universe

// Replay runs the failing inputs of a replay file again.
func Replay(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var in struct {
		Inputs []runFailure `json:"failing_inputs"`
		Obls   []failedObl  `json:"failed_obligations"`
	}
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Println(err)
		return 2
	}
	if len(in.Inputs) == 0 {
		fmt.Println("no failing input was found; the obligations that failed are:")
		for _, f := range in.Obls {
			fmt.Printf("%s: %s %q at %s (%s)\n", f.Contract, f.Kind, f.Name, f.At, f.Answer)
		}
		return 1
	}
	p, err := Load(repo, filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r, err := newRunner(p, filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer r.close()
	code := 0
	for _, f := range in.Inputs {
		rep, err := r.run(f.Pkg, []string{f.Contract}, f.Seed, 1, 60, f.Iter)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		for _, x := range rep.Failures {
			fmt.Printf("%s fails %q with %s %s\n", x.Contract, x.Clause, strings.Join(x.Args, "; "), x.Detail)
			code = 1
		}
	}
	return code
}
