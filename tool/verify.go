package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"verif/tool/smt"
)

// verifier is the verification of a contract.
type verifier struct {
	con     *Contract
	trivial map[string]int
	inlined map[string]bool
	used    map[string]*Contract
	nondet  bool
	twice   bool
	mods    []modRec
}

type modRec struct {
	comp string
	ref  *smt.Term
}

type sortRec struct {
	vars        []*smt.Term
	in, off, ln *smt.Term
}

type memoRec struct {
	fact    *Fact
	at      int
	n       int
	pc      map[*smt.Term]bool
	binders []*Binder
}

// wf records what is known about every slice value and reference that is read
// from memory.
func (e *Engine) wf(t *smt.Term) *smt.Term {
	c := e.c
	if t.S != c.Slc || t.Op == "ctor" {
		return t
	}
	base, off, ln, cp := e.sbase(t), e.soff(t), e.slen(t), e.scap(t)
	f := c.And(c.Le(c.Int(0), off), c.Le(c.Int(0), ln), c.Le(ln, cp), c.Implies(c.Eq(base, c.Int(0)), c.And(c.Eq(cp, c.Int(0)), c.Eq(off, c.Int(0)))))
	if !t.Fr {
		f = c.And(f, c.Le(c.Int(0), base))
	}
	e.fact(f, "slice")
	return t
}

// param is an unknown value of the type, which exists at entry.
func (e *Engine) param(n string, t types.Type) Val {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Slice:
		b, ln, cp := c.Var(n+".base", c.IntS), c.Var(n+".len", c.IntS), c.Var(n+".cap", c.IntS)
		e.fact(c.And(c.Le(c.Int(0), b), c.Le(c.Int(0), ln), c.Le(ln, cp), c.Implies(c.Eq(b, c.Int(0)), c.Eq(cp, c.Int(0)))), "parameter")
		return e.slc(b, c.Int(0), ln, cp)
	case *types.Struct:
		var fs []*smt.Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.term(e.param(n+"."+u.Field(i).Name(), u.Field(i).Type())))
		}
		return c.Ctor(e.sort(t), fs...)
	case *types.Pointer, *types.Map, *types.Chan:
		v := c.Var(n, c.IntS)
		e.fact(c.Le(c.Int(0), v), "parameter")
		return v
	}
	return c.Var(n, e.sort(t))
}

// Outcome is the result of verifying a contract.
type Outcome struct {
	Con     *Contract
	Obls    []*Obl
	Trivial map[string]int
	Unsup   string
	Inlined []string
	Used    []*Contract
	Nondet  bool
	End     *Obl // that the end is not reached, which must not be provable
}

// RunInit executes the initialization of the packages of the repository.
func (e *Engine) RunInit() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("initialization: %s", u.msg)
				e.inInit = false
				e.postInit = true
				return
			}
			panic(r)
		}
	}()
	e.inInit = true
	e.nextLit = 1000
	st := &State{pc: e.c.True, heap: map[string]*smt.Term{}, env: map[ssa.Value]Val{}, consumed: map[*smt.Term]bool{}}
	done := map[*types.Package]bool{}
	for _, pk := range e.p.Pkgs {
		sp := e.p.Prog.Package(pk.Types)
		if sp == nil || pk.Types.Path() == vspecPath || done[pk.Types] {
			continue
		}
		done[pk.Types] = true
		f := sp.Func("init")
		s, _ := e.call(f, nil, nil, st)
		if s == nil {
			return fmt.Errorf("initialization of %s does not return", pk.Types.Path())
		}
		s.env = map[ssa.Value]Val{}
		st = s
		e.initHeap = st.heap
	}
	e.inInit = false
	e.postInit = true
	for comp := range e.initHeap {
		if strings.HasPrefix(comp, "X:") {
			delete(e.initHeap, comp)
		}
	}
	for g, con := range e.p.GlobalCon {
		v, ok := e.initHeap[e.gcomp(g)]
		if !ok {
			continue
		}
		if f, ok := e.fnOf(v); ok {
			con.Target = f.Fn
			e.p.Contracts[f.Fn] = con
		}
	}
	return nil
}

// Verify generates the obligations of a contract.
func (e *Engine) Verify(con *Contract) (out *Outcome) {
	out = &Outcome{Con: con}
	v := &verifier{con: con, trivial: map[string]int{}, inlined: map[string]bool{}, used: map[string]*Contract{}}
	e.cur, e.verifying = v, con
	e.facts, e.obls, e.binders = nil, nil, nil
	e.useMemo = map[string]*memoRec{}
	e.stack, e.uses, e.depth, e.spec, e.quiet = nil, nil, 0, 0, 0
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				u = unsupported{fmt.Sprint("internal: ", r)}
			}
			out.Unsup = fmt.Sprintf("%s (at %s)", u.msg, e.pos(e.curPos))
		}
		out.Obls, out.Trivial, out.Nondet = e.obls, v.trivial, v.nondet
		for f := range v.inlined {
			out.Inlined = append(out.Inlined, f)
		}
		sort.Strings(out.Inlined)
		var ks []string
		for k := range v.used {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out.Used = append(out.Used, v.used[k])
		}
		e.cur, e.verifying = nil, nil
	}()
	st := &State{pc: e.c.True, heap: map[string]*smt.Term{}, env: map[ssa.Value]Val{}, consumed: map[*smt.Term]bool{}}
	var args []Val
	for _, p := range con.Fn.Params {
		args = append(args, e.param("p:"+p.Name(), p.Type()))
	}
	end, _ := e.call(con.Fn, nil, args, st)
	if end == nil {
		unsup("the contract does not return")
	}
	e.frame(end, v)
	out.End = &Obl{Name: "the end is reached", Kind: "vacuity", NFacts: len(e.facts), PC: end.pc, Goal: e.c.False}
	return out
}

// frame obliges what existed at entry to be as it was.
func (e *Engine) frame(end *State, v *verifier) {
	c := e.c
	if v.con.has("noframe") {
		return
	}
	var comps []string
	for k := range end.heap {
		comps = append(comps, k)
	}
	sort.Strings(comps)
	saved := e.facts
	for _, k := range comps {
		if strings.HasPrefix(k, "X:") {
			continue
		}
		h := end.heap[k]
		h0 := e.get(&State{heap: map[string]*smt.Term{}}, k)
		if h == h0 {
			continue
		}
		if strings.HasPrefix(k, "G:") {
			e.oblige(end, "frame", "package variable "+k[2:]+" is unchanged", c.Eq(h, h0), "C25")
			continue
		}
		r := c.Var("skolem.ref:"+k, c.IntS)
		goal := c.Eq(c.Select(h, r), c.Select(h0, r))
		for _, m := range v.mods {
			if m.comp == k {
				goal = c.Or(goal, c.Eq(r, m.ref))
			}
		}
		e.fact(c.Le(c.Int(0), r), "frame")
		e.oblige(end, "frame", "nothing that the caller owns is written to ("+k+")", goal, "C25")
	}
	_ = saved
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := e.p.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, e.p.Repo+"/"), q.Line)
}

// Query is the text of the query for an obligation.
func (e *Engine) Query(facts []*Fact, o *Obl, m smt.Mode) string {
	return e.c.Query(e.assertions(facts, o), m)
}

func (e *Engine) assertions(facts []*Fact, o *Obl) []*smt.Term {
	var as []*smt.Term
	seen := map[*smt.Term]bool{}
	add := func(t *smt.Term) {
		if t.IsTrue() || seen[t] {
			return
		}
		seen[t] = true
		as = append(as, t)
	}
	for _, f := range facts[:o.NFacts] {
		add(e.closed(f, o.Binders))
	}
	for _, f := range o.Facts {
		add(e.closed(f, o.Binders))
	}
	for _, b := range o.Binders {
		add(b.Guard)
	}
	add(o.PC)
	add(e.c.Not(o.Goal))
	return as
}

// Discharge proves the obligations of an outcome in parallel.
func (e *Engine) Discharge(out *Outcome, facts []*Fact, want func(o *Obl) bool) {
	type job struct {
		o  *Obl
		q  []string
		as []*smt.Term

		noExt string
	}
	var jobs []job
	for _, o := range out.Obls {
		if o.Trivial || want != nil && !want(o) {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					o.Result = smt.Result{Answer: fmt.Sprint("error: ", r)}
				}
			}()
			var qs []string
			as := e.assertions(facts, o)
			q2 := e.queries(as)
			qs = append(qs, q2[0])
			if e.mentions(facts, o, "F32", "F64") {
				qs = append(qs, e.Query(facts, o, smt.Mode{FP: true}))
			}
			jobs = append(jobs, job{o, qs, as, q2[1]})
		}()
	}
	done := make(chan bool)
	var mu sync.Mutex
	for _, j := range jobs {
		go func(j job) {
			defer func() { done <- true }()
			name := sanitize(out.Con.Name + "_" + j.o.Name)
			try := func(q string, backs []smt.Back) bool {
				r := e.pool.Prove(name, q, backs...)
				if j.o.Result.Answer == "" || r.Answer == "unsat" {
					j.o.Result = r
				}
				return r.Answer == "unsat"
			}
			r := e.byCases(name, j.as, [2]string{j.q[0], j.noExt}, &mu, 0)
			j.o.Result = r
			if r.Answer == "unsat" {
				return
			}
			for _, q := range j.q[1:] {
				if try(q, e.backs) {
					return
				}
			}
			if e.onFail != nil {
				e.onFail()
			}
		}(j)
	}
	for range jobs {
		<-done
	}
}

// maxDepth is how often an obligation is split into cases at most.
const maxDepth = 9

// queries are the query for assertions, and one with fewer axioms.
func (e *Engine) queries(as []*smt.Term) [2]string {
	return [2]string{e.c.Query(as, smt.Mode{}), e.c.Query(as, smt.Mode{NoExt: true})}
}

// byCases proves an obligation, if necessary separately for each way through the
// branches that its goal depends on.
func (e *Engine) byCases(name string, as []*smt.Term, qs [2]string, mu *sync.Mutex, depth int) smt.Result {
	r := e.pool.Prove(name, qs[1], e.backs[0])
	if r.Answer != "unsat" && qs[0] != qs[1] {
		r = e.pool.Prove(name, qs[0], e.backs[0])
	}
	if r.Answer == "unsat" || e.pool.Stopped() {
		return r
	}
	cond := branch(as[len(as)-1])
	if cond == nil || depth == maxDepth {
		return e.pool.Prove(name, qs[0], e.backs[1:]...)
	}
	var rs [2]smt.Result
	var wg sync.WaitGroup
	for i, holds := range []bool{true, false} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					rs[i] = smt.Result{Answer: fmt.Sprint("error: ", r)}
				}
			}()
			mu.Lock()
			bs := e.inCase(as, cond, holds)
			var qs [2]string
			if bs != nil {
				qs = e.queries(bs)
			}
			mu.Unlock()
			if bs == nil {
				rs[i] = smt.Result{Answer: "unsat", Back: "simplifier"}
				return
			}
			rs[i] = e.byCases(name, bs, qs, mu, depth+1)
		}()
	}
	wg.Wait()
	r = rs[0]
	if r.Answer == "unsat" {
		r = rs[1]
	}
	if r.Answer == "unsat" {
		r.Back = "z3-new/relevant, by cases"
	}
	return r
}

// branch is the outermost condition in a term.
func branch(t *smt.Term) *smt.Term {
	seen := map[*smt.Term]bool{t: true}
	for q := []*smt.Term{t}; len(q) > 0; q = q[1:] {
		t := q[0]
		if t.Op == "ite" && !t.Args[0].Bound && !t.Args[0].IsLit() {
			return t.Args[0]
		}
		if t.Op == "forall" {
			continue
		}
		for _, a := range t.Args {
			if !seen[a] {
				seen[a] = true
				q = append(q, a)
			}
		}
	}
	return nil
}

// inCase are the assertions where a condition holds, or does not; nil if that is
// a contradiction.
func (e *Engine) inCase(as []*smt.Term, cond *smt.Term, holds bool) []*smt.Term {
	m := map[*smt.Term]*smt.Term{}
	var set func(t *smt.Term, v bool)
	set = func(t *smt.Term, v bool) {
		if t.Op == "not" {
			set(t.Args[0], !v)
			return
		}
		m[t] = e.c.BoolLit(v)
		if t.Op == "and" && v || t.Op == "or" && !v {
			for _, a := range t.Args {
				set(a, v)
			}
		}
	}
	set(cond, holds)
	var bs []*smt.Term
	for _, a := range as {
		b := e.c.Subst(a, m)
		if b.IsFalse() {
			return nil
		}
		if !b.IsTrue() || a == as[len(as)-1] {
			bs = append(bs, b)
		}
	}
	c := cond
	if !holds {
		c = e.c.Not(cond)
	}
	last := bs[len(bs)-1]
	return append(append([]*smt.Term{}, bs[:len(bs)-1]...), c, last)
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '-'
	}, s)
}

func (e *Engine) mentions(facts []*Fact, o *Obl, sorts ...string) bool {
	seen := map[int]bool{}
	var walk func(t *smt.Term) bool
	walk = func(t *smt.Term) bool {
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		for _, s := range sorts {
			if t.S.Name == s {
				return true
			}
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(o.Goal)
}

// ---------------------------------------------------------------- contracts at call sites

// useContract applies a contract at a call.
func (e *Engine) useContract(fr *frame, st *State, con *Contract, args []Val) (*State, []Val) {
	e.used[con] = true
	if e.cur != nil {
		e.cur.used[con.Name] = con
	}
	u := &useCtx{con: con, args: args, pos: e.curPos}
	e.uses = append(e.uses, u)
	env, defers := st.env, st.defers
	stack := e.stack
	e.stack = nil
	s, _ := e.call(con.Fn, nil, args, st)
	e.stack = stack
	e.uses = e.uses[:len(e.uses)-1]
	e.curPos = u.pos
	if s == nil || !u.called {
		unsup("contract of %s does not call it", con.Name)
	}
	s.env, s.defers = env, defers
	return s, u.results
}

// havoc is the effect of a call according to its contract.
func (e *Engine) havoc(st *State, u *useCtx, args []Val) (*State, []Val) {
	u.called = true
	fn := u.con.Target
	sig := fn.Signature
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	if u.con.has("unordered") {
		el := ts[0].Underlying().(*types.Slice).Elem()
		sl := e.term(args[0])
		bag := e.bag(e.sliceSeq(st, sl, el))
		st = e.permute(st, sl, el, fmt.Sprintf("perm:%s@%d", u.con.Name, e.id()))
		if u.con.has("pure") {
			ins := append([]*smt.Term{bag}, e.deepAll(st, args[1:], ts[1:])...)
			u.results = e.ufResults(st, "pure:"+u.con.Name, sig.Results(), ins)
			for i := range u.results {
				// which error it is may depend on the order.
				if t := sig.Results().At(i).Type(); isError(t) {
					isn := e.c.App(sigName(fmt.Sprintf("pure:%s#%d:nil", u.con.Name, i), ins), e.c.Bool, ins...)
					v := e.term(e.ufValue(st, fmt.Sprintf("ret:%s!%d#%d", u.con.Name, e.id(), i), t, e.bvars()))
					e.fact(e.c.Not(e.c.Eq(v, e.nilIfc())), "error")
					u.results[i] = e.c.Ite(isn, e.nilIfc(), v)
				}
			}
			return st, u.results
		}
	}
	if u.con.has("pure") {
		ins := e.deepAll(st, args, ts)
		u.results = e.ufResults(st, "pure:"+u.con.Name, sig.Results(), ins)
	} else {
		n := fmt.Sprintf("ret:%s!%d", u.con.Name, e.id())
		u.results = nil
		for i := 0; i < sig.Results().Len(); i++ {
			u.results = append(u.results, e.ufValue(st, fmt.Sprintf("%s#%d", n, i), sig.Results().At(i).Type(), e.bvars()))
		}
	}
	return st, u.results
}

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// callSpec applies a recursive specification function: as an uninterpreted
// function with its definition.
func (e *Engine) callSpec(fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	ins := e.deepAll(st, args, ts)
	rs := e.ufResults(st, "spec:"+fn.String(), fn.Signature.Results(), ins)
	for _, f := range e.stack {
		if f == fn {
			return st, rs
		}
	}
	e.stack = append(e.stack, fn)
	saved := st.clone()
	e.spec++
	s, vs := e.call(fn, nil, args, st)
	e.spec--
	e.stack = e.stack[:len(e.stack)-1]
	if s != nil {
		for i := range rs {
			e.fact(e.c.Implies(saved.pc, e.c.Eq(e.term(rs[i]), e.term(vs[i]))), "definition of "+fn.Name())
		}
	}
	return saved, rs
}
