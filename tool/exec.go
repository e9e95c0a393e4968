package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/tool/smt"
)

// Engine is the verification condition generator.
type Engine struct {
	p    *Program
	c    *smt.Ctx
	pool *smt.Pool

	sorts    map[string]*smt.Sort
	structs  map[string]types.Type
	comps    map[string]*smt.Sort
	compT    map[string]types.Type
	typeIDs  map[string]int
	typeByID map[string]types.Type
	addrs    map[string]*Ptr
	fns      map[string]*ssa.Function
	regex    map[string]string // by reference literal
	initHeap map[string]*smt.Term
	postInit bool
	inInit   bool
	nextLit  int64
	allocN   int
	accNil   map[string]bool
	ids      int

	facts   []*Fact
	obls    []*Obl
	binders []*Binder
	spec    int // depth of specification evaluation
	quiet   int // no obligations
	depth   int
	loops   map[*ssa.Function]*loopInfo
	cur     *verifier
	curPos  token.Pos
	entry   *State
	iters   map[*smt.Term]*iterator
	loopN   int
	trusted map[string]bool // models used
	used    map[*Contract]bool

	accArr    map[string]bool
	accParent map[string]*accRec
	lenFrom   map[string]*accRec
	sorts2    map[string]*sortRec
	knowsNil  map[string]bool
	uses      []*useCtx
	verifying *Contract
	stack     []*ssa.Function
	useMemo   map[string]*memoRec
	specDone  map[string]bool
	backs     []smt.Back
	onFail    func() // an obligation was not proved
	notes     map[string]bool
}

// Binder is a variable that generic facts range over.
type Binder struct {
	V     *smt.Term
	Guard *smt.Term
	Tag   string
}

// Fact is an assumption.
type Fact struct {
	Binders []*Binder
	T       *smt.Term
	Pats    [][]*smt.Term
	Why     string
}

// Obl is a proof obligation.
type Obl struct {
	Name    string
	Kind    string // ensures, requires, panic, frame, lemma
	Tags    []string
	NFacts  int
	Binders []*Binder
	PC      *smt.Term
	Goal    *smt.Term
	Pos     token.Pos
	FP      bool
	Facts   []*Fact
	Trivial bool // the simplifier proved it
	Result  smt.Result
}

// State is a symbolic state.
type State struct {
	pc       *smt.Term
	heap     map[string]*smt.Term
	env      map[ssa.Value]Val
	defers   []*deferred
	consumed map[*smt.Term]bool // slices that were appended to
}

type deferred struct {
	guard *smt.Term
	call  *ssa.CallCommon
	fn    Val
	args  []Val
	pos   token.Pos
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, heap: make(map[string]*smt.Term, len(s.heap)), env: make(map[ssa.Value]Val, len(s.env)), defers: s.defers, consumed: make(map[*smt.Term]bool, len(s.consumed))}
	for k := range s.consumed {
		n.consumed[k] = true
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

type frame struct {
	fn      *ssa.Function
	returns []ret
	li      *loopInfo
	free    []Val
}

type ret struct {
	st   *State
	vals []Val
	pos  token.Pos
}

type edge struct {
	pred *ssa.BasicBlock
	to   *ssa.BasicBlock
	st   *State
}

// NewEngine creates an engine.
func NewEngine(p *Program, pool *smt.Pool) *Engine {
	e := &Engine{p: p, c: smt.NewCtx(), pool: pool}
	e.sorts, e.structs, e.comps, e.compT = map[string]*smt.Sort{}, map[string]types.Type{}, map[string]*smt.Sort{}, map[string]types.Type{}
	e.typeIDs, e.typeByID, e.addrs = map[string]int{}, map[string]types.Type{}, map[string]*Ptr{}
	e.fns, e.regex, e.initHeap = map[string]*ssa.Function{}, map[string]string{}, map[string]*smt.Term{}
	e.loops, e.iters = map[*ssa.Function]*loopInfo{}, map[*smt.Term]*iterator{}
	e.trusted, e.used, e.notes = map[string]bool{}, map[*Contract]bool{}, map[string]bool{}
	e.accNil = map[string]bool{}
	e.accArr, e.accParent, e.lenFrom = map[string]bool{}, map[string]*accRec{}, map[string]*accRec{}
	e.sorts2, e.knowsNil, e.useMemo, e.specDone = map[string]*sortRec{}, map[string]bool{}, map[string]*memoRec{}, map[string]bool{}
	e.backs = []smt.Back{smt.Z3C(4, 3), smt.Z3C(10, 8), smt.Z3M(10, 8), smt.Z3C(60, 45), smt.Z3M(30, 20), smt.Z3(30, 20)}
	e.baseAxioms()
	return e
}

func (e *Engine) id() int { e.ids++; return e.ids }

func (e *Engine) bvars() []*smt.Term {
	var vs []*smt.Term
	for _, b := range e.binders {
		vs = append(vs, b.V)
	}
	return vs
}

func (e *Engine) tags() string {
	s := ""
	for _, b := range e.binders {
		s += b.Tag
	}
	return s
}

// fresh is a new unknown, which depends on the binders in scope.
func (e *Engine) fresh(n string, s *smt.Sort) *smt.Term {
	return e.c.App(fmt.Sprintf("%s!%d", n, e.id()), s, e.bvars()...)
}

// alloc is a new reference.
func (e *Engine) alloc() *smt.Term {
	if e.inInit {
		e.nextLit++
		return e.c.Int(e.nextLit)
	}
	return e.allocNamed(fmt.Sprintf("alloc!%d%s", e.id(), e.tags()))
}

func (e *Engine) allocNamed(n string) *smt.Term {
	c := e.c
	vs := e.bvars()
	r := c.App(n, c.IntS, vs...)
	if !c.HasAxioms(n) {
		e.allocN++
		var bs []*smt.Term
		for _, v := range vs {
			bs = append(bs, c.BVar("a", v.S))
		}
		a := c.App(n, c.IntS, bs...)
		cs := []*smt.Term{c.Eq(c.App("allocid", c.IntS, a), c.Int(int64(e.allocN))), c.Lt(a, c.Int(0))}
		for i, b := range bs {
			cs = append(cs, c.Eq(c.App("allocarg:"+n+strconv.Itoa(i), b.S, a), b))
		}
		for _, b := range e.binders {
			if b.Tag != "" {
				cs = append(cs, c.App("inloop"+b.Tag, c.Bool, a))
			}
		}
		if len(bs) == 0 {
			c.Axiom(n, c.And(cs...))
		} else {
			c.Axiom(n, c.Forall(bs, c.And(cs...), []*smt.Term{a}))
		}
	}
	return r
}

// assume adds a fact that holds where the path condition does.
func (e *Engine) assume(st *State, t *smt.Term, why string, pats ...[]*smt.Term) {
	e.fact(e.c.Implies(st.pc, t), why, pats...)
}

func (e *Engine) fact(t *smt.Term, why string, pats ...[]*smt.Term) {
	if t.IsTrue() {
		return
	}
	e.facts = append(e.facts, &Fact{Binders: append([]*Binder{}, e.binders...), T: t, Why: why, Pats: pats})
}

// closed is the fact as it is seen from inside of the binders given.
func (e *Engine) closed(f *Fact, ctx []*Binder) *smt.Term {
	n := 0
	for n < len(f.Binders) && n < len(ctx) && f.Binders[n] == ctx[n] {
		n++
	}
	t := f.T
	for i := len(f.Binders) - 1; i >= n; i-- {
		b := f.Binders[i]
		var pats [][]*smt.Term
		if i == len(f.Binders)-1 {
			pats = f.Pats
		}
		if smt.Occurs(b.V, t) {
			t = e.c.Forall([]*smt.Term{b.V}, e.c.Implies(b.Guard, t), pats...)
		}
	}
	return t
}

func (e *Engine) oblige(st *State, kind, name string, goal *smt.Term, tags ...string) {
	if e.spec > 0 || e.quiet > 0 || e.inInit {
		return
	}
	if goal.IsTrue() {
		if e.cur != nil {
			e.cur.trivial[kind]++
			e.obls = append(e.obls, &Obl{Name: name, Kind: kind, Tags: tags, Pos: e.curPos, Trivial: true, Result: smt.Result{Answer: "unsat", Back: "simplifier"}})
		}
		return
	}
	e.obls = append(e.obls, &Obl{Name: name, Kind: kind, Tags: tags, NFacts: len(e.facts), Binders: append([]*Binder{}, e.binders...), PC: st.pc, Goal: goal, Pos: e.curPos})
}

func (e *Engine) panicFree(st *State, what string, cond *smt.Term) {
	e.oblige(st, "panic", what, cond)
	// execution only continues if it did not panic.
	if e.spec == 0 {
		e.assume(st, cond, "no panic")
	}
}

// ---------------------------------------------------------------- merging

func conjuncts(t *smt.Term) []*smt.Term {
	if t.Op == "and" {
		return t.Args
	}
	if t.IsTrue() {
		return nil
	}
	return []*smt.Term{t}
}

// split gives the common part of path conditions, and what discriminates each.
func (e *Engine) split(pcs []*smt.Term) (common *smt.Term, rest []*smt.Term) {
	count := map[*smt.Term]int{}
	for _, p := range pcs {
		for _, x := range conjuncts(p) {
			count[x]++
		}
	}
	var cm []*smt.Term
	for _, x := range conjuncts(pcs[0]) {
		if count[x] == len(pcs) {
			cm = append(cm, x)
		}
	}
	for _, p := range pcs {
		var r []*smt.Term
		for _, x := range conjuncts(p) {
			if count[x] != len(pcs) {
				r = append(r, x)
			}
		}
		rest = append(rest, e.c.And(r...))
	}
	if len(pcs) == 2 {
		// prefer a single discriminating condition.
		for _, x := range conjuncts(rest[0]) {
			for _, y := range conjuncts(rest[1]) {
				if e.c.Not(x) == y {
					if e.c.And(rest[0]) == x && e.c.And(rest[1]) == y {
						return e.c.And(cm...), []*smt.Term{x, y}
					}
					return e.c.And(e.c.And(cm...), e.c.Or(rest...)), []*smt.Term{x, y}
				}
			}
		}
	}
	return e.c.And(e.c.And(cm...), e.orFactor(rest)), rest
}

// orFactor is the disjunction of path conditions, with complementary ones
// combined.
func (e *Engine) orFactor(rs []*smt.Term) *smt.Term {
	rs = append([]*smt.Term{}, rs...)
	for changed := true; changed && len(rs) > 1; {
		changed = false
	outer:
		for i := 0; i < len(rs); i++ {
			for j := i + 1; j < len(rs); j++ {
				ci, cj := conjuncts(rs[i]), conjuncts(rs[j])
				in := map[*smt.Term]bool{}
				for _, x := range cj {
					in[x] = true
				}
				var common, di []*smt.Term
				for _, x := range ci {
					if in[x] {
						common = append(common, x)
						delete(in, x)
					} else {
						di = append(di, x)
					}
				}
				if len(di) == 1 && len(in) == 1 && in[e.c.Not(di[0])] {
					rs[i] = e.c.And(common...)
					rs = append(rs[:j], rs[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	return e.c.Or(rs...)
}

func (e *Engine) mergeVals(conds []*smt.Term, vs []Val, t types.Type) Val {
	same := true
	for _, v := range vs[1:] {
		if !e.sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if tp, ok := vs[0].(Tuple); ok {
		out := make(Tuple, len(tp))
		for i := range tp {
			var xs []Val
			for _, v := range vs {
				xs = append(xs, v.(Tuple)[i])
			}
			out[i] = e.mergeVals(conds, xs, nil)
		}
		return out
	}
	anyTerm := false
	for _, v := range vs {
		if _, ok := v.(*smt.Term); ok {
			anyTerm = true
		}
	}
	if !anyTerm {
		// interior pointers into the same component.
		p0 := vs[0].(*Ptr)
		r, ix := p0.Ref, p0.Idx
		for i := len(vs) - 1; i >= 0; i-- {
			p := vs[i].(*Ptr)
			if p.Comp != p0.Comp || len(p.Path) != len(p0.Path) || (p.Ref == nil) != (p0.Ref == nil) || (p.Idx == nil) != (p0.Idx == nil) {
				unsup("merge of pointers into %s and %s", p.Comp, p0.Comp)
			}
			for k := range p.Path {
				if p.Path[k] != p0.Path[k] {
					unsup("merge of interior pointers")
				}
			}
			if i == len(vs)-1 {
				r, ix = p.Ref, p.Idx
				continue
			}
			if r != nil {
				r = e.c.Ite(conds[i], p.Ref, r)
			}
			if ix != nil {
				ix = e.c.Ite(conds[i], p.Idx, ix)
			}
		}
		return &Ptr{Comp: p0.Comp, Elem: p0.Elem, Ref: r, Idx: ix, Path: p0.Path}
	}
	acc := e.term(vs[len(vs)-1])
	for i := len(vs) - 2; i >= 0; i-- {
		acc = e.c.Ite(conds[i], e.term(vs[i]), acc)
	}
	return acc
}

func (e *Engine) sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *smt.Term:
		return a == b
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.Comp != y.Comp || x.Ref != y.Ref || x.Idx != y.Idx || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// merge merges states with mutually exclusive path conditions; extra values are
// merged along.
func (e *Engine) merge(sts []*State, extra [][]Val) (*State, []Val) {
	if len(sts) == 1 {
		if extra == nil {
			return sts[0], nil
		}
		return sts[0], extra[0]
	}
	var pcs []*smt.Term
	for _, s := range sts {
		pcs = append(pcs, s.pc)
	}
	pc, conds := e.split(pcs)
	out := &State{pc: pc, heap: map[string]*smt.Term{}, env: map[ssa.Value]Val{}, consumed: map[*smt.Term]bool{}}
	for _, s := range sts {
		for k := range s.consumed {
			out.consumed[k] = true
		}
	}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
	}
	for k := range keys {
		var vs []Val
		for _, s := range sts {
			vs = append(vs, e.get(s, k))
		}
		out.heap[k] = e.mergeVals(conds, vs, nil).(*smt.Term)
	}
	for k, v := range sts[0].env {
		vs := []Val{v}
		for _, s := range sts[1:] {
			if w, ok := s.env[k]; ok {
				vs = append(vs, w)
			}
		}
		if len(vs) == len(sts) {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
					}
				}()
				out.env[k] = e.mergeVals(conds, vs, nil)
			}()
		}
	}
	out.defers = sts[0].defers
	for _, s := range sts[1:] {
		if len(s.defers) > len(out.defers) {
			out.defers = s.defers
		}
	}
	for _, s := range sts {
		for i, d := range s.defers {
			if out.defers[i] != d {
				unsup("different deferred calls on merged paths")
			}
		}
	}
	var xs []Val
	if extra != nil {
		for i := range extra[0] {
			var vs []Val
			for _, x := range extra {
				vs = append(vs, x[i])
			}
			xs = append(xs, e.mergeVals(conds, vs, nil))
		}
	}
	return out, xs
}

// ---------------------------------------------------------------- values

func (e *Engine) term(v Val) *smt.Term {
	switch x := v.(type) {
	case *smt.Term:
		return x
	case *Ptr:
		return e.ptrTerm(x)
	case nil:
		unsup("missing value")
	}
	unsup("value %T as a term", v)
	return nil
}

func (e *Engine) val(fr *frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return &Ptr{Comp: e.gcomp(x), Elem: x.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return e.fnLit(&FnVal{Fn: x})
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		unsup("builtin value %s", x.Name())
	}
	r, ok := st.env[v]
	if !ok {
		unsup("undefined value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (e *Engine) tv(fr *frame, st *State, v ssa.Value) *smt.Term { return e.term(e.val(fr, st, v)) }

func (e *Engine) fnLit(f *FnVal) *smt.Term {
	n := "fn:" + f.Fn.String()
	if f.Fn.Parent() != nil || len(f.Bindings) > 0 {
		n = fmt.Sprintf("fn:%s@%d", f.Fn.String(), f.Fn.Pos())
	}
	e.fns[n] = f.Fn
	if len(f.Bindings) == 0 {
		return e.c.FnLit(n)
	}
	var as []*smt.Term
	for _, b := range f.Bindings {
		as = append(as, e.term(b))
	}
	e.fns["clo"+n] = f.Fn
	return e.c.App("clo"+n, e.c.Fn, as...)
}

// fnOf is the function that a term denotes, if that is known.
func (e *Engine) fnOf(t *smt.Term) (*FnVal, bool) {
	switch {
	case t.IsLit():
		f, ok := e.fns[t.Name]
		return &FnVal{Fn: f}, ok
	case t.Op == "app" && strings.HasPrefix(t.Name, "clofn:"):
		f, ok := e.fns[t.Name]
		if !ok {
			return nil, false
		}
		v := &FnVal{Fn: f}
		for _, a := range t.Args {
			v.Bindings = append(v.Bindings, e.decode(a))
		}
		return v, true
	}
	return nil, false
}

func (e *Engine) constant(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return e.zero(t)
	}
	switch e.sort(t) {
	case e.c.Bool:
		return e.c.BoolLit(constant.BoolVal(x.Value))
	case e.c.IntS:
		v := constant.ToInt(x.Value)
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			unsup("constant %s", x)
		}
		return e.c.BigInt(b)
	case e.c.Str:
		return e.c.StrLit(constant.StringVal(x.Value))
	case e.c.F32:
		f, _ := constant.Float32Val(x.Value)
		return e.c.FloatLit(float64(f), e.c.F32)
	case e.c.F64:
		f, _ := constant.Float64Val(x.Value)
		return e.c.FloatLit(f, e.c.F64)
	}
	unsup("constant %s", x)
	return nil
}

// ---------------------------------------------------------------- functions

type loopInfo struct {
	order  map[*ssa.BasicBlock]int // reverse postorder
	rpo    []*ssa.BasicBlock
	header map[*ssa.BasicBlock]*loop
	inner  map[*ssa.BasicBlock]*loop // innermost loop of a block
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	id     int
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := &loopInfo{order: map[*ssa.BasicBlock]int{}, header: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.order[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.header[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, id: s.Index}
					li.header[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			} else if li.order[s] <= li.order[b] {
				unsup("irreducible control flow in %s", fn)
			}
		}
	}
	// nesting.
	var ls []*loop
	for _, l := range li.header {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].blocks) < len(ls[j].blocks) })
	for i, l := range ls {
		for _, m := range ls[i+1:] {
			if m.blocks[l.header] && m != l {
				l.parent = m
				break
			}
		}
		for b := range l.blocks {
			if li.inner[b] == nil {
				li.inner[b] = l
			}
		}
	}
	e.loops[fn] = li
	return li
}

// call runs a function body in the state, which is consumed, and gives the
// state after and the results. The state is nil if the function cannot return.
func (e *Engine) call(fn *ssa.Function, free []Val, args []Val, st *State) (*State, []Val) {
	rets := e.run(fn, free, args, st)
	if len(rets) == 0 {
		return nil, nil
	}
	var sts []*State
	var vals [][]Val
	for _, r := range rets {
		r.st.env = map[ssa.Value]Val{}
		r.st.defers = nil
		sts = append(sts, r.st)
		vals = append(vals, r.vals)
	}
	return e.merge(sts, vals)
}

func (e *Engine) run(fn *ssa.Function, free []Val, args []Val, st *State) []ret {
	if len(fn.Blocks) == 0 {
		unsup("function without a body: %s", fn)
	}
	if e.depth > 40 {
		unsup("call depth in %s", fn)
	}
	e.depth++
	defer func() { e.depth-- }()
	fr := &frame{fn: fn, li: e.loopsOf(fn), free: free}
	in := &State{pc: st.pc, heap: st.heap, env: map[ssa.Value]Val{}, consumed: st.consumed}
	for i, p := range fn.Params {
		in.env[p] = args[i]
	}
	exits := e.region(fr, nil, []edge{{nil, fn.Blocks[0], in}})
	if len(exits) != 0 {
		panic("region exits of a function")
	}
	return fr.returns
}

// region runs the blocks of a loop body (or of the whole function) once, and
// gives the edges that leave it, which include those back to the header.
func (e *Engine) region(fr *frame, l *loop, in []edge) (exits []edge) {
	incoming := map[*ssa.BasicBlock][]edge{}
	for _, x := range in {
		incoming[x.to] = append(incoming[x.to], x)
	}
	var start *ssa.BasicBlock
	if l != nil {
		start = l.header
	} else {
		start = fr.fn.Blocks[0]
	}
	route := func(x edge) {
		if l != nil && (!l.blocks[x.to] || x.to == l.header) {
			exits = append(exits, x)
			return
		}
		incoming[x.to] = append(incoming[x.to], x)
	}
	for _, b := range fr.li.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		es := incoming[b]
		if len(es) == 0 {
			continue
		}
		inner := fr.li.header[b]
		if inner != nil && !(b == start && l == inner) {
			for _, x := range e.execLoop(fr, inner, es) {
				route(x)
			}
			continue
		}
		st := e.join(fr, b, es)
		for _, x := range e.block(fr, b, st) {
			route(x)
		}
	}
	return exits
}

// join merges the states on the edges into a block and evaluates its phis.
func (e *Engine) join(fr *frame, b *ssa.BasicBlock, es []edge) *State {
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	var sts []*State
	var extra [][]Val
	for _, x := range es {
		var vs []Val
		for _, p := range phis {
			if x.pred == nil { // already evaluated
				vs = append(vs, x.st.env[p])
				continue
			}
			vs = append(vs, e.phiVal(fr, p, x))
		}
		sts = append(sts, x.st)
		extra = append(extra, vs)
	}
	st, vals := e.merge(sts, extra)
	st = st.clone()
	for i, p := range phis {
		st.env[p] = vals[i]
	}
	return st
}

func (e *Engine) phiVal(fr *frame, p *ssa.Phi, x edge) Val {
	for i, pr := range p.Block().Preds {
		if pr == x.pred {
			return e.val(fr, x.st, p.Edges[i])
		}
	}
	panic("phi edge")
}

func (e *Engine) block(fr *frame, b *ssa.BasicBlock, st *State) (out []edge) {
	for _, ins := range b.Instrs {
		if p := ins.Pos(); p.IsValid() {
			e.curPos = p
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.If:
			c := e.tv(fr, st, x.Cond)
			// a condition that the path already decides.
			for _, k := range conjuncts(st.pc) {
				if k == c {
					c = e.c.True
				} else if k == e.c.Not(c) {
					c = e.c.False
				}
			}
			if !c.IsFalse() {
				s := st
				if !c.IsTrue() {
					s = st.clone()
				}
				s.pc = e.c.And(s.pc, c)
				out = append(out, edge{b, b.Succs[0], s})
			}
			if !c.IsTrue() {
				st.pc = e.c.And(st.pc, e.c.Not(c))
				out = append(out, edge{b, b.Succs[1], st})
			}
			if len(out) == 2 {
				if out[0].st.pc.IsFalse() {
					out = out[1:]
				} else if out[1].st.pc.IsFalse() {
					out = out[:1]
				}
			}
			return out
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, e.val(fr, st, r))
			}
			fr.returns = append(fr.returns, ret{st, vs, x.Pos()})
			return nil
		case *ssa.Panic:
			if e.spec == 0 {
				e.oblige(st, "panic", "explicit panic", e.c.False)
			}
			return nil
		case *ssa.RunDefers:
			ds := st.defers
			st.defers = nil
			for i := len(ds) - 1; i >= 0; i-- {
				st = e.runDefer(fr, st, ds[i])
				if st == nil {
					return nil
				}
			}
		default:
			if st = e.instr(fr, st, ins); st == nil {
				return nil
			}
		}
	}
	panic("block without a terminator")
}

func (e *Engine) runDefer(fr *frame, st *State, d *deferred) *State {
	always := true
	have := map[*smt.Term]bool{}
	for _, x := range conjuncts(st.pc) {
		have[x] = true
	}
	for _, x := range conjuncts(d.guard) {
		if !have[x] {
			always = false
		}
	}
	env, defers := st.env, st.defers
	if always {
		s, _ := e.callCommon(fr, st, d.call, d.fn, d.args, d.pos)
		if s != nil {
			s.env, s.defers = env, defers
		}
		return s
	}
	skip := st.clone()
	skip.pc = e.c.And(st.pc, e.c.Not(d.guard))
	st.pc = e.c.And(st.pc, d.guard)
	s, _ := e.callCommon(fr, st, d.call, d.fn, d.args, d.pos)
	if s == nil {
		return skip
	}
	s.env, s.defers = env, defers
	m, _ := e.merge([]*State{s, skip}, nil)
	return m
}

// instr executes an instruction and gives the state after, or nil if execution
// cannot continue.
func (e *Engine) instr(fr *frame, st *State, ins ssa.Instruction) *State {
	c := e.c
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		p := &Ptr{Comp: e.hcomp(t), Elem: t, Ref: e.alloc()}
		e.store(st, p, e.zero(t))
		st.env[x] = p.Ref
	case *ssa.BinOp:
		st.env[x] = e.binop(st, x.Op, e.val(fr, st, x.X), e.val(fr, st, x.Y), x.X.Type(), x.Y.Type())
	case *ssa.UnOp:
		v := e.val(fr, st, x.X)
		switch x.Op {
		case token.MUL:
			p := e.ptr(v, x.X.Type())
			e.nonNil(st, v)
			st.env[x] = e.wf(e.load(st, p))
		case token.NOT:
			st.env[x] = c.Not(e.term(v))
		case token.SUB:
			switch e.sort(x.Type()) {
			case c.IntS:
				st.env[x] = c.Sub(c.Int(0), e.term(v))
			case c.F32:
				st.env[x] = e.f("f32.neg", c.F32, e.term(v))
			default:
				st.env[x] = e.f("f64.neg", c.F64, e.term(v))
			}
		case token.XOR:
			st.env[x] = c.Sub(c.Int(-1), e.term(v))
		default:
			unsup("operator %s", x.Op)
		}
	case *ssa.Call:
		fn, args := e.callArgs(fr, st, &x.Call)
		s, vs := e.callCommon(fr, st, &x.Call, fn, args, x.Pos())
		if s == nil {
			return nil
		}
		s.env = st.env
		s.defers = st.defers
		st = s
		switch len(vs) {
		case 0:
			st.env[x] = Tuple{}
		case 1:
			st.env[x] = vs[0]
		default:
			st.env[x] = Tuple(vs)
		}
	case *ssa.Defer:
		fn, args := e.callArgs(fr, st, &x.Call)
		st.defers = append(append([]*deferred{}, st.defers...), &deferred{st.pc, &x.Call, fn, args, x.Pos()})
	case *ssa.ChangeInterface:
		st.env[x] = e.val(fr, st, x.X)
	case *ssa.ChangeType:
		st.env[x] = e.changeType(e.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.Convert:
		st.env[x] = e.convert(st, e.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		st.env[x] = e.val(fr, st, x.Tuple).(Tuple)[x.Index]
	case *ssa.Field:
		st.env[x] = e.wf(c.Sel(e.tv(fr, st, x.X), x.Field))
	case *ssa.FieldAddr:
		v := e.val(fr, st, x.X)
		p := e.ptr(v, x.X.Type())
		e.nonNil(st, v)
		ft := x.Type().(*types.Pointer).Elem()
		st.env[x] = &Ptr{p.Comp, p.Elem, p.Ref, p.Idx, append(append([]step{}, p.Path...), step{Field: x.Field, T: ft})}
	case *ssa.Index:
		i := e.tv(fr, st, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			e.panicFree(st, "index in range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(u.Len()))))
			st.env[x] = c.Select(e.tv(fr, st, x.X), i)
		default: // string
			st.env[x] = e.strAt(st, e.tv(fr, st, x.X), i)
		}
	case *ssa.IndexAddr:
		i := e.tv(fr, st, x.Index)
		v := e.val(fr, st, x.X)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := e.term(v)
			e.panicFree(st, "index in range", c.And(c.Le(c.Int(0), i), c.Lt(i, e.slen(s))))
			st.env[x] = &Ptr{Comp: e.acomp(u.Elem()), Elem: u.Elem(), Ref: e.rbase(s), Idx: c.Add(e.soff(s), i)}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			p := e.ptr(v, x.X.Type())
			e.panicFree(st, "index in range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(at.Len()))))
			st.env[x] = &Ptr{p.Comp, p.Elem, p.Ref, p.Idx, append(append([]step{}, p.Path...), step{Idx: i, T: at.Elem()})}
		default:
			unsup("index of %s", x.X.Type())
		}
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			v, has := e.mapGet(st, e.tv(fr, st, x.X), e.tv(fr, st, x.Index), x.X.Type())
			v = e.wf(c.Ite(has, v, e.zero(m.Elem())))
			if x.CommaOk {
				st.env[x] = Tuple{v, has}
			} else {
				st.env[x] = v
			}
		} else {
			st.env[x] = e.strAt(st, e.tv(fr, st, x.X), e.tv(fr, st, x.Index))
		}
	case *ssa.MakeClosure:
		f := &FnVal{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bindings = append(f.Bindings, e.val(fr, st, b))
		}
		st.env[x] = e.fnLit(f)
	case *ssa.MakeInterface:
		v := e.val(fr, st, x.X)
		st.env[x] = e.box(x.X.Type(), e.term(v))
	case *ssa.MakeMap:
		st.env[x] = e.newMap(st, x.Type())
	case *ssa.MakeSlice:
		n, k := e.tv(fr, st, x.Len), e.tv(fr, st, x.Cap)
		e.panicFree(st, "make with a valid length", c.And(c.Le(c.Int(0), n), c.Le(n, k)))
		st.env[x] = e.newSlice(st, x.Type().Underlying().(*types.Slice).Elem(), n, k)
	case *ssa.MapUpdate:
		m := e.tv(fr, st, x.Map)
		e.panicFree(st, "assignment to a non-nil map", c.Not(c.Eq(m, c.Int(0))))
		e.mapSet(st, m, e.tv(fr, st, x.Key), e.tv(fr, st, x.Value), x.Map.Type())
	case *ssa.Range:
		it := e.fresh("iter", c.IntS)
		e.iters[it] = e.newIter(st, x, e.val(fr, st, x.X))
		st.env[x] = it
	case *ssa.Next:
		st.env[x] = e.next(fr, st, x)
	case *ssa.Slice:
		st.env[x] = e.slice(fr, st, x)
	case *ssa.Store:
		v := e.val(fr, st, x.Addr)
		p := e.ptr(v, x.Addr.Type())
		e.nonNil(st, v)
		e.store(st, p, e.term(e.val(fr, st, x.Val)))
	case *ssa.TypeAssert:
		st.env[x] = e.typeAssert(st, e.tv(fr, st, x.X), x)
	case *ssa.Send, *ssa.Go, *ssa.Select, *ssa.MakeChan:
		unsup("concurrency: %s", ins)
	default:
		unsup("instruction %T", ins)
	}
	return st
}

func (e *Engine) nonNil(st *State, v Val) {
	t, ok := v.(*smt.Term)
	if !ok {
		return
	}
	e.panicFree(st, "pointer is not nil", e.c.Not(e.c.Eq(t, e.c.Int(0))))
}

func (e *Engine) strAt(st *State, s, i *smt.Term) *smt.Term {
	e.panicFree(st, "string index in range", e.c.And(e.c.Le(e.c.Int(0), i), e.c.Lt(i, e.strLen(s))))
	if s.IsLit() && i.IsLit() && i.Int.IsInt64() && i.Int.Int64() >= 0 && i.Int.Int64() < int64(len(s.Name)) {
		return e.c.Int(int64(s.Name[i.Int.Int64()]))
	}
	return e.c.App("str.at", e.c.IntS, s, i)
}

func (e *Engine) strLen(s *smt.Term) *smt.Term {
	if s.IsLit() {
		return e.c.Int(int64(len(s.Name)))
	}
	return e.c.App("str.len", e.c.IntS, s)
}

func (e *Engine) binop(st *State, op token.Token, xv, yv Val, xt, yt types.Type) Val {
	c := e.c
	switch op {
	case token.EQL, token.NEQ:
		r := e.eq(xv, yv, xt)
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	x, y := e.term(xv), e.term(yv)
	s := x.S
	switch s {
	case c.IntS:
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.LSS:
			return c.Lt(x, y)
		case token.LEQ:
			return c.Le(x, y)
		case token.GTR:
			return c.Lt(y, x)
		case token.GEQ:
			return c.Le(y, x)
		case token.QUO, token.REM:
			e.panicFree(st, "divisor is not zero", c.Not(c.Eq(y, c.Int(0))))
			if x.IsLit() && y.IsLit() && y.Int.Sign() != 0 {
				if op == token.QUO {
					return c.BigInt(new(big.Int).Quo(x.Int, y.Int))
				}
				return c.BigInt(new(big.Int).Rem(x.Int, y.Int))
			}
			// truncated division.
			abs := func(t *smt.Term) *smt.Term { return c.Ite(c.Le(c.Int(0), t), t, c.Sub(c.Int(0), t)) }
			q := c.Op("div", c.IntS, abs(x), abs(y))
			q = c.Ite(c.Eq(c.Le(c.Int(0), x), c.Le(c.Int(0), y)), q, c.Sub(c.Int(0), q))
			if op == token.QUO {
				return q
			}
			return c.Sub(x, c.Mul(q, y))
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			if x.IsLit() && y.IsLit() {
				z := new(big.Int)
				switch op {
				case token.AND:
					return c.BigInt(z.And(x.Int, y.Int))
				case token.OR:
					return c.BigInt(z.Or(x.Int, y.Int))
				case token.XOR:
					return c.BigInt(z.Xor(x.Int, y.Int))
				case token.SHL:
					return c.BigInt(z.Lsh(x.Int, uint(y.Int.Int64())))
				case token.SHR:
					return c.BigInt(z.Rsh(x.Int, uint(y.Int.Int64())))
				}
			}
			return c.App("int."+op.String(), c.IntS, x, y)
		}
	case c.Str:
		switch op {
		case token.ADD:
			return e.concat(x, y)
		case token.LSS:
			return e.c.App("str.lt", c.Bool, x, y)
		case token.GTR:
			return e.c.App("str.lt", c.Bool, y, x)
		case token.LEQ:
			return c.Not(e.c.App("str.lt", c.Bool, y, x))
		case token.GEQ:
			return c.Not(e.c.App("str.lt", c.Bool, x, y))
		}
	case c.F32, c.F64:
		p := strings.ToLower(s.Name)
		switch op {
		case token.ADD:
			return e.f(p+".add", s, x, y)
		case token.SUB:
			return e.f(p+".sub", s, x, y)
		case token.MUL:
			return e.f(p+".mul", s, x, y)
		case token.QUO:
			return e.f(p+".div", s, x, y)
		case token.LSS:
			return e.f(p+".lt", c.Bool, x, y)
		case token.LEQ:
			return e.f(p+".le", c.Bool, x, y)
		case token.GTR:
			return e.f(p+".lt", c.Bool, y, x)
		case token.GEQ:
			return e.f(p+".le", c.Bool, y, x)
		}
	case c.Bool:
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	unsup("operator %s on %s", op, xt)
	return nil
}

func (e *Engine) concat(x, y *smt.Term) *smt.Term {
	switch {
	case x.IsLit() && y.IsLit():
		return e.c.StrLit(x.Name + y.Name)
	case x.IsLit() && x.Name == "":
		return y
	case y.IsLit() && y.Name == "":
		return x
	}
	// associate to the right.
	if x.Op == "app" && x.Name == "str.concat" {
		return e.concat(x.Args[0], e.concat(x.Args[1], y))
	}
	if x.IsLit() && y.Op == "app" && y.Name == "str.concat" && y.Args[0].IsLit() {
		return e.c.App("str.concat", e.c.Str, e.c.StrLit(x.Name+y.Args[0].Name), y.Args[1])
	}
	return e.c.App("str.concat", e.c.Str, x, y)
}

func (e *Engine) eq(xv, yv Val, t types.Type) *smt.Term {
	c := e.c
	if p, ok := xv.(*Ptr); ok {
		if q, ok := yv.(*Ptr); ok && p.Comp == q.Comp && len(p.Path) == len(q.Path) {
			return e.c.Eq(e.ptrTerm(p), e.ptrTerm(q))
		}
		if y, ok := yv.(*smt.Term); ok && y.IsLit() {
			return c.False
		}
	}
	if q, ok := yv.(*Ptr); ok {
		if x, ok := xv.(*smt.Term); ok && x.IsLit() {
			_ = q
			return c.False
		}
	}
	x, y := e.term(xv), e.term(yv)
	if x.S == c.F32 || x.S == c.F64 {
		return e.f(strings.ToLower(x.S.Name)+".eq", c.Bool, x, y)
	}
	if x.S == c.Slc {
		// only comparison with nil.
		if x == e.nilSlice() {
			x, y = y, x
		}
		if y == e.nilSlice() {
			return e.isNilSlice(x)
		}
	}
	if x.S != y.S {
		// comparison of an interface with a concrete value.
		unsup("comparison of %s and %s", x.S, y.S)
	}
	if st, ok := t.Underlying().(*types.Struct); ok && hasFloat(st) {
		var cs []*smt.Term
		for i := 0; i < st.NumFields(); i++ {
			cs = append(cs, e.eq(c.Sel(x, i), c.Sel(y, i), st.Field(i).Type()))
		}
		return c.And(cs...)
	}
	return c.Eq(x, y)
}

func (e *Engine) isNilSlice(x *smt.Term) *smt.Term {
	b := e.sbase(x)
	if b.Op == "ite" {
		c := e.c
		t := c.Subst(x, map[*smt.Term]*smt.Term{b.Args[0]: c.True})
		f := c.Subst(x, map[*smt.Term]*smt.Term{b.Args[0]: c.False})
		return c.Ite(b.Args[0], e.isNilSlice(t), e.isNilSlice(f))
	}
	if e.accNil[b.Name] {
		return e.c.Eq(e.slen(x), e.c.Int(0))
	}
	return e.c.Eq(b, e.c.Int(0))
}

func hasFloat(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsFloat != 0 {
				return true
			}
		case *types.Struct:
			if hasFloat(u) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) changeType(v Val, from, to types.Type) Val {
	if t, ok := v.(*smt.Term); ok && t.S != e.sort(to) {
		return e.restruct(t, from, to)
	}
	if p, ok := v.(*Ptr); ok {
		return p
	}
	return v
}

func (e *Engine) restruct(t *smt.Term, from, to types.Type) *smt.Term {
	fs, ok1 := from.Underlying().(*types.Struct)
	ts, ok2 := to.Underlying().(*types.Struct)
	if !ok1 || !ok2 {
		unsup("conversion of %s to %s", from, to)
	}
	var as []*smt.Term
	for i := 0; i < fs.NumFields(); i++ {
		x := e.c.Sel(t, i)
		if x.S != e.sort(ts.Field(i).Type()) {
			x = e.restruct(x, fs.Field(i).Type(), ts.Field(i).Type())
		}
		as = append(as, x)
	}
	return e.c.Ctor(e.sort(to), as...)
}

func (e *Engine) convert(st *State, v Val, from, to types.Type) Val {
	c := e.c
	x := e.term(v)
	fs, ts := e.sort(from), e.sort(to)
	switch {
	case fs == ts && fs != c.Slc:
		return x
	case fs == c.F32 && ts == c.F64:
		return e.f("f32to64", c.F64, x)
	case fs == c.F64 && ts == c.F32:
		return e.f("f64to32", c.F32, x)
	case fs == c.IntS && (ts == c.F32 || ts == c.F64):
		if x.IsLit() {
			f, _ := new(big.Float).SetInt(x.Int).Float64()
			return c.FloatLit(f, ts)
		}
		e.trusted["integers that are converted to floating point are small enough to be exact"] = true
		return e.f("int2"+strings.ToLower(ts.Name), ts, x)
	case ts == c.IntS && (fs == c.F32 || fs == c.F64):
		return e.f(strings.ToLower(fs.Name)+"2int", c.IntS, x)
	case fs == c.Slc && ts == c.Str:
		return c.App("bytes2str", c.Str, e.sliceSeq(st, x, from.Underlying().(*types.Slice).Elem()))
	case fs == c.Str && ts == c.Slc:
		el := to.Underlying().(*types.Slice).Elem()
		sq := c.App("str2seq:"+e.typeKey(el), e.seqSort(e.sort(el)), x)
		return e.sliceOf(st, el, sq)
	case fs == c.IntS && ts == c.Str:
		return c.App("rune2str", c.Str, x)
	}
	unsup("conversion of %s to %s", from, to)
	return nil
}

// sliceOf is a new slice with the elements of a sequence.
func (e *Engine) sliceOf(st *State, el types.Type, sq *smt.Term) *smt.Term {
	n := e.seqLen(sq)
	r := e.alloc()
	comp := e.acomp(el)
	e.set(st, comp, e.c.Store(e.get(st, comp), r, e.seqArr(sq, e.sort(el))))
	return e.slc(r, e.c.Int(0), n, n)
}

func (e *Engine) newSlice(st *State, el types.Type, n, k *smt.Term) *smt.Term {
	r := e.alloc()
	comp := e.acomp(el)
	e.set(st, comp, e.c.Store(e.get(st, comp), r, e.c.ConstArray(e.c.Array(e.c.IntS, e.sort(el)), e.zero(el))))
	return e.slc(r, e.c.Int(0), n, k)
}

func (e *Engine) newMap(st *State, t types.Type) *smt.Term {
	m := t.Underlying().(*types.Map)
	dom, val := e.mcomps(t)
	r := e.alloc()
	ds, vs := e.compSort(dom).Elem, e.compSort(val).Elem
	e.set(st, dom, e.c.Store(e.get(st, dom), r, e.c.ConstArray(ds, e.c.False)))
	e.set(st, val, e.c.Store(e.get(st, val), r, e.c.ConstArray(vs, e.zero(m.Elem()))))
	return r
}

func (e *Engine) mapDom(st *State, m *smt.Term, t types.Type) *smt.Term {
	dom, _ := e.mcomps(t)
	if m.IsLit() && m.Int.Sign() == 0 {
		return e.c.ConstArray(e.compSort(dom).Elem, e.c.False)
	}
	return e.c.Select(e.get(st, dom), m)
}

func (e *Engine) mapGet(st *State, m, k *smt.Term, t types.Type) (v, has *smt.Term) {
	_, val := e.mcomps(t)
	d := e.mapDom(st, m, t)
	if enumOver(k, d) {
		has = e.c.True
	} else {
		has = e.c.Select(d, k)
	}
	v = e.c.Select(e.c.Select(e.get(st, val), m), k)
	return
}

// enumOver tells whether the key comes from an iteration over the domain.
func enumOver(k, dom *smt.Term) bool {
	return k.Op == "app" && strings.HasPrefix(k.Name, "enum:") && k.Args[1] == dom
}

func (e *Engine) mapSet(st *State, m, k, v *smt.Term, t types.Type) {
	dom, val := e.mcomps(t)
	d := e.mapDom(st, m, t)
	if !enumOver(k, d) {
		e.set(st, dom, e.c.Store(e.get(st, dom), m, e.c.Store(d, k, e.c.True)))
	}
	e.set(st, val, e.c.Store(e.get(st, val), m, e.c.Store(e.c.Select(e.get(st, val), m), k, v)))
}

func (e *Engine) mapLen(st *State, m *smt.Term, t types.Type) *smt.Term {
	return e.card(e.mapDom(st, m, t))
}

// card is the size of a finite set.
func (e *Engine) card(dom *smt.Term) *smt.Term {
	c := e.c
	n := "card:" + dom.S.Key.Name
	if !c.HasAxioms(n) {
		c.Declare(n, c.IntS, dom.S)
		c.Declare("enum:"+dom.S.Key.Name, dom.S.Key, c.IntS, dom.S, c.IntS)
		c.Declare("rank:"+dom.S.Key.Name, c.IntS, c.IntS, dom.S, dom.S.Key)
		d, k, i, tok := c.BVar("d", dom.S), c.BVar("k", dom.S.Key), c.BVar("i", c.IntS), c.BVar("t", c.IntS)
		cd := c.App(n, c.IntS, d)
		wit := c.App("mapwit:"+dom.S.Key.Name, dom.S.Key, d)
		st := c.Store(d, k, c.True)
		en := c.App("enum:"+dom.S.Key.Name, dom.S.Key, tok, d, i)
		rk := c.App("rank:"+dom.S.Key.Name, c.IntS, tok, d, k)
		_ = st
		c.Axiom(n,
			c.Forall([]*smt.Term{d}, c.And(c.Le(c.Int(0), cd), c.Or(c.Eq(cd, c.Int(0)), c.Select(d, wit))), []*smt.Term{cd}),
			c.Forall([]*smt.Term{d, k}, c.Or(c.Not(c.Select(d, k)), c.Lt(c.Int(0), cd)), []*smt.Term{cd, c.Select(d, k)}),
			c.Forall([]*smt.Term{d, k}, c.Eq(c.App(n, c.IntS, st), c.Add(cd, c.Ite(c.Select(d, k), c.Int(0), c.Int(1)))), []*smt.Term{c.App(n, c.IntS, st)}),
			c.Eq(c.App(n, c.IntS, c.ConstArray(dom.S, c.False)), c.Int(0)))
		c.Axiom("enum:"+dom.S.Key.Name,
			c.Forall([]*smt.Term{tok, d, i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, cd)), c.And(c.Select(d, en), c.Eq(c.App("rank:"+dom.S.Key.Name, c.IntS, tok, d, en), i))), []*smt.Term{en}),
			c.Forall([]*smt.Term{tok, d, k}, c.Implies(c.Select(d, k), c.And(c.Le(c.Int(0), rk), c.Lt(rk, cd),
				c.Eq(c.App("enum:"+dom.S.Key.Name, dom.S.Key, tok, d, rk), k))), []*smt.Term{rk}, []*smt.Term{c.App("iterates:"+dom.S.Key.Name, c.Bool, tok, d), c.Select(d, k)}))
	}
	if dom.Op == "constarray" {
		return c.Int(0)
	}
	return c.App(n, c.IntS, dom)
}

func (e *Engine) slice(fr *frame, st *State, x *ssa.Slice) Val {
	c := e.c
	var lo, hi, mx *smt.Term
	if x.Low != nil {
		lo = e.tv(fr, st, x.Low)
	} else {
		lo = c.Int(0)
	}
	if x.High != nil {
		hi = e.tv(fr, st, x.High)
	}
	if x.Max != nil {
		mx = e.tv(fr, st, x.Max)
	}
	v := e.val(fr, st, x.X)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := e.term(v)
		n := e.strLen(s)
		if hi == nil {
			hi = n
		}
		e.panicFree(st, "string slice in range", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)))
		if s.IsLit() && lo.IsLit() && hi.IsLit() && lo.Int.Sign() >= 0 && lo.Int.Cmp(hi.Int) <= 0 && hi.Int.Int64() <= int64(len(s.Name)) {
			return c.StrLit(s.Name[lo.Int.Int64():hi.Int.Int64()])
		}
		if lo.IsLit() && lo.Int.Sign() == 0 && hi == n {
			return s
		}
		r := c.App("str.slice", c.Str, s, lo, hi)
		e.fact(c.Implies(c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), c.Eq(e.strLen(r), c.Sub(hi, lo))), "string slice")
		return r
	case *types.Slice:
		s := e.term(v)
		if hi == nil {
			hi = e.slen(s)
		}
		if mx == nil {
			mx = e.scap(s)
		}
		e.panicFree(st, "slice in range", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, e.scap(s))))
		return e.slc(e.sbase(s), c.Add(e.soff(s), lo), c.Sub(hi, lo), c.Sub(mx, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		p := e.ptr(v, x.X.Type())
		if len(p.Path) != 0 || p.Ref == nil || !strings.HasPrefix(p.Comp, "H:") {
			unsup("slice of an array inside of something else")
		}
		e.panicFree(st, "slice in range", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)))
		// the array becomes the backing of the slice: move it.
		comp := e.acomp(at.Elem())
		e.set(st, comp, c.Store(e.get(st, comp), p.Ref, e.load(st, p)))
		return e.slc(p.Ref, lo, c.Sub(hi, lo), c.Sub(mx, lo))
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

func (e *Engine) typeAssert(st *State, v *smt.Term, x *ssa.TypeAssert) Val {
	c := e.c
	if types.IsInterface(x.AssertedType) {
		ok := c.App("implements:"+e.typeKey(x.AssertedType), c.Bool, v)
		if t, _, known := e.boxed(v); known {
			ok = c.BoolLit(types.Implements(t, x.AssertedType.Underlying().(*types.Interface)))
		} else {
			e.fact(c.Implies(c.Eq(v, e.nilIfc()), c.Not(ok)), "nil implements nothing")
		}
		if x.CommaOk {
			return Tuple{c.Ite(ok, v, e.nilIfc()), ok}
		}
		e.panicFree(st, "type assertion", ok)
		return v
	}
	var ok, val *smt.Term
	if t, bv, known := e.boxed(v); known {
		ok = c.BoolLit(types.Identical(t, x.AssertedType))
		val = bv
		if ok.IsFalse() {
			val = e.zero(x.AssertedType)
		}
	} else {
		k := e.typeKey(x.AssertedType)
		s := e.sort(x.AssertedType)
		id := e.typeID(x.AssertedType)
		ok = c.Eq(c.App("typ", c.IntS, v), c.Int(int64(id)))
		val = c.App("unbox:"+k, s, v)
		// force the axioms.
		b := e.box(x.AssertedType, val)
		e.fact(c.Implies(ok, c.Eq(b, v)), "boxed value")
	}
	if x.CommaOk {
		return Tuple{c.Ite(ok, val, e.zero(x.AssertedType)), ok}
	}
	e.panicFree(st, "type assertion", ok)
	return val
}

// f applies a floating point operation.
func (e *Engine) f(n string, s *smt.Sort, args ...*smt.Term) *smt.Term {
	if len(args) == 2 && args[0].IsLit() && args[1].IsLit() {
		a, _ := strconv.ParseFloat(args[0].Name, 64)
		b, _ := strconv.ParseFloat(args[1].Name, 64)
		fold := func(v float64) *smt.Term {
			if s == e.c.F32 {
				v = float64(float32(v))
			}
			return e.c.FloatLit(v, s)
		}
		switch n[4:] {
		case "mul":
			return fold(a * b)
		case "add":
			return fold(a + b)
		case "sub":
			return fold(a - b)
		case "div":
			return fold(a / b)
		case "lt":
			return e.c.BoolLit(a < b)
		case "le":
			return e.c.BoolLit(a <= b)
		case "eq":
			return e.c.BoolLit(a == b)
		}
	}
	if len(args) == 1 && args[0].IsLit() && args[0].S != e.c.IntS {
		a, _ := strconv.ParseFloat(args[0].Name, 64)
		switch n {
		case "f32to64":
			return e.c.FloatLit(a, e.c.F64)
		case "f64to32":
			return e.c.FloatLit(float64(float32(a)), e.c.F32)
		}
	}
	return e.c.App(n, s, args...)
}

// baseAxioms registers the axioms of the abstract theories.
func (e *Engine) baseAxioms() {
	c := e.c
	for _, s := range []*smt.Sort{c.F32, c.F64} {
		p := strings.ToLower(s.Name)
		x, y := c.BVar("x", s), c.BVar("y", s)
		real := c.Opaque("Real")
		val := func(t *smt.Term) *smt.Term { return c.App(p+".val", real, t) }
		nan := func(t *smt.Term) *smt.Term { return c.App(p+".nan", c.Bool, t) }
		def := func(op string, rel *smt.Term) {
			t := c.App(p+"."+op, c.Bool, x, y)
			c.Axiom(p+"."+op, c.Forall([]*smt.Term{x, y}, c.Eq(t, c.And(c.Not(nan(x)), c.Not(nan(y)), rel)), []*smt.Term{t}))
		}
		def("lt", c.Op("<", c.Bool, val(x), val(y)))
		def("le", c.Op("<=", c.Bool, val(x), val(y)))
		def("eq", c.Op("=", c.Bool, val(x), val(y)))
		isn := c.App(p+".isnan", c.Bool, x)
		c.Axiom(p+".isnan", c.Forall([]*smt.Term{x}, c.Eq(isn, nan(x)), []*smt.Term{isn}))
		fin := func(t *smt.Term) *smt.Term { return c.App(p+".fin", c.Bool, t) }
		c.Axiom(p+".fin", c.Forall([]*smt.Term{x}, c.Implies(fin(x), c.Not(nan(x))), []*smt.Term{fin(x)}),
			c.Forall([]*smt.Term{x}, c.Implies(c.And(c.Not(nan(x)), c.Op("<=", c.Bool, val(c.FloatLit(-1, s)), val(x)), c.Op("<=", c.Bool, val(x), val(c.FloatLit(1, s)))), fin(x)), []*smt.Term{fin(x)}))
		d := c.App(p+".div", s, x, y)
		c.Axiom(p+".div", c.Forall([]*smt.Term{x, y}, c.Implies(c.And(fin(x), fin(y), c.Not(c.Eq(val(y), val(c.FloatLit(0, s))))), c.Not(nan(d))), []*smt.Term{d}),
			c.Forall([]*smt.Term{x, y}, c.Implies(c.And(fin(x), c.Not(nan(y)), c.Op("<=", c.Bool, val(c.FloatLit(1, s)), val(y))), fin(d)), []*smt.Term{d}))
		// facts about products of numbers from 0 to 1.
		m := c.App(p+".mul", s, x, y)
		zero, one := c.FloatLit(0, s), c.FloatLit(1, s)
		unit := func(t *smt.Term) *smt.Term {
			return c.And(c.Not(nan(t)), c.Op("<=", c.Bool, val(zero), val(t)), c.Op("<=", c.Bool, val(t), val(one)))
		}
		c.Axiom(p+".mul",
			c.Forall([]*smt.Term{x, y}, c.Implies(c.And(fin(x), fin(y)), c.Not(nan(m))), []*smt.Term{m}),
			c.Forall([]*smt.Term{x, y}, c.Implies(c.Or(c.And(unit(x), fin(y)), c.And(unit(y), fin(x))), fin(m)), []*smt.Term{m}))
		c.Axiom(p+".mul", c.Forall([]*smt.Term{x, y}, c.Implies(c.And(unit(x), unit(y)), c.And(unit(m),
			c.Op("<=", c.Bool, val(m), val(x)), c.Op("<=", c.Bool, val(m), val(y)))), []*smt.Term{m}),
			c.Forall([]*smt.Term{x, y}, c.Implies(c.And(c.Not(nan(x)), c.Not(nan(y)), c.Eq(val(x), val(zero)), unit(y)), c.Eq(val(m), val(zero))), []*smt.Term{m}),
			c.Forall([]*smt.Term{x, y}, c.Implies(c.And(c.Not(nan(x)), c.Not(nan(y)), c.Eq(val(y), val(zero)), unit(x)), c.Eq(val(m), val(zero))), []*smt.Term{m}))
	}
	real := c.Opaque("Real")
	x := c.BVar("x", c.F32)
	w := c.App("f32to64", c.F64, x)
	c.Axiom("f32to64", c.Forall([]*smt.Term{x}, c.And(c.Eq(c.App("f64.nan", c.Bool, w), c.App("f32.nan", c.Bool, x)),
		c.Eq(c.App("f64.val", real, w), c.App("f32.val", real, x))), []*smt.Term{w}))
	// rounding and conversion keep the order.
	mono := func(n string, from, to *smt.Sort, fin bool) {
		pf, pt := strings.ToLower(from.Name), strings.ToLower(to.Name)
		x, y := c.BVar("x", from), c.BVar("y", from)
		rx, ry := c.App(n, to, x), c.App(n, to, y)
		val := func(p string, t *smt.Term) *smt.Term { return c.App(p+".val", real, t) }
		c.Axiom(n, c.Forall([]*smt.Term{x}, c.Eq(c.App(pt+".nan", c.Bool, rx), c.App(pf+".nan", c.Bool, x)), []*smt.Term{rx}),
			c.Forall([]*smt.Term{x, y}, c.Implies(c.And(c.Not(c.App(pf+".nan", c.Bool, x)), c.Not(c.App(pf+".nan", c.Bool, y)), c.Op("<=", c.Bool, val(pf, x), val(pf, y))),
				c.Op("<=", c.Bool, val(pt, rx), val(pt, ry))), []*smt.Term{rx, ry}))
		if fin {
			c.Axiom(n, c.Forall([]*smt.Term{x}, c.Implies(c.App(pf+".fin", c.Bool, x), c.App(pt+".fin", c.Bool, rx)), []*smt.Term{rx}))
		}
	}
	mono("math.Round", c.F64, c.F64, true)
	{
		i := c.BVar("i", c.IntS)
		for _, s := range []*smt.Sort{c.F32, c.F64} {
			p := strings.ToLower(s.Name)
			f := c.App("int2"+p, s, i)
			c.Axiom("int2"+p, c.Forall([]*smt.Term{i}, c.And(c.Not(c.App(p+".nan", c.Bool, f)), c.Eq(c.App(p+".val", real, f), c.Op("to_real", real, i))), []*smt.Term{f}))
		}
		y := c.BVar("y", c.F64)
		a := c.App("math.Abs", c.F64, y)
		v := func(t *smt.Term) *smt.Term { return c.App("f64.val", real, t) }
		zero := v(c.FloatLit(0, c.F64))
		c.Axiom("math.Abs", c.Forall([]*smt.Term{y}, c.And(c.Eq(c.App("f64.nan", c.Bool, a), c.App("f64.nan", c.Bool, y)),
			c.Ite(c.Op("<=", c.Bool, zero, v(y)), c.Eq(v(a), v(y)), c.Eq(v(a), c.Op("-", real, v(y))))), []*smt.Term{a}))
	}
	mono("f64to32", c.F64, c.F32, false)
	c.Axiom("f32to64", c.Forall([]*smt.Term{x}, c.Implies(c.App("f32.fin", c.Bool, x), c.App("f64.fin", c.Bool, w)), []*smt.Term{w}))
	s := c.BVar("s", c.Str)
	ln := c.App("str.len", c.IntS, s)
	c.Axiom("str.len", c.Forall([]*smt.Term{s}, c.And(c.Le(c.Int(0), ln), c.Eq(c.Eq(ln, c.Int(0)), c.Eq(s, c.StrLit("")))), []*smt.Term{ln}))
	u := c.BVar("t", c.Str)
	cat := c.App("str.concat", c.Str, s, u)
	c.Axiom("str.concat", c.Forall([]*smt.Term{s, u}, c.Eq(c.App("str.len", c.IntS, cat), c.Add(ln, c.App("str.len", c.IntS, u))), []*smt.Term{cat}))
}
