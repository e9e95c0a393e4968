package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/tool/smt"
)

// iterator is an iteration over a map.
type iterator struct {
	m    *smt.Term
	t    types.Type
	dom  *smt.Term
	tok  *smt.Term
	comp string
}

// useCtx is the application of a contract at a call site.
type useCtx struct {
	con     *Contract
	args    []Val
	results []Val
	called  bool
	pos     token.Pos
}

func (e *Engine) callArgs(fr *frame, st *State, cc *ssa.CallCommon) (Val, []Val) {
	var fn Val
	var args []Val
	if cc.IsInvoke() {
		args = append(args, e.val(fr, st, cc.Value))
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fn = e.val(fr, st, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, e.val(fr, st, a))
	}
	return fn, args
}

func (e *Engine) callCommon(fr *frame, st *State, cc *ssa.CallCommon, fn Val, args []Val, pos token.Pos) (*State, []Val) {
	if pos.IsValid() {
		e.curPos = pos
	}
	if cc.IsInvoke() {
		return e.invoke(fr, st, e.term(args[0]), cc.Method, cc.Value.Type(), args[1:])
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, b.Name(), cc, args)
	}
	return e.callFn(fr, st, e.term(fn), cc.Signature(), args)
}

// branch runs f on both sides of a condition, and merges what comes out.
func (e *Engine) branch(st *State, cond *smt.Term, f func(st *State, side bool) (*State, []Val)) (*State, []Val) {
	for _, k := range conjuncts(st.pc) {
		if k == cond {
			cond = e.c.True
		} else if k == e.c.Not(cond) {
			cond = e.c.False
		}
	}
	if cond.IsTrue() {
		return f(st, true)
	}
	if cond.IsFalse() {
		return f(st, false)
	}
	a, b := st.clone(), st.clone()
	env, defers := st.env, st.defers
	a.pc, b.pc = e.c.And(st.pc, cond), e.c.And(st.pc, e.c.Not(cond))
	s1, v1 := f(a, true)
	s2, v2 := f(b, false)
	switch {
	case s1 == nil:
		return s2, v2
	case s2 == nil:
		return s1, v1
	}
	s1.env, s2.env = map[ssa.Value]Val{}, map[ssa.Value]Val{}
	s1.defers, s2.defers = nil, nil
	m, v := e.merge([]*State{s1, s2}, [][]Val{v1, v2})
	m.env, m.defers = env, defers
	return m, v
}

// callFn calls a function value.
func (e *Engine) callFn(fr *frame, st *State, fn *smt.Term, sig *types.Signature, args []Val) (*State, []Val) {
	if fn.Op == "ite" {
		return e.branch(st, fn.Args[0], func(st *State, side bool) (*State, []Val) {
			if side {
				return e.callFn(fr, st, fn.Args[1], sig, args)
			}
			return e.callFn(fr, st, fn.Args[2], sig, args)
		})
	}
	if f, ok := e.fnOf(fn); ok {
		return e.callStatic(fr, st, f.Fn, f.Bindings, args)
	}
	e.panicFree(st, "called function is not nil", e.c.Not(e.c.Eq(fn, e.c.FnLit("nil"))))
	if fn.IsLit() {
		return nil, nil
	}
	// an unknown function: a function of its arguments.
	e.trusted["function values supplied by the user do not write to what the negotiator owns, and give equal results for equal arguments"] = true
	var ts []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	ins := append([]*smt.Term{fn}, e.deepAll(st, args, ts)...)
	return st, e.ufResults(st, "call:"+e.typeKey(sig), sig.Results(), ins)
}

// callStatic calls a known function.
func (e *Engine) callStatic(fr *frame, st *State, fn *ssa.Function, free []Val, args []Val) (*State, []Val) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == vspecPath || fn.Origin() != nil && fn.Origin().Pkg != nil && fn.Origin().Pkg.Pkg.Path() == vspecPath {
		if m, ok := intrinsics[strings.TrimPrefix(name, vspecPath+".")]; ok {
			return m(e, fr, st, fn, args)
		}
		if fn.Synthetic == "" && fn.Name() != "init" {
			unsup("specification function %s", name)
		}
	}
	if fn.Synthetic == "package initializer" && (!inRepo(fn) || !e.inInit) {
		return st, nil
	}
	if m, ok := models[name]; ok {
		e.trusted["model of "+name] = true
		return m(e, st, fn, args)
	}
	if e.p.Specs[fn] {
		return e.callSpec(fr, st, fn, args)
	}
	if con := e.p.Contracts[fn]; con != nil && free == nil && con.has("modular") {
		if len(e.uses) > 0 {
			if u := e.uses[len(e.uses)-1]; u.con == con && !u.called {
				return e.havoc(st, u, args)
			}
		}
		if e.verifying != con && !(e.verifying != nil && len(e.uses) == 0 && e.verifying.has("inline:"+fn.Name())) {
			return e.useContract(fr, st, con, args)
		}
		if (con.has("pure") || con.has("unordered")) && e.cur != nil && !e.cur.twice && len(e.uses) == 0 {
			e.cur.twice = true
			return e.purely(fr, st, con, args)
		}
	}
	if inRepo(fn) || fn.Synthetic != "" && len(fn.Blocks) > 0 || inlineExternal[name] {
		if len(fn.Blocks) == 0 {
			unsup("function without a body: %s", fn)
		}
		if e.cur != nil && inRepo(fn) {
			e.cur.inlined[fn.String()] = true
		}
		for _, f := range e.stack {
			if f == fn {
				unsup("recursion in %s", fn)
			}
		}
		e.stack = append(e.stack, fn)
		defer func() { e.stack = e.stack[:len(e.stack)-1] }()
		pos := e.curPos
		s, v := e.call(fn, free, args, st)
		e.curPos = pos
		return s, v
	}
	return e.external(st, fn, name, args)
}

// inlineExternal are the functions of dependencies that are verified with the
// code that calls them.
var inlineExternal = map[string]bool{
	"github.com/stretchr/stew/slice.ContainsString": true,
}

// purely calls the target of a contract that says that the results are a
// function of the arguments, and obliges that they are: calling it once more
// gives the same.
func (e *Engine) purely(fr *frame, st *State, con *Contract, args []Val) (*State, []Val) {
	c := e.c
	fn := con.Target
	pre := st.clone()
	saved := e.cur.nondet
	e.cur.nondet = false
	m, vs := e.callStatic(fr, st, fn, nil, args)
	again := e.cur.nondet
	e.cur.nondet = e.cur.nondet || saved
	if m == nil {
		return m, vs
	}
	var bag *smt.Term
	if con.has("unordered") {
		el := fn.Params[0].Type().Underlying().(*types.Slice).Elem()
		sl, comp := e.term(args[0]), e.acomp(el)
		before, after := c.Select(e.get(pre, comp), e.rbase(sl)), c.Select(e.get(m, comp), e.rbase(sl))
		bag = e.bag(e.seq(before, e.soff(sl), e.slen(sl)))
		if before != after {
			e.oblige(m, "pure", "the elements are only permuted", c.Eq(bag, e.bag(e.seq(after, e.soff(sl), e.slen(sl)))))
			i := e.fresh("skolem.index", c.IntS)
			e.oblige(m, "pure", "nothing else is written to", c.Or(c.And(c.Le(e.soff(sl), i), c.Lt(i, c.Add(e.soff(sl), e.slen(sl)))), c.Eq(c.Select(before, i), c.Select(after, i))))
		}
	}
	if !con.has("pure") || bag == nil && !again {
		return m, vs
	}
	if bag != nil {
		// with the elements in any other order.
		el := fn.Params[0].Type().Underlying().(*types.Slice).Elem()
		ln := e.slen(e.term(args[0]))
		comp := e.acomp(el)
		r := e.alloc()
		arr := c.Var(fmt.Sprintf("permuted@%d", e.id()), c.Array(c.IntS, e.sort(el)))
		e.set(pre, comp, c.Store(e.get(pre, comp), r, arr))
		e.assume(pre, c.Eq(e.bag(e.seq(arr, c.Int(0), ln)), bag), "permutation")
		args = append([]Val{e.slc(r, c.Int(0), ln, ln)}, args[1:]...)
	}
	e.quiet++
	s2, ws := e.callStatic(fr, pre, fn, nil, args)
	e.quiet--
	if s2 == nil {
		unsup("%s does not return", fn)
	}
	for i := range vs {
		t := fn.Signature.Results().At(i).Type()
		a, b := e.deep(m, vs[i], t, 0), e.deep(s2, ws[i], t, 0)
		var eqs []*smt.Term
		if bag != nil && isError(t) {
			a, b = []*smt.Term{c.Eq(a[0], e.nilIfc())}, []*smt.Term{c.Eq(b[0], e.nilIfc())}
		}
		for k := range a {
			eqs = append(eqs, c.Eq(a[k], b[k]))
		}
		o := m.clone()
		o.pc = c.And(m.pc, s2.pc)
		e.oblige(o, "pure", fmt.Sprintf("result %d is a function of the arguments", i), c.And(eqs...))
	}
	return m, vs
}

// external is a call of a function outside of the repository.
func (e *Engine) external(st *State, fn *ssa.Function, name string, args []Val) (*State, []Val) {
	if !pureExternal(name) {
		unsup("no model of %s", name)
	}
	if v, ok := e.fold(name, args); ok {
		return st, []Val{v}
	}
	e.trusted["external function "+name+" is a function of its arguments"] = true
	sig := fn.Signature
	var ts []types.Type
	if r := sig.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	ins := e.deepAll(st, args, ts)
	rs := e.ufResults(st, name, sig.Results(), ins)
	if ax, ok := externalFacts[name]; ok {
		ax(e, st, args, rs, ins)
	}
	return st, rs
}

// ---------------------------------------------------------------- deep arguments

func (e *Engine) deepAll(st *State, vs []Val, ts []types.Type) []*smt.Term {
	var out []*smt.Term
	for i, v := range vs {
		out = append(out, e.deep(st, v, ts[i], 0)...)
	}
	return out
}

// deep spells out what a value refers to, as far as functions may look at it.
func (e *Engine) deep(st *State, v Val, t types.Type, depth int) []*smt.Term {
	if _, ok := v.(*Ptr); ok {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			p := e.ptr(v, t)
			return e.deep(st, e.load(st, p), pt.Elem(), depth+1)
		}
	}
	x := e.term(v)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []*smt.Term{e.sliceSeq(st, x, u.Elem())}
	case *types.Map:
		dom := e.mapDom(st, x, t)
		_, val := e.mcomps(t)
		return []*smt.Term{dom, e.c.Select(e.get(st, val), x)}
	case *types.Struct:
		if !hasRefs(t, 0) {
			return []*smt.Term{x}
		}
		var out []*smt.Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, e.deep(st, e.c.Sel(x, i), u.Field(i).Type(), depth+1)...)
		}
		return out
	case *types.Pointer:
		if depth == 0 && e.looksInto(u.Elem()) {
			if x.Op == "ite" || x.IsLit() && x.Int.Sign() == 0 {
				return []*smt.Term{x}
			}
			return e.deep(st, e.load(st, e.ptr(v, t)), u.Elem(), depth+1)
		}
	}
	return []*smt.Term{x}
}

// looksInto tells whether what a pointer refers to counts as an argument.
func (e *Engine) looksInto(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		_, ok := t.Underlying().(*types.Basic)
		return ok
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return strings.HasPrefix(p, modPath) || p == "net/url" && n.Obj().Name() == "URL"
}

func hasRefs(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return hasRefs(u.Elem(), d+1)
	}
	return false
}

// sig makes the name of a function unique for the sorts of its arguments.
func sigName(n string, args []*smt.Term) string {
	var b strings.Builder
	b.WriteString(n)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(shortSort(a.S))
	}
	return b.String()
}

func shortSort(s *smt.Sort) string {
	return strings.NewReplacer("(Array ", "[", ")", "]", "github.com/freerware/negotiator", "").Replace(s.Name)
}

// ufResults are the results of a function of its arguments.
func (e *Engine) ufResults(st *State, name string, res *types.Tuple, ins []*smt.Term) []Val {
	var out []Val
	n := sigName(name, ins)
	for i := 0; i < res.Len(); i++ {
		out = append(out, e.ufValue(st, fmt.Sprintf("%s#%d", n, i), res.At(i).Type(), ins))
	}
	return out
}

// ufValue is a value of the type that is a function of the arguments. What it
// refers to is owned by nobody, and not written to.
func (e *Engine) ufValue(st *State, n string, t types.Type, ins []*smt.Term) Val {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Slice:
		es := e.sort(u.Elem())
		sq := c.App(n+":seq", e.seqSort(es), ins...)
		isn := c.App(n+":nil", c.Bool, ins...)
		e.seq(c.ConstArray(c.Array(c.IntS, es), e.zero(u.Elem())), c.Int(0), c.Int(0))
		ln := e.seqLen(sq)
		e.fact(c.Implies(isn, c.Eq(ln, c.Int(0))), "nil slice")
		s := e.sliceOf(st, u.Elem(), sq)
		if e.knowsNil[n] {
			return s
		}
		return e.c.Ite(isn, e.nilSlice(), s)
	case *types.Map:
		r := e.alloc()
		dom, val := e.mcomps(t)
		e.set(st, dom, c.Store(e.get(st, dom), r, c.App(n+":dom", e.compSort(dom).Elem, ins...)))
		e.set(st, val, c.Store(e.get(st, val), r, c.App(n+":val", e.compSort(val).Elem, ins...)))
		return r
	case *types.Struct:
		if e.opaqueStruct(t) {
			return c.App(n, e.sort(t), ins...)
		}
		var fs []*smt.Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.term(e.ufValue(st, fmt.Sprintf("%s.%d", n, i), u.Field(i).Type(), ins)))
		}
		return c.Ctor(e.sort(t), fs...)
	case *types.Pointer, *types.Chan:
		return c.App("frozen!"+n, c.IntS, ins...)
	}
	return c.App(n, e.sort(t), ins...)
}

// opaqueStruct tells whether the fields of a struct are none of our business.
func (e *Engine) opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && n.Obj().Pkg().Path() != "net/url"
}

// ---------------------------------------------------------------- interface methods

func (e *Engine) invoke(fr *frame, st *State, recv *smt.Term, m *types.Func, it types.Type, args []Val) (*State, []Val) {
	c := e.c
	if recv.Op == "ite" {
		return e.branch(st, recv.Args[0], func(st *State, side bool) (*State, []Val) {
			if side {
				return e.invoke(fr, st, recv.Args[1], m, it, args)
			}
			return e.invoke(fr, st, recv.Args[2], m, it, args)
		})
	}
	if t, v, ok := e.boxed(recv); ok {
		f := e.p.Prog.LookupMethod(t, m.Pkg(), m.Name())
		if f == nil {
			unsup("method %s of %s", m.Name(), t)
		}
		return e.callStatic(fr, st, f, nil, append([]Val{e.decode(v)}, args...))
	}
	e.panicFree(st, "method receiver is not nil", c.Not(c.Eq(recv, e.nilIfc())))
	if recv == e.nilIfc() {
		return nil, nil
	}
	name := m.FullName()
	if f, ok := ifaceModels[name]; ok {
		e.trusted["model of "+name] = true
		return f(e, st, recv, args)
	}
	e.trusted["methods of the interface "+e.typeKey(it)+" do not write to what the negotiator owns, and give equal results for equal arguments"] = true
	sig := m.Type().(*types.Signature)
	var ts []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	ins := append([]*smt.Term{recv}, e.deepAll(st, args, ts)...)
	return st, e.ufResults(st, "I:"+name, sig.Results(), ins)
}

// ---------------------------------------------------------------- builtins

func (e *Engine) builtin(fr *frame, st *State, name string, cc *ssa.CallCommon, args []Val) (*State, []Val) {
	c := e.c
	switch name {
	case "len", "cap":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if name == "cap" {
				return st, []Val{e.scap(e.term(args[0]))}
			}
			return st, []Val{e.slen(e.term(args[0]))}
		case *types.Map:
			return st, []Val{e.mapLen(st, e.term(args[0]), t)}
		case *types.Basic:
			return st, []Val{e.strLen(e.term(args[0]))}
		case *types.Array:
			return st, []Val{c.Int(u.Len())}
		case *types.Pointer:
			return st, []Val{c.Int(u.Elem().Underlying().(*types.Array).Len())}
		}
	case "append":
		return st, []Val{e.appendTo(st, cc, args)}
	case "min", "max":
		if e.sort(cc.Args[0].Type()) == c.IntS {
			r := e.term(args[0])
			for _, a := range args[1:] {
				x := e.term(a)
				if name == "min" {
					r = c.Ite(c.Le(r, x), r, x)
				} else {
					r = c.Ite(c.Le(r, x), x, r)
				}
			}
			return st, []Val{r}
		}
	case "copy":
		return st, []Val{e.copySlice(st, cc, args)}
	case "ssa:wrapnilchk":
		e.nonNil(st, args[0])
		return st, []Val{args[0]}
	case "delete":
		m, k := e.term(args[0]), e.term(args[1])
		t := cc.Args[0].Type()
		dom, _ := e.mcomps(t)
		d := e.mapDom(st, m, t)
		e.set(st, dom, c.Store(e.get(st, dom), m, c.Store(d, k, c.False)))
		return st, nil
	case "print", "println":
		return st, nil
	}
	unsup("builtin %s", name)
	return nil, nil
}

// cat is the array whose first n elements (from off) are those of a, followed
// by those of b from p.
func (e *Engine) cat(a, off, n, b, p *smt.Term) *smt.Term {
	c := e.c
	el := a.S.Elem
	name := "cat:" + el.Name
	if !c.HasAxioms(name) {
		av, o, nv, bv, pv, i := c.BVar("a", a.S), c.BVar("o", c.IntS), c.BVar("n", c.IntS), c.BVar("b", a.S), c.BVar("p", c.IntS), c.BVar("i", c.IntS)
		t := c.App(name, a.S, av, o, nv, bv, pv)
		sel := c.Select(t, i)
		c.Axiom(name, c.Forall([]*smt.Term{av, o, nv, bv, pv, i}, c.Eq(sel, c.Ite(c.Lt(i, nv), c.Select(av, c.Add(o, i)), c.Select(bv, c.Add(pv, c.Sub(i, nv))))), []*smt.Term{sel}))
	}
	return c.App(name, a.S, a, off, n, b, p)
}

func (e *Engine) appendTo(st *State, cc *ssa.CallCommon, args []Val) Val {
	c := e.c
	s := e.term(args[0])
	sl := cc.Args[0].Type().Underlying().(*types.Slice)
	comp := e.acomp(sl.Elem())
	var arr2, off2, n2 *smt.Term
	if b, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		sq := c.App("str2seq:"+e.typeKey(sl.Elem()), e.seqSort(e.sort(sl.Elem())), e.term(args[1]))
		arr2, off2, n2 = e.seqArr(sq, e.sort(sl.Elem())), c.Int(0), e.strLen(e.term(args[1]))
	} else {
		x := e.term(args[1])
		arr2, off2, n2 = c.Select(e.get(st, comp), e.rbase(x)), e.soff(x), e.slen(x)
	}
	if n2.IsLit() && n2.Int.Sign() == 0 {
		return s
	}
	return e.appendN(st, s, comp, arr2, off2, n2)
}

func (e *Engine) appendN(st *State, s *smt.Term, comp string, arr2, off2, n2 *smt.Term) *smt.Term {
	c := e.c
	if s.Op == "ite" || s.Op == "ctor" && e.sbase(s).Op == "ite" && !e.tight(s) {
		// split on the slice.
		cond := e.sbase(s)
		if s.Op == "ite" {
			cond = s.Args[0]
		} else {
			cond = cond.Args[0]
		}
		a := c.Subst(s, map[*smt.Term]*smt.Term{cond: c.True})
		b := c.Subst(s, map[*smt.Term]*smt.Term{cond: c.False})
		if a != s && b != s {
			st2 := st.clone()
			r1 := e.appendN(st, a, comp, arr2, off2, n2)
			r2 := e.appendN(st2, b, comp, arr2, off2, n2)
			e.set(st, comp, c.Ite(cond, e.get(st, comp), e.get(st2, comp)))
			for k := range st2.consumed {
				st.consumed[k] = true
			}
			return c.Ite(cond, r1, r2)
		}
	}
	ln := e.slen(s)
	nl := c.Add(ln, n2)
	old := c.Select(e.get(st, comp), e.sbase(s))
	grow := func(base *smt.Term) *smt.Term {
		var arr *smt.Term
		if n2.IsLit() && n2.Int.Int64() <= 8 && e.soff(s).IsLit() && e.soff(s).Int.Sign() == 0 {
			arr = old
			if e.sbase(s).IsLit() && e.sbase(s).Int.Sign() == 0 {
				arr = c.ConstArray(old.S, e.zero(e.compT[comp]))
			}
			for i := int64(0); i < n2.Int.Int64(); i++ {
				arr = c.Store(arr, c.Add(ln, c.Int(i)), c.Select(arr2, c.Add(off2, c.Int(i))))
			}
		} else if ln.IsLit() && ln.Int.Sign() == 0 && off2.IsLit() && off2.Int.Sign() == 0 {
			arr = arr2
		} else {
			arr = e.cat(old, e.soff(s), ln, arr2, off2)
		}
		e.set(st, comp, c.Store(e.get(st, comp), base, arr))
		return base
	}
	newBase := func() *smt.Term {
		if e.inInit {
			return e.alloc()
		}
		return e.allocNamed(fmt.Sprintf("alloc!app%d%s", e.id(), e.tags()))
	}
	if e.tight(s) {
		// nobody can tell whether the elements were moved.
		if !e.isNil(s) {
			if st.consumed[s] {
				unsup("slice that is appended to twice")
			}
			st.consumed[s] = true
		}
		if n2.IsLit() && n2.Int.Sign() == 0 {
			return s
		}
		b := grow(newBase())
		r := e.slc(b, c.Int(0), nl, nl)
		if !(n2.IsLit() && n2.Int.Sign() > 0) {
			// appending nothing to nil gives nil.
			if e.isNil(s) {
				e.accNil[b.Name] = true
			}
		}
		return r
	}
	// in place if there is room.
	fits := c.Le(nl, e.scap(s))
	h0 := e.get(st, comp)
	var in *smt.Term
	if n2.IsLit() && n2.Int.Int64() <= 8 {
		in = old
		for i := int64(0); i < n2.Int.Int64(); i++ {
			in = c.Store(in, c.Add(e.soff(s), c.Add(ln, c.Int(i))), c.Select(arr2, c.Add(off2, c.Int(i))))
		}
	} else {
		in = e.blit(old, c.Add(e.soff(s), ln), n2, arr2, off2)
	}
	b := grow(newBase())
	h1 := e.get(st, comp)
	e.set(st, comp, c.Ite(fits, c.Store(h0, e.sbase(s), in), h1))
	cp := e.fresh("cap", c.IntS)
	e.fact(c.Le(nl, cp), "capacity")
	return e.slc(c.Ite(fits, e.sbase(s), b), c.Ite(fits, e.soff(s), c.Int(0)), nl, c.Ite(fits, e.scap(s), cp))
}

// blit is a with n elements from off replaced by those of b from p.
func (e *Engine) blit(a, off, n, b, p *smt.Term) *smt.Term {
	c := e.c
	name := "blit:" + a.S.Elem.Name
	if !c.HasAxioms(name) {
		av, o, nv, bv, pv, i := c.BVar("a", a.S), c.BVar("o", c.IntS), c.BVar("n", c.IntS), c.BVar("b", a.S), c.BVar("p", c.IntS), c.BVar("i", c.IntS)
		t := c.App(name, a.S, av, o, nv, bv, pv)
		sel := c.Select(t, i)
		c.Axiom(name, c.Forall([]*smt.Term{av, o, nv, bv, pv, i}, c.Eq(sel, c.Ite(c.And(c.Le(o, i), c.Lt(i, c.Add(o, nv))), c.Select(bv, c.Add(pv, c.Sub(i, o))), c.Select(av, i))), []*smt.Term{sel}))
	}
	return c.App(name, a.S, a, off, n, b, p)
}

func (e *Engine) isNil(s *smt.Term) bool { return s == e.nilSlice() }

// tight tells whether the slice is ours, and has no room.
func (e *Engine) tight(s *smt.Term) bool {
	if e.scap(s) != e.slen(s) {
		return false
	}
	return e.ownedBase(e.sbase(s))
}

func (e *Engine) copySlice(st *State, cc *ssa.CallCommon, args []Val) Val {
	c := e.c
	d := e.term(args[0])
	el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	comp := e.acomp(el)
	var arr2, off2, n2 *smt.Term
	if b, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		sq := c.App("str2seq:"+e.typeKey(el), e.seqSort(e.sort(el)), e.term(args[1]))
		arr2, off2, n2 = e.seqArr(sq, e.sort(el)), c.Int(0), e.strLen(e.term(args[1]))
	} else {
		x := e.term(args[1])
		arr2, off2, n2 = c.Select(e.get(st, comp), e.rbase(x)), e.soff(x), e.slen(x)
	}
	n := c.Ite(c.Le(e.slen(d), n2), e.slen(d), n2)
	old := c.Select(e.get(st, comp), e.sbase(d))
	var nw *smt.Term
	if n2 == e.slen(d) && off2.IsLit() && off2.Int.Sign() == 0 && e.soff(d).IsLit() && e.soff(d).Int.Sign() == 0 && e.scap(d) == n2 && e.ownedBase(e.sbase(d)) {
		nw = arr2
	} else {
		nw = e.blit(old, e.soff(d), n, arr2, off2)
	}
	e.set(st, comp, c.Store(e.get(st, comp), e.sbase(d), nw))
	return n
}

// ---------------------------------------------------------------- iteration

func (e *Engine) newIter(st *State, x *ssa.Range, v Val) *iterator {
	t := x.X.Type()
	if _, ok := t.Underlying().(*types.Map); !ok {
		unsup("iteration over %s", t)
	}
	m := e.term(v)
	it := &iterator{m: m, t: t, dom: e.mapDom(st, m, t), tok: e.fresh("iter", e.c.IntS)}
	for _, r := range *x.Referrers() {
		if nx, ok := r.(*ssa.Next); ok {
			it.comp = e.xcomp(fmt.Sprintf("pos:%s#%d;%d", x.Parent().String(), nx.Block().Index, e.depth), e.c.IntS)
		}
	}
	if it.comp == "" {
		unsup("iterator without next")
	}
	e.set(st, it.comp, e.c.Int(0))
	e.card(it.dom)
	e.fact(e.c.App("iterates:"+it.dom.S.Key.Name, e.c.Bool, it.tok, it.dom), "iteration")
	if e.cur != nil {
		e.cur.nondet = true
	}
	return it
}

func (e *Engine) next(fr *frame, st *State, x *ssa.Next) Val {
	c := e.c
	it := e.iters[e.tv(fr, st, x.Iter)]
	if it == nil {
		unsup("iterator")
	}
	mt := it.t.Underlying().(*types.Map)
	dom := e.mapDom(st, it.m, it.t)
	if dom != it.dom {
		unsup("map that changes while it is iterated over")
	}
	pos := e.get(st, it.comp)
	ok := c.Lt(pos, e.card(dom))
	key := c.App("enum:"+dom.S.Key.Name, dom.S.Key, it.tok, dom, pos)
	v, _ := e.mapGet(st, it.m, key, it.t)
	e.set(st, it.comp, c.Add(pos, c.Ite(ok, c.Int(1), c.Int(0))))
	_ = mt
	return Tuple{ok, key, v}
}
