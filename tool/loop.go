package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/tool/smt"
)

// A loop is summarized: the state at the start of iteration k is described as a
// function of k, and everything that the body does is assumed for the
// iterations that were completed. The number of completed iterations is N.

type leafKind int

const (
	kInv     leafKind = iota // the same in every iteration
	kCounter                 // init + step·k
	kAcc                     // a slice that is appended to
	kUF                      // an unknown function of k
)

type leaf struct {
	name string
	s    *smt.Sort
	kind leafKind
	init *smt.Term
	step *smt.Term
	cur  *smt.Term // at iteration k
	back *smt.Term // at iteration k+1
	acc  *accInfo
}

type accInfo struct {
	elem types.Type
	comp string
	base *smt.Term
	arr  *smt.Term // final contents
	c0   *smt.Term // initial contents, as an array with offset 0
	ln   *leaf     // length
}

type loopVar struct {
	phi    *ssa.Phi
	comp   string
	ref    *smt.Term
	t      types.Type
	s      *smt.Sort
	leaves []*leaf
	ptr    *Ptr // loop-invariant interior pointer
}

type loopSum struct {
	e     *Engine
	fr    *frame
	l     *loop
	id    int
	b     *Binder
	n     *smt.Term
	st0   *State
	vars  []*loopVar
	byKey map[string]*loopVar
	wild  map[string]*leaf
	local map[string]*smt.Term
}

type mark struct {
	facts, obls, rets int
	triv              map[string]int
}

func (e *Engine) mark(fr *frame) mark {
	m := mark{len(e.facts), len(e.obls), len(fr.returns), nil}
	if e.cur != nil {
		m.triv = map[string]int{}
		for k, v := range e.cur.trivial {
			m.triv[k] = v
		}
	}
	return m
}

func (e *Engine) rollback(fr *frame, m mark) {
	e.facts, e.obls, fr.returns = e.facts[:m.facts:m.facts], e.obls[:m.obls:m.obls], fr.returns[:m.rets:m.rets]
	if e.cur != nil {
		e.cur.trivial = m.triv
	}
}

func (e *Engine) execLoop(fr *frame, l *loop, in []edge) []edge {
	st0 := e.join(fr, l.header, in)
	if out, ok := e.unroll(fr, l, st0.clone()); ok {
		return out
	}
	return e.summarize(fr, l, st0)
}

// unroll runs the loop for as long as its condition is decided.
func (e *Engine) unroll(fr *frame, l *loop, st *State) ([]edge, bool) {
	m := e.mark(fr)
	var out []edge
	for i := 0; i < 40; i++ {
		if !e.decided(fr, l, st) {
			break
		}
		var back []edge
		for _, x := range e.region(fr, l, []edge{{nil, l.header, st}}) {
			if x.to == l.header {
				back = append(back, x)
			} else {
				out = append(out, x)
			}
		}
		if len(back) == 0 {
			return out, true
		}
		st = e.join(fr, l.header, back)
	}
	e.rollback(fr, m)
	return nil, false
}

func (e *Engine) decided(fr *frame, l *loop, st *State) bool {
	if _, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	exits := false
	for _, s := range l.header.Succs {
		if !l.blocks[s] {
			exits = true
		}
	}
	if !exits {
		return false
	}
	m := e.mark(fr)
	e.quiet++
	out := e.block(fr, l.header, st.clone())
	e.quiet--
	e.rollback(fr, m)
	return len(out) == 1
}

func (e *Engine) newLeaf(n string, s *smt.Sort, init *smt.Term) *leaf {
	return &leaf{name: fmt.Sprintf("%s!%d", n, e.id()), s: s, init: init}
}

// leavesOf splits a value into its leaves.
func (e *Engine) leavesOf(n string, t *smt.Term) []*leaf {
	if t.S.Ctor != "" && t.S != e.c.Slc {
		var out []*leaf
		for i, f := range t.S.Fields {
			out = append(out, e.leavesOf(n+"."+f.Name, e.c.Sel(t, i))...)
		}
		return out
	}
	return []*leaf{e.newLeaf("phi:"+n, t.S, t)}
}

func (e *Engine) rebuild(s *smt.Sort, next func() *smt.Term) *smt.Term {
	if s.Ctor != "" && s != e.c.Slc {
		var as []*smt.Term
		for _, f := range s.Fields {
			as = append(as, e.rebuild(f.Sort, next))
		}
		return e.c.Ctor(s, as...)
	}
	return next()
}

func (v *loopVar) value(e *Engine) *smt.Term {
	i := 0
	return e.rebuild(v.s, func() *smt.Term {
		i++
		return v.leaves[i-1].cur
	})
}

func (v *loopVar) setBack(e *Engine, t *smt.Term) {
	i := 0
	var walk func(t *smt.Term)
	walk = func(t *smt.Term) {
		if t.S.Ctor != "" && t.S != e.c.Slc {
			for j := range t.S.Fields {
				walk(e.c.Sel(t, j))
			}
			return
		}
		v.leaves[i].back = t
		i++
	}
	walk(t)
}

func (s *loopSum) setCur(lf *leaf) {
	e := s.e
	c := e.c
	switch lf.kind {
	case kInv:
		lf.cur = lf.init
	case kCounter:
		lf.cur = c.Add(lf.init, c.Mul(lf.step, s.b.V))
	case kUF:
		lf.cur = c.App(lf.name, lf.s, append(s.outer(), s.b.V)...)
	case kAcc:
		s.setCur(lf.acc.ln)
		lf.cur = e.slc(lf.acc.base, c.Int(0), lf.acc.ln.cur, lf.acc.ln.cur)
	}
}

func (s *loopSum) outer() []*smt.Term {
	var vs []*smt.Term
	for _, b := range s.e.binders {
		if b != s.b {
			vs = append(vs, b.V)
		}
	}
	return vs
}

// header builds the state at the start of iteration k.
func (s *loopSum) header() *State {
	e := s.e
	st := s.st0.clone()
	for comp, hn := range s.local {
		e.set(st, comp, e.c.Mix(e.get(s.st0, comp), hn, s.b.Tag))
	}
	for comp, lf := range s.wild {
		s.setCur(lf)
		e.set(st, comp, lf.cur)
	}
	for _, v := range s.vars {
		for _, lf := range v.leaves {
			s.setCur(lf)
		}
		switch {
		case v.ptr != nil:
			st.env[v.phi] = v.ptr
		case v.phi != nil:
			st.env[v.phi] = v.value(e)
		case s.wild[v.comp] != nil:
		case v.ref == nil:
			e.set(st, v.comp, v.value(e))
		default:
			e.set(st, v.comp, e.c.Store(e.get(st, v.comp), v.ref, v.value(e)))
		}
	}
	for _, v := range s.vars {
		for _, lf := range v.leaves {
			if lf.kind == kAcc && s.wild[lf.acc.comp] == nil {
				e.set(st, lf.acc.comp, e.c.Store(e.get(st, lf.acc.comp), lf.acc.base, lf.acc.arr))
			}
		}
	}
	return st
}

// under simplifies a term with what the path condition says.
func (e *Engine) under(pc *smt.Term, ts ...*smt.Term) []*smt.Term {
	m := map[*smt.Term]*smt.Term{}
	for _, x := range conjuncts(pc) {
		if x.Op == "not" {
			m[x.Args[0]] = e.c.False
			continue
		}
		m[x] = e.c.True
		if x.Op == "=" && !x.Args[0].Bound == !x.Args[0].Bound {
			a, b := x.Args[0], x.Args[1]
			if a.IsLit() && !b.IsLit() {
				m[b] = a
			} else if b.IsLit() && !a.IsLit() {
				m[a] = b
			}
		}
	}
	out := make([]*smt.Term, len(ts))
	for i, t := range ts {
		out[i] = e.c.Subst(t, m)
	}
	return out
}

func (s *loopSum) roots(t *smt.Term, refs map[*smt.Term]bool, order *[]*smt.Term, mixes map[string]bool, seen map[*smt.Term]bool) map[*smt.Term]bool {
	out := map[*smt.Term]bool{}
	var walk func(t *smt.Term)
	walk = func(t *smt.Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "store":
			if !refs[t.Args[1]] {
				refs[t.Args[1]] = true
				*order = append(*order, t.Args[1])
			}
			walk(t.Args[0])
		case "ite":
			walk(t.Args[1])
			walk(t.Args[2])
		case "mix":
			mixes[t.Name] = true
			walk(t.Args[0])
		default:
			out[t] = true
		}
	}
	walk(t)
	return out
}

// update compares the state at the end of the body with that at its start, and
// generalizes the summary if they do not agree.
func (s *loopSum) update(hd, bk *State) bool {
	e := s.e
	c := e.c
	changed := false
	for _, v := range s.vars {
		if v.phi == nil {
			continue
		}
		bv := bk.env[v.phi]
		if v.ptr != nil {
			if !e.sameVal(v.ptr, bv) {
				unsup("interior pointer that changes in a loop")
			}
			continue
		}
		v.setBack(e, e.term(bv))
	}
	var comps []string
	for comp := range bk.heap {
		comps = append(comps, comp)
	}
	sort.Strings(comps)
	for _, comp := range comps {
		h, b := e.get(hd, comp), bk.heap[comp]
		if s.wild[comp] != nil {
			s.wild[comp].back = b
			continue
		}
		if strings.HasPrefix(comp, "G:") || strings.HasPrefix(comp, "X:") {
			key := comp
			v := s.byKey[key]
			if v == nil {
				if h == b {
					continue
				}
				v = &loopVar{comp: comp, s: h.S, leaves: e.leavesOf(comp, h)}
				s.vars = append(s.vars, v)
				s.byKey[key] = v
				for _, lf := range v.leaves {
					s.setCur(lf)
				}
				changed = true
			}
			v.setBack(e, b)
			continue
		}
		// which references were written to?
		if h != b {
			refs, mixes := map[*smt.Term]bool{}, map[string]bool{}
			var order []*smt.Term
			hmix := map[string]bool{}
			hr := s.roots(h, refs, &order, hmix, map[*smt.Term]bool{})
			br := s.roots(b, refs, &order, mixes, map[*smt.Term]bool{})
			bad := len(hr) != 1 || len(br) != 1
			for r := range hr {
				if !br[r] {
					bad = true
				}
			}
			needLocal := false
			for m := range mixes {
				if !hmix[m] {
					needLocal = true
				}
			}
			var cells []*smt.Term
			var split func(r *smt.Term)
			split = func(r *smt.Term) {
				if r.Op == "ite" {
					split(r.Args[1])
					split(r.Args[2])
					return
				}
				if strings.Contains(r.Name, s.b.Tag) && c.IsAllocRef(r) {
					needLocal = true
					return
				}
				if smt.Occurs(s.b.V, r) {
					bad = true
					return
				}
				cells = append(cells, r)
			}
			for _, r := range order {
				split(r)
			}
			if bad {
				s.wild[comp] = e.newLeaf("phi:"+comp, h.S, e.get(s.st0, comp))
				s.wild[comp].kind = kUF
				delete(s.local, comp)
				e.notes["loop writes to unknown references of "+comp] = true
				changed = true
				continue
			}
			if needLocal && s.local[comp] == nil {
				s.local[comp] = c.App(fmt.Sprintf("later!%d:%s", e.id(), comp), h.S, s.outer()...)
				changed = true
			}
			for _, r := range cells {
				key := fmt.Sprintf("%s@%d", comp, r.ID)
				if s.byKey[key] != nil || s.isAccBase(r) {
					continue
				}
				hv, bv := c.Select(h, r), c.Select(b, r)
				if hv == bv {
					continue
				}
				v := &loopVar{comp: comp, ref: r, s: h.S.Elem, leaves: e.leavesOf(comp+"@"+fmt.Sprint(r.ID), c.Select(e.get(s.st0, comp), r))}
				s.vars = append(s.vars, v)
				s.byKey[key] = v
				for _, lf := range v.leaves {
					s.setCur(lf)
				}
				changed = true
			}
		}
		for _, v := range s.vars {
			if v.comp == comp && v.ref != nil {
				v.setBack(e, c.Select(b, v.ref))
			}
		}
	}
	for _, v := range s.vars {
		for _, lf := range v.leaves {
			if lf.back == nil {
				lf.back = lf.cur
			}
			if s.raise(v, lf, bk) {
				changed = true
			}
		}
	}
	return changed
}

func (s *loopSum) isAccBase(r *smt.Term) bool {
	for _, v := range s.vars {
		for _, lf := range v.leaves {
			if lf.kind == kAcc && lf.acc.base == r {
				return true
			}
		}
	}
	return false
}

// raise moves the leaf to a more general kind if it needs that.
func (s *loopSum) raise(v *loopVar, lf *leaf, bk *State) bool {
	e := s.e
	c := e.c
	switch lf.kind {
	case kInv:
		if lf.back == lf.cur {
			return false
		}
		if lf.s == c.IntS {
			d := c.Sub(lf.back, lf.cur)
			if !smt.Occurs(s.b.V, d) {
				lf.kind, lf.step = kCounter, d
				return true
			}
		}
		if lf.s == c.Slc {
			if elem := s.elemOf(v); elem != nil && s.accInit(lf, elem) {
				lf.kind = kAcc
				return true
			}
		}
		lf.kind = kUF
		return true
	case kCounter:
		if c.Sub(lf.back, lf.cur) == lf.step {
			return false
		}
		lf.kind = kUF
		return true
	case kAcc:
		ok, ln := s.extends(lf.acc, lf.back, bk)
		if !ok {
			e.notes[fmt.Sprintf("slice %s is not only appended to", lf.name)] = true
			lf.kind = kUF
			return true
		}
		lf.acc.ln.back = ln
		return s.raise(nil, lf.acc.ln, bk)
	}
	return false
}

// elemOf is the element type of a loop variable that is a slice.
func (s *loopSum) elemOf(v *loopVar) types.Type {
	if v == nil {
		return nil
	}
	if v.phi != nil {
		if sl, ok := v.phi.Type().Underlying().(*types.Slice); ok {
			return sl.Elem()
		}
		return nil
	}
	if v.ref != nil && strings.HasPrefix(v.comp, "H:") {
		if sl, ok := s.e.compT[v.comp].Underlying().(*types.Slice); ok {
			return sl.Elem()
		}
	}
	return nil
}

func (s *loopSum) accInit(lf *leaf, elem types.Type) bool {
	e := s.e
	c := e.c
	in := lf.init
	owned := e.scap(in) == e.slen(in) && !s.st0.consumed[in]
	if !owned {
		return false
	}
	comp := e.acomp(elem)
	isNil := in == e.nilSlice()
	if !isNil && !e.ownedBase(e.sbase(in)) {
		return false
	}
	saved := e.binders
	e.binders = nil
	for _, b := range saved {
		if b != s.b {
			e.binders = append(e.binders, b)
		}
	}
	base := e.alloc()
	arr := e.fresh("acc:"+comp, e.compSort(comp).Elem)
	e.binders = saved
	c0 := arr
	if !isNil {
		c0 = c.Select(e.get(s.st0, comp), e.sbase(in))
	}
	e.accArr[arr.Name] = true
	ln := e.newLeaf("len", c.IntS, e.slen(in))
	if isNil || e.accNil[e.sbase(in).Name] {
		e.accNil[base.Name] = true
	}
	lf.acc = &accInfo{elem: elem, comp: comp, base: base, arr: arr, c0: c0, ln: ln}
	return true
}

func (e *Engine) ownedBase(b *smt.Term) bool {
	if b.Op == "ite" {
		return e.ownedBase(b.Args[1]) && e.ownedBase(b.Args[2])
	}
	return e.c.IsAllocRef(b) || b.IsLit() && b.Int.Sign() == 0
}

// extends tells whether the slice is the accumulator with elements appended,
// and gives its length.
func (s *loopSum) extends(a *accInfo, back *smt.Term, bk *State) (bool, *smt.Term) {
	e := s.e
	c := e.c
	cur := e.slc(a.base, c.Int(0), a.ln.cur, a.ln.cur)
	if back == cur {
		return true, a.ln.cur
	}
	b := e.sbase(back)
	if b.Op == "ite" {
		cond := b.Args[0]
		t := c.Subst(back, map[*smt.Term]*smt.Term{cond: c.True})
		f := c.Subst(back, map[*smt.Term]*smt.Term{cond: c.False})
		ht := c.Subst(e.get(bk, a.comp), map[*smt.Term]*smt.Term{cond: c.True})
		hf := c.Subst(e.get(bk, a.comp), map[*smt.Term]*smt.Term{cond: c.False})
		st1 := &State{heap: map[string]*smt.Term{a.comp: ht}}
		st2 := &State{heap: map[string]*smt.Term{a.comp: hf}}
		o1, l1 := s.extends(a, t, st1)
		o2, l2 := s.extends(a, f, st2)
		if !o1 || !o2 {
			return false, nil
		}
		return true, c.Ite(cond, l1, l2)
	}
	if off := e.soff(back); !off.IsLit() || off.Int.Sign() != 0 {
		return false, nil
	}
	if b == a.base && e.slen(back) == a.ln.cur {
		return true, a.ln.cur
	}
	if !c.IsAllocRef(b) {
		return false, nil
	}
	if !s.grows(c.Select(e.get(bk, a.comp), b), a) {
		return false, nil
	}
	return true, e.slen(back)
}

// grows tells whether the array agrees with the accumulator on the elements
// that the accumulator has.
func (s *loopSum) grows(t *smt.Term, a *accInfo) bool {
	for {
		switch {
		case t == a.arr:
			return true
		case t.Op == "store":
			d := s.e.c.Sub(t.Args[1], a.ln.cur)
			if !(d.IsLit() && d.Int.Sign() >= 0) && !s.e.atLeast(t.Args[1], a.ln.cur) {
				return false
			}
			t = t.Args[0]
		case t.Op == "ite":
			return s.grows(t.Args[1], a) && s.grows(t.Args[2], a)
		case t.Op == "app" && strings.HasPrefix(t.Name, "cat:"):
			// cat(a, off, n, b, p): the first n elements are those of a.
			if !t.Args[1].IsLit() || t.Args[1].Int.Sign() != 0 || !(t.Args[2] == a.ln.cur || s.e.atLeast(t.Args[2], a.ln.cur)) {
				return false
			}
			t = t.Args[0]
		default:
			p, ok := s.e.accParent[t.Name]
			if !ok {
				return false
			}
			pa, pl := s.e.accInst(t, p)
			if !(pl == a.ln.cur || s.e.atLeast(pl, a.ln.cur)) {
				return false
			}
			t = pa
		}
	}
}

// accRec describes the contents of an accumulator whose loop has ended.
type accRec struct {
	vars   []*smt.Term
	parent *smt.Term // contents that it extends
	from   *smt.Term // how much of them
}

func (e *Engine) accInst(t *smt.Term, p *accRec) (arr, n *smt.Term) {
	m := map[*smt.Term]*smt.Term{}
	for i, v := range p.vars {
		if i < len(t.Args) {
			m[v] = t.Args[i]
		}
	}
	return e.c.Subst(p.parent, m), e.c.Subst(p.from, m)
}

// atLeast tells whether a length is known to be at least another one: lengths
// of accumulators only grow.
func (e *Engine) atLeast(x, y *smt.Term) bool {
	d := e.c.Sub(x, y)
	if d.IsLit() {
		return d.Int.Sign() >= 0
	}
	for i := 0; i < 8; i++ {
		// x = len!id(..., N) + c, where len!id starts at a known length.
		lo, ok := e.lower(x)
		if !ok {
			return false
		}
		x = lo
		d = e.c.Sub(x, y)
		if d.IsLit() {
			return d.Int.Sign() >= 0
		}
	}
	return false
}

func (e *Engine) lower(x *smt.Term) (*smt.Term, bool) {
	if x.Op == "+" {
		for i, a := range x.Args {
			if lo, ok := e.lower(a); ok {
				r := lo
				for j, b := range x.Args {
					if j != i {
						r = e.c.Add(r, b)
					}
				}
				return r, true
			}
		}
		return nil, false
	}
	p, ok := e.lenFrom[x.Name]
	if !ok {
		return nil, false
	}
	m := map[*smt.Term]*smt.Term{}
	for i, v := range p.vars {
		if i < len(x.Args) {
			m[v] = x.Args[i]
		}
	}
	return e.c.Subst(p.from, m), true
}

func (e *Engine) summarize(fr *frame, l *loop, st0 *State) []edge {
	c := e.c
	s := &loopSum{e: e, fr: fr, l: l, id: e.id(), st0: st0, byKey: map[string]*loopVar{}, wild: map[string]*leaf{}, local: map[string]*smt.Term{}}
	s.n = e.fresh("N", c.IntS)
	kv := c.BVar("k", c.IntS)
	s.b = &Binder{V: kv, Guard: c.And(c.Le(c.Int(0), kv), c.Le(kv, s.n)), Tag: fmt.Sprintf("@%d;", s.id)}
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := &loopVar{phi: p}
		if ip, ok := st0.env[p].(*Ptr); ok && (len(ip.Path) > 0 || !strings.HasPrefix(ip.Comp, "H:")) {
			v.ptr = ip
		} else {
			t := e.term(st0.env[p])
			v.s = t.S
			v.leaves = e.leavesOf(p.Name(), t)
		}
		s.vars = append(s.vars, v)
	}
	outer := e.binders
	var m mark
	var hd, bk *State
	var exits []edge
	for round := 0; ; round++ {
		if round > 14 {
			unsup("loop summary does not stabilize in %s", fr.fn)
		}
		m = e.mark(fr)
		e.binders = append(append([]*Binder{}, outer...), s.b)
		hd = s.header()
		pcIn := hd.pc
		var back []edge
		exits = nil
		hdc := hd.clone()
		for _, x := range e.region(fr, l, []edge{{nil, l.header, hdc}}) {
			if x.to != l.header {
				exits = append(exits, x)
				continue
			}
			if len(x.st.defers) != len(st0.defers) {
				unsup("defer in a loop")
			}
			back = append(back, s.tidy(x, pcIn))
		}
		if len(back) == 0 {
			// the body never completes: it runs at most once.
			e.rollback(fr, m)
			e.binders = outer
			return e.region(fr, l, []edge{{nil, l.header, st0}})
		}
		bk = e.join(fr, l.header, back)
		ch := s.update(hd, bk)
		e.binders = outer
		if !ch {
			break
		}
		e.rollback(fr, m)
	}
	return s.finish(m, hd, bk, exits)
}

// tidy evaluates the phis on a back edge and simplifies the state with its
// path condition.
func (s *loopSum) tidy(x edge, pcIn *smt.Term) edge {
	e := s.e
	st := x.st.clone()
	in := map[*smt.Term]bool{}
	for _, p := range conjuncts(pcIn) {
		in[p] = true
	}
	var cs []*smt.Term
	for _, p := range conjuncts(st.pc) {
		if !in[p] {
			cs = append(cs, p)
		}
	}
	pc := e.c.And(cs...)
	vals := map[*ssa.Phi]Val{}
	for _, v := range s.vars {
		if v.phi == nil {
			continue
		}
		pv := e.phiVal(s.fr, v.phi, x)
		if t, ok := pv.(*smt.Term); ok {
			pv = e.under(pc, t)[0]
		}
		vals[v.phi] = pv
	}
	for p, v := range vals {
		st.env[p] = v
	}
	for comp, h := range st.heap {
		if h != e.get(s.st0, comp) {
			st.heap[comp] = e.under(pc, h)[0]
		}
	}
	return edge{nil, s.l.header, st}
}

func (e *Engine) substVal(v Val, m map[*smt.Term]*smt.Term) Val {
	switch x := v.(type) {
	case *smt.Term:
		return e.c.Subst(x, m)
	case *Ptr:
		n := *x
		if n.Ref != nil {
			n.Ref = e.c.Subst(n.Ref, m)
		}
		if n.Idx != nil {
			n.Idx = e.c.Subst(n.Idx, m)
		}
		n.Path = append([]step{}, x.Path...)
		for i, p := range n.Path {
			if p.Idx != nil {
				n.Path[i].Idx = e.c.Subst(p.Idx, m)
			}
		}
		return &n
	case Tuple:
		out := make(Tuple, len(x))
		for i := range x {
			out[i] = e.substVal(x[i], m)
		}
		return out
	}
	return v
}

func (e *Engine) substState(st *State, m map[*smt.Term]*smt.Term) *State {
	n := st.clone()
	n.pc = e.c.Subst(n.pc, m)
	for k, v := range n.heap {
		n.heap[k] = e.c.Subst(v, m)
	}
	for k, v := range n.env {
		n.env[k] = e.substVal(v, m)
	}
	n.consumed = map[*smt.Term]bool{}
	for k := range st.consumed {
		n.consumed[e.c.Subst(k, m)] = true
	}
	return n
}

// finish records what is known about the loop, and gives the exits.
func (s *loopSum) finish(m mark, hd, bk *State, exits []edge) []edge {
	e := s.e
	c := e.c
	k := s.b.V
	body := append([]*Fact{}, e.facts[m.facts:]...)
	obls := e.obls[m.obls:]

	e.fact(c.Le(c.Int(0), s.n), "iterations")
	inner := e.binders
	// facts for the obligations in the body: about the iterations before.
	var before []*Fact
	{
		saved := e.facts
		e.facts = nil
		e.binders = append(append([]*Binder{}, inner...), s.b)
		s.facts(k, hd, bk, body)
		j := c.BVar("j", c.IntS)
		jb := &Binder{V: j, Guard: c.And(c.Le(c.Int(0), j), c.Lt(j, k))}
		for _, f := range body {
			if !smt.Occurs(k, f.T) {
				continue
			}
			e.facts = append(e.facts, e.shiftFact(f, s.b, jb, len(inner)))
		}
		before = e.facts
		e.facts = saved
		e.binders = inner
	}
	for _, o := range obls {
		o.Facts = append(append([]*Fact{}, o.Facts...), before...)
	}
	// facts for what follows.
	for _, f := range body {
		if smt.Occurs(k, f.T) {
			e.facts = append(e.facts, e.instFact(f, s.b, s.n, len(inner)))
		}
	}
	s.facts(s.n, hd, bk, body)
	// remember what extends what.
	for _, v := range s.vars {
		for _, lf := range v.leaves {
			if lf.kind != kAcc {
				continue
			}
			a := lf.acc
			if a.c0 != a.arr {
				e.accParent[a.arr.Name] = &accRec{vars: s.outer(), parent: a.c0, from: a.ln.init}
			}
			if a.ln.kind == kUF {
				e.lenFrom[a.ln.name] = &accRec{vars: s.outer(), from: a.ln.init}
			}
			// N >= 0, so that init+N >= init.
			e.lenFrom[s.n.Name] = &accRec{vars: s.outer(), from: c.Int(0)}
		}
	}
	sub := map[*smt.Term]*smt.Term{k: s.n}
	for i := range exits {
		exits[i].st = e.substState(exits[i].st, sub)
		delete(exits[i].st.heap, fmt.Sprintf("X:pos:%s#%d;%d", s.fr.fn.String(), s.l.header.Index, e.depth))
	}
	for i := m.rets; i < len(s.fr.returns); i++ {
		r := &s.fr.returns[i]
		r.st = e.substState(r.st, sub)
		vals := make([]Val, len(r.vals))
		for j := range r.vals {
			vals[j] = e.substVal(r.vals[j], sub)
		}
		r.vals = vals
	}
	return exits
}

// instFact instantiates a binder of a fact.
func (e *Engine) instFact(f *Fact, b *Binder, t *smt.Term, at int) *Fact {
	m := map[*smt.Term]*smt.Term{b.V: t}
	n := &Fact{T: e.c.Subst(f.T, m), Why: f.Why}
	for i, x := range f.Binders {
		if x == b {
			continue
		}
		if i > at {
			x = e.substBinder(x, m)
		}
		n.Binders = append(n.Binders, x)
	}
	n.T, n.Binders = e.c.Subst(f.T, m), nil
	for i, x := range f.Binders {
		if x == b {
			continue
		}
		if i > at && smt.Occurs(b.V, x.Guard) {
			// inner binders keep their variable, with a guard of their own.
			n.Binders = append(n.Binders, &Binder{V: x.V, Guard: e.c.Subst(x.Guard, m), Tag: x.Tag})
			continue
		}
		n.Binders = append(n.Binders, x)
	}
	for _, p := range f.Pats {
		var q []*smt.Term
		for _, t := range p {
			q = append(q, e.c.Subst(t, m))
		}
		n.Pats = append(n.Pats, q)
	}
	return n
}

func (e *Engine) substBinder(x *Binder, m map[*smt.Term]*smt.Term) *Binder {
	return &Binder{V: x.V, Guard: e.c.Subst(x.Guard, m), Tag: x.Tag}
}

// shiftFact renames a binder of a fact, so that it is about other iterations.
func (e *Engine) shiftFact(f *Fact, b, nb *Binder, at int) *Fact {
	m := map[*smt.Term]*smt.Term{b.V: nb.V}
	n := &Fact{T: e.c.Subst(f.T, m), Why: f.Why}
	for i, x := range f.Binders {
		switch {
		case x == b:
			n.Binders = append(n.Binders, b, nb)
		case i > at:
			n.Binders = append(n.Binders, e.substBinder(x, m))
		default:
			n.Binders = append(n.Binders, x)
		}
	}
	for _, p := range f.Pats {
		var q []*smt.Term
		for _, t := range p {
			q = append(q, e.c.Subst(t, m))
		}
		n.Pats = append(n.Pats, q)
	}
	return n
}

// facts records what is known at the start of iteration n.
func (s *loopSum) facts(n *smt.Term, hd, bk *State, body []*Fact) {
	e := s.e
	c := e.c
	k := s.b.V
	reached := s.st0.pc
	at := func(t, i *smt.Term) *smt.Term { return c.Subst(t, map[*smt.Term]*smt.Term{k: i}) }
	// all iterations before were completed.
	in := map[*smt.Term]bool{}
	for _, p := range conjuncts(hd.pc) {
		in[p] = true
	}
	var cs []*smt.Term
	for _, p := range conjuncts(bk.pc) {
		if !in[p] {
			cs = append(cs, p)
		}
	}
	cont := c.And(cs...)
	j := c.BVar("j", c.IntS)
	below := func(x *smt.Term) *smt.Term { return c.And(c.Le(c.Int(0), x), c.Lt(x, n)) }
	all := func(body *smt.Term, pats ...[]*smt.Term) *smt.Term {
		return c.Forall([]*smt.Term{j}, c.Implies(below(j), body), pats...)
	}
	rec := func(t *smt.Term, why string) { e.fact(c.Implies(reached, t), why) }
	for _, x := range conjuncts(cont) {
		rec(all(at(x, j)), "loop continues")
	}
	last := c.Sub(n, c.Int(1))
	some := c.Lt(c.Int(0), n)
	rec(c.Implies(some, at(cont, last)), "loop continues")
	uf := false
	step := func(lf *leaf) {
		uf = true
		rec(c.Eq(at(lf.cur, c.Int(0)), lf.init), "loop entry")
		rec(c.Implies(some, c.Eq(at(lf.cur, n), at(lf.back, last))), "loop step")
		if lf.s == c.IntS {
			s.conditional(lf, n, rec)
		} else {
			s.lastWrite(lf, n, rec)
		}
	}
	for _, v := range s.vars {
		for _, lf := range v.leaves {
			switch lf.kind {
			case kUF:
				if !s.fill(lf, n, rec) {
					step(lf)
				}
				s.sortFacts(lf, n, rec)
			case kAcc:
				if lf.acc.ln.kind == kUF {
					step(lf.acc.ln)
				}
				s.accFacts(lf, n, bk, rec)
			}
		}
	}
	var wk []string
	for comp := range s.wild {
		wk = append(wk, comp)
	}
	sort.Strings(wk)
	for _, comp := range wk {
		step(s.wild[comp])
	}
	if uf {
		for _, f := range body {
			if smt.Occurs(k, f.T) {
				g := e.instFact(f, s.b, last, len(s.outer()))
				g.T = c.Implies(some, g.T)
				if n == k {
					// the fact is inside of the binder.
					g.Binders = insertBinder(g.Binders, s.b, len(s.outer()))
				}
				e.facts = append(e.facts, g)
			}
		}
	}
	s.localFacts(n, bk, rec)
}

func insertBinder(bs []*Binder, b *Binder, at int) []*Binder {
	out := append([]*Binder{}, bs[:at]...)
	out = append(out, b)
	return append(out, bs[at:]...)
}

// conds gives the condition under which the value is cur+1, if it is always cur
// or cur+1.
func (s *loopSum) incCond(lf *leaf) *smt.Term {
	c := s.e.c
	var walk func(t *smt.Term) *smt.Term
	walk = func(t *smt.Term) *smt.Term {
		if t == lf.cur {
			return c.False
		}
		if t == c.Add(lf.cur, c.Int(1)) {
			return c.True
		}
		if t.Op == "ite" {
			a, b := walk(t.Args[1]), walk(t.Args[2])
			if a == nil || b == nil {
				return nil
			}
			return c.Ite(t.Args[0], a, b)
		}
		d := c.Sub(t, lf.cur)
		if d.Op == "ite" {
			zero, one := c.Int(0), c.Int(1)
			var w2 func(t *smt.Term) *smt.Term
			w2 = func(t *smt.Term) *smt.Term {
				switch {
				case t == zero:
					return c.False
				case t == one:
					return c.True
				case t.Op == "ite":
					a, b := w2(t.Args[1]), w2(t.Args[2])
					if a == nil || b == nil {
						return nil
					}
					return c.Ite(t.Args[0], a, b)
				}
				return nil
			}
			return w2(d)
		}
		return nil
	}
	return walk(lf.back)
}

func (s *loopSum) conditional(lf *leaf, n *smt.Term, rec func(*smt.Term, string)) {
	e := s.e
	c := e.c
	inc := s.incCond(lf)
	if inc == nil {
		s.lastWrite(lf, n, rec)
		s.steps(lf, n, rec)
		return
	}
	k := s.b.V
	at := func(t, i *smt.Term) *smt.Term { return c.Subst(t, map[*smt.Term]*smt.Term{k: i}) }
	j := c.BVar("j", c.IntS)
	all := func(t *smt.Term) *smt.Term {
		return c.Forall([]*smt.Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Lt(j, n)), t))
	}
	v := at(lf.cur, n)
	rec(c.And(c.Le(lf.init, v), c.Le(v, c.Add(lf.init, n))), "counter bounds")
	if vj := at(lf.cur, j); vj.Op == "app" {
		rec(c.Forall([]*smt.Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Le(j, n)), c.And(c.Le(lf.init, vj), c.Le(vj, c.Add(lf.init, j)), c.Le(vj, v), c.Le(c.Sub(v, vj), c.Sub(n, j)))), []*smt.Term{vj}), "counter bounds")
	}
	rec(c.Eq(c.Eq(v, lf.init), all(c.Not(at(inc, j)))), "counter is zero")
	rec(c.Eq(c.Eq(v, c.Add(lf.init, n)), all(at(inc, j))), "counter is full")
}

// steps: a counter that moves by literal steps moves by at least the smallest
// and at most the largest of them in every iteration.
func (s *loopSum) steps(lf *leaf, n *smt.Term, rec func(*smt.Term, string)) {
	c := s.e.c
	type iv struct{ lo, hi *smt.Term }
	min := func(a, b *smt.Term) *smt.Term {
		if a.Int.Cmp(b.Int) < 0 {
			return a
		}
		return b
	}
	// walk gives the bounds of a term, or of its difference from the counter.
	var walk func(t *smt.Term) (r iv, rel, ok bool)
	walk = func(t *smt.Term) (iv, bool, bool) {
		if t.IsLit() {
			return iv{t, t}, false, true
		}
		if x := c.Sub(t, lf.cur); x.IsLit() {
			return iv{x, x}, true, true
		}
		switch t.Op {
		case "ite":
			a, ra, oa := walk(t.Args[1])
			b, rb, ob := walk(t.Args[2])
			if !oa || !ob || ra != rb {
				return iv{}, false, false
			}
			r := iv{min(a.lo, b.lo), a.hi}
			if min(a.hi, b.hi) == a.hi {
				r.hi = b.hi
			}
			return r, ra, true
		case "+":
			sum, rel := iv{c.Int(0), c.Int(0)}, false
			for _, a := range t.Args {
				r, rr, ok := walk(a)
				if !ok || rr && rel {
					return iv{}, false, false
				}
				rel = rel || rr
				sum.lo, sum.hi = c.Add(sum.lo, r.lo), c.Add(sum.hi, r.hi)
			}
			return sum, rel, true
		}
		return iv{}, false, false
	}
	r, rel, ok := walk(lf.back)
	if !ok || !rel {
		return
	}
	lo, hi := r.lo, r.hi
	at := func(i *smt.Term) *smt.Term { return c.Subst(lf.cur, map[*smt.Term]*smt.Term{s.b.V: i}) }
	j := c.BVar("j", c.IntS)
	rg := c.And(c.Le(c.Int(0), j), c.Le(j, n))
	rec(c.Forall([]*smt.Term{j}, c.Implies(rg, c.And(
		c.Le(c.Add(at(j), c.Mul(lo, c.Sub(n, j))), at(n)),
		c.Le(at(n), c.Add(at(j), c.Mul(hi, c.Sub(n, j)))))), []*smt.Term{at(j)}), "steps")
}

// lastWrite: the value is the one that was written last.
func (s *loopSum) lastWrite(lf *leaf, n *smt.Term, rec func(*smt.Term, string)) {
	c := s.e.c
	if lf.back.Op != "ite" {
		return
	}
	keep := c.False
	var walk func(t, pc *smt.Term)
	walk = func(t, pc *smt.Term) {
		if t == lf.cur {
			keep = c.Or(keep, pc)
			return
		}
		if t.Op == "ite" {
			walk(t.Args[1], c.And(pc, t.Args[0]))
			walk(t.Args[2], c.And(pc, c.Not(t.Args[0])))
		}
	}
	walk(lf.back, c.True)
	if keep.IsFalse() {
		return
	}
	k := s.b.V
	at := func(t, i *smt.Term) *smt.Term { return c.Subst(t, map[*smt.Term]*smt.Term{k: i}) }
	last := c.App("last:"+lf.name, c.IntS, append(s.outer(), n)...)
	j := c.BVar("j", c.IntS)
	none := c.And(c.Eq(at(lf.cur, n), lf.init), c.Eq(last, c.Int(-1)))
	one := c.And(c.Le(c.Int(0), last), c.Lt(last, n), c.Not(at(keep, last)), c.Eq(at(lf.cur, n), at(lf.back, last)))
	rec(c.Or(none, one), "last write")
	rec(c.Forall([]*smt.Term{j}, c.Implies(c.And(c.Lt(last, j), c.Le(c.Int(0), j), c.Lt(j, n)), at(keep, j))), "kept since")
}

// fill: an array that is written at a different index in each iteration.
func (s *loopSum) fill(lf *leaf, n *smt.Term, rec func(*smt.Term, string)) bool {
	e := s.e
	c := e.c
	if !lf.s.IsArray() {
		return false
	}
	// back = store(cur, key(k), v(k)), or the same under a condition.
	cond := c.True
	t := lf.back
	for t.Op == "ite" {
		if t.Args[2] == lf.cur {
			cond = c.And(cond, t.Args[0])
			t = t.Args[1]
		} else if t.Args[1] == lf.cur {
			cond = c.And(cond, c.Not(t.Args[0]))
			t = t.Args[2]
		} else {
			return false
		}
	}
	if t.Op != "store" || t.Args[0] != lf.cur {
		return false
	}
	key, v := t.Args[1], t.Args[2]
	k := s.b.V
	x := c.BVar("x", lf.s.Key)
	var idx, ok *smt.Term
	switch {
	case key.S == c.IntS && c.Sub(key, k) != key && !smt.Occurs(k, c.Sub(key, k)):
		idx = c.Sub(x, c.Sub(key, k))
		ok = c.And(c.Le(c.Int(0), idx), c.Lt(idx, n))
	case key.Op == "app" && strings.HasPrefix(key.Name, "enum:") && c.Sub(key.Args[2], k).IsLit() && !smt.Occurs(k, key.Args[0]) && !smt.Occurs(k, key.Args[1]):
		e.card(key.Args[1])
		idx = c.App("rank:"+key.Args[1].S.Key.Name, c.IntS, key.Args[0], key.Args[1], x)
		idx = c.Sub(idx, c.Sub(key.Args[2], k))
		ok = c.And(c.Select(key.Args[1], x), c.Le(c.Int(0), idx), c.Lt(idx, n))
	default:
		return false
	}
	// what has not been written yet is as it was.
	m := map[*smt.Term]*smt.Term{c.Select(lf.cur, key): c.Select(lf.init, key)}
	v, cond = c.Subst(v, m), c.Subst(cond, m)
	if smt.Occurs(lf.cur, v) || smt.Occurs(lf.cur, cond) {
		return false
	}
	at := func(t, i *smt.Term) *smt.Term { return c.Subst(t, map[*smt.Term]*smt.Term{k: i}) }
	cur := at(lf.cur, n)
	sel := c.Select(cur, x)
	rec(c.Forall([]*smt.Term{x}, c.Eq(sel, c.Ite(c.And(ok, at(cond, idx)), at(v, idx), c.Select(lf.init, x))), []*smt.Term{sel}), "array fill")
	rec(c.Eq(at(lf.cur, c.Int(0)), lf.init), "loop entry")
	return true
}

// sortFacts: contents that are only ever sorted keep their elements.
func (s *loopSum) sortFacts(lf *leaf, n *smt.Term, rec func(*smt.Term, string)) {
	e := s.e
	c := e.c
	if !lf.s.IsArray() || lf.s.Key != c.IntS {
		return
	}
	type win struct{ off, ln *smt.Term }
	var w *win
	ok := true
	var walk func(t *smt.Term)
	walk = func(t *smt.Term) {
		switch {
		case t == lf.cur:
		case t.Op == "ite":
			walk(t.Args[1])
			walk(t.Args[2])
		default:
			p, found := e.sorts2[t.Name]
			if !found {
				ok = false
				return
			}
			m := map[*smt.Term]*smt.Term{}
			for i, v := range p.vars {
				m[v] = t.Args[i]
			}
			off, ln := c.Subst(p.off, m), c.Subst(p.ln, m)
			if smt.Occurs(s.b.V, off) || smt.Occurs(s.b.V, ln) || w != nil && (w.off != off || w.ln != ln) {
				ok = false
				return
			}
			w = &win{off, ln}
			walk(c.Subst(p.in, m))
		}
	}
	walk(lf.back)
	if !ok || w == nil {
		return
	}
	k := s.b.V
	cur := c.Subst(lf.cur, map[*smt.Term]*smt.Term{k: n})
	rec(c.Eq(e.bag(e.seq(cur, w.off, w.ln)), e.bag(e.seq(lf.init, w.off, w.ln))), "sorting keeps the elements")
	if n == s.n {
		// in every iteration.
		j := c.BVar("j", c.IntS)
		cj := c.Subst(lf.cur, map[*smt.Term]*smt.Term{k: j})
		rec(c.Forall([]*smt.Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Le(j, n)), c.Eq(e.bag(e.seq(cj, w.off, w.ln)), e.bag(e.seq(lf.init, w.off, w.ln)))), []*smt.Term{cj}), "sorting keeps the elements")
	}
}

// accFacts describes the contents of an accumulator.
func (s *loopSum) accFacts(lf *leaf, n *smt.Term, bk *State, rec func(*smt.Term, string)) {
	e := s.e
	c := e.c
	a := lf.acc
	k := s.b.V
	at := func(t, i *smt.Term) *smt.Term { return c.Subst(t, map[*smt.Term]*smt.Term{k: i}) }
	i, j := c.BVar("i", c.IntS), c.BVar("j", c.IntS)
	below := func(x *smt.Term) *smt.Term { return c.And(c.Le(c.Int(0), x), c.Lt(x, n)) }
	el := c.Select(a.arr, i)
	len0 := a.ln.init
	if a.c0 != a.arr {
		off := e.soff(lf.init)
		rec(c.Forall([]*smt.Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, len0)), c.Eq(el, c.Select(a.c0, c.Add(off, i)))), []*smt.Term{el}), "elements before the loop")
	}
	content := e.contentOf(lf.back, a, bk)
	ln := a.ln
	if ln.kind == kCounter && ln.step == c.Int(1) && content != nil {
		v := c.Select(content, ln.cur)
		rec(c.Forall([]*smt.Term{i}, c.Implies(c.And(c.Le(len0, i), c.Lt(i, c.Add(len0, n))), c.Eq(el, at(v, c.Sub(i, len0)))), []*smt.Term{el}), "appended elements")
		return
	}
	// segments.
	src := func(x *smt.Term) *smt.Term { return c.App("src:"+a.arr.Name, c.IntS, append(s.outer(), x)...) }
	end := at(ln.cur, n)
	lj := at(ln.cur, j)
	bj := at(ln.back, j)
	si := src(i)
	if n == s.n || n == k {
		rec(c.Forall([]*smt.Term{i}, c.Implies(c.And(c.Le(len0, i), c.Lt(i, end)), c.And(below(si), c.Le(at(ln.cur, si), i), c.Lt(i, at(ln.back, si)))), []*smt.Term{el}), "where elements come from")
		rec(c.Forall([]*smt.Term{j}, c.Implies(below(j), c.And(c.Le(len0, lj), c.Le(lj, bj), c.Le(bj, end))), []*smt.Term{lj}), "lengths grow")
		j2 := c.BVar("j", c.IntS)
		lj2 := at(ln.cur, j2)
		if lj != lj2 {
			rec(c.Forall([]*smt.Term{j, j2}, c.Implies(c.And(below(j), c.Lt(j, j2), c.Le(j2, n)), c.Le(bj, lj2)), []*smt.Term{lj, lj2}), "lengths grow")
		}
		i2 := c.BVar("i", c.IntS)
		si2 := src(i2)
		rec(c.Forall([]*smt.Term{i, i2}, c.Implies(c.And(c.Le(len0, i), c.Le(i, i2), c.Lt(i2, end)), c.Le(si, si2)), []*smt.Term{si, si2}), "elements are in order")
		inc := s.incCond(ln)
		if inc != nil {
			rec(c.Forall([]*smt.Term{i}, c.Implies(c.And(c.Le(len0, i), c.Lt(i, end)), c.And(at(inc, si), c.Eq(at(ln.cur, si), i))), []*smt.Term{si}), "appended under the condition")
			rec(c.Forall([]*smt.Term{j}, c.Implies(c.And(below(j), at(inc, j)), c.And(c.Le(len0, lj), c.Lt(lj, end), c.Eq(src(lj), j)))), "appended under the condition")
		} else {
			rec(c.Forall([]*smt.Term{i, j}, c.Implies(c.And(below(j), c.Le(lj, i), c.Lt(i, bj)), c.Eq(si, j)), []*smt.Term{si, lj}), "where elements come from")
		}
		if content != nil {
			cj := at(content, j)
			if inc != nil {
				rec(c.Forall([]*smt.Term{j}, c.Implies(c.And(below(j), at(inc, j)), c.Eq(c.Select(a.arr, lj), at(c.Select(content, ln.cur), j)))), "appended elements")
				rec(c.Forall([]*smt.Term{i}, c.Implies(c.And(c.Le(len0, i), c.Lt(i, end)), c.Eq(el, at(c.Select(content, ln.cur), si))), []*smt.Term{el}), "appended elements")
			} else {
				rec(c.Forall([]*smt.Term{i}, c.Implies(c.And(c.Le(len0, i), c.Lt(i, end)), c.Eq(el, c.Select(at(content, si), i))), []*smt.Term{el}), "appended elements")
				rec(c.Forall([]*smt.Term{i, j}, c.Implies(c.And(below(j), c.Le(lj, i), c.Lt(i, bj)), c.Eq(el, c.Select(cj, i))), []*smt.Term{el, lj}), "appended elements")
			}
		}
	}
}

// contentOf is the contents of the slice after the body, where they differ from
// the accumulator.
func (e *Engine) contentOf(back *smt.Term, a *accInfo, bk *State) *smt.Term {
	c := e.c
	h := e.get(bk, a.comp)
	var walk func(b, h *smt.Term) *smt.Term
	walk = func(b, h *smt.Term) *smt.Term {
		if b.Op == "ite" {
			t := walk(b.Args[1], c.Subst(h, map[*smt.Term]*smt.Term{b.Args[0]: c.True}))
			f := walk(b.Args[2], c.Subst(h, map[*smt.Term]*smt.Term{b.Args[0]: c.False}))
			switch {
			case t == a.arr:
				return f
			case f == a.arr:
				return t
			}
			return c.Ite(b.Args[0], t, f)
		}
		if b == a.base {
			return a.arr
		}
		return c.Select(h, b)
	}
	return walk(e.sbase(back), h)
}

// localFacts describes what the iterations left in what they allocated.
func (s *loopSum) localFacts(n *smt.Term, bk *State, rec func(*smt.Term, string)) {
	e := s.e
	c := e.c
	var comps []string
	for comp := range s.local {
		comps = append(comps, comp)
	}
	sort.Strings(comps)
	for _, comp := range comps {
		hn := s.local[comp]
		h := bk.heap[comp]
		seen := map[*smt.Term]bool{}
		var walk func(t *smt.Term)
		walk = func(t *smt.Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			switch t.Op {
			case "store":
				r := t.Args[1]
				if c.IsAllocRef(r) && strings.Contains(r.Name, s.b.Tag) && !strings.HasPrefix(r.Name, "alloc!app") && len(r.Args) == len(s.outer())+1 {
					j := c.BVar("j", c.IntS)
					at := func(t *smt.Term) *smt.Term { return c.Subst(t, map[*smt.Term]*smt.Term{s.b.V: j}) }
					l := c.Select(hn, at(r))
					v := at(c.Select(h, r))
					if l != v {
						rec(c.Forall([]*smt.Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Lt(j, n)), c.Eq(l, v)), []*smt.Term{at(r)}), "left behind")
					}
				}
				walk(t.Args[0])
			case "ite":
				walk(t.Args[1])
				walk(t.Args[2])
			case "mix":
				walk(t.Args[0])
			}
		}
		walk(h)
	}
}
