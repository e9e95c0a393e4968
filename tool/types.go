package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/tool/smt"
)

// Val is the symbolic value of an SSA value: a *smt.Term, a *Ptr or a Tuple.
type Val interface{}

// Tuple is a tuple of values.
type Tuple []Val

// Ptr is a pointer into a heap component.
type Ptr struct {
	Comp string     // "H:T", "A:T" or "G:name"
	Elem types.Type // type of the component's values
	Ref  *smt.Term  // nil for globals
	Idx  *smt.Term  // for "A:T"
	Path []step
}

type step struct {
	Field int
	Idx   *smt.Term  // array element
	T     types.Type // type of the value stepped into
}

// FnVal is a function constant.
type FnVal struct {
	Fn       *ssa.Function
	Bindings []Val
	Recv     Val // bound receiver for builtin models
}

func (e *Engine) typeKey(t types.Type) string {
	k := types.TypeString(types.Unalias(t), func(p *types.Package) string {
		return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath+"/"), modPath)
	})
	return aliasRE.ReplaceAllStringFunc(k, func(w string) string {
		switch w {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		case "any":
			return "interface{}"
		}
		return w
	})
}

var aliasRE = regexp.MustCompile(`[A-Za-z0-9_./]+`)

func (e *Engine) sort(t types.Type) *smt.Sort {
	k := e.typeKey(t)
	if s, ok := e.sorts[k]; ok {
		return s
	}
	s := e.sort1(t)
	e.sorts[k] = s
	return s
}

func (e *Engine) sort1(t types.Type) *smt.Sort {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.Bool
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UnsafePointer:
			return c.IntS
		case u.Info()&types.IsString != 0:
			return c.Str
		case u.Kind() == types.Float32:
			return c.F32
		case u.Info()&types.IsFloat != 0:
			return c.F64
		case u.Kind() == types.UntypedNil:
			return c.IntS
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return c.IntS
	case *types.Slice:
		return c.Slc
	case *types.Interface:
		return c.Ifc
	case *types.Signature:
		return c.Fn
	case *types.Array:
		return c.Array(c.IntS, e.sort(u.Elem()))
	case *types.Struct:
		var fs []smt.Field
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, smt.Field{Name: strconv.Itoa(i) + u.Field(i).Name(), Sort: e.sort(u.Field(i).Type())})
		}
		n := "T:" + e.typeKey(t)
		e.structs[n] = t
		return c.Datatype(n, fs)
	}
	unsup("type %s", t)
	return nil
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// zero is the zero value of the type.
func (e *Engine) zero(t types.Type) *smt.Term {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch e.sort(t) {
		case c.Bool:
			return c.False
		case c.IntS:
			return c.Int(0)
		case c.Str:
			return c.StrLit("")
		case c.F32, c.F64:
			return c.FloatLit(0, e.sort(t))
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return c.Int(0)
	case *types.Slice:
		return e.nilSlice()
	case *types.Interface:
		return e.nilIfc()
	case *types.Signature:
		return c.FnLit("nil")
	case *types.Array:
		return c.ConstArray(e.sort(t), e.zero(u.Elem()))
	case *types.Struct:
		var fs []*smt.Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.zero(u.Field(i).Type()))
		}
		return c.Ctor(e.sort(t), fs...)
	}
	unsup("zero value of %s", t)
	return nil
}

func (e *Engine) nilIfc() *smt.Term { return e.c.IfcLit("nil") }
func (e *Engine) nilSlice() *smt.Term {
	z := e.c.Int(0)
	return e.c.Ctor(e.c.Slc, z, z, z, z)
}
func (e *Engine) slc(base, off, ln, cp *smt.Term) *smt.Term {
	return e.c.Ctor(e.c.Slc, base, off, ln, cp)
}
func (e *Engine) sbase(s *smt.Term) *smt.Term { return e.c.Sel(s, 0) }

// rbase is where the elements of a slice are: its base, unless that is nil, in
// which case it has no elements.
func (e *Engine) rbase(s *smt.Term) *smt.Term {
	b := e.sbase(s)
	for b.Op == "ite" {
		switch zero := e.c.Int(0); {
		case b.Args[1] == zero:
			b = b.Args[2]
		case b.Args[2] == zero:
			b = b.Args[1]
		default:
			return b
		}
	}
	return b
}
func (e *Engine) soff(s *smt.Term) *smt.Term { return e.c.Sel(s, 1) }
func (e *Engine) slen(s *smt.Term) *smt.Term { return e.c.Sel(s, 2) }
func (e *Engine) scap(s *smt.Term) *smt.Term { return e.c.Sel(s, 3) }

// ---------------------------------------------------------------- heap components

// compSort is the sort of a heap component.
func (e *Engine) compSort(n string) *smt.Sort {
	s, ok := e.comps[n]
	if !ok {
		panic("unknown component " + n)
	}
	return s
}

func (e *Engine) hcomp(t types.Type) string {
	n := "H:" + e.typeKey(t)
	if _, ok := e.comps[n]; !ok {
		e.comps[n] = e.c.Array(e.c.IntS, e.sort(t))
		e.compT[n] = t
	}
	return n
}
func (e *Engine) acomp(elem types.Type) string {
	n := "A:" + e.typeKey(elem)
	if _, ok := e.comps[n]; !ok {
		e.comps[n] = e.c.Array(e.c.IntS, e.c.Array(e.c.IntS, e.sort(elem)))
		e.compT[n] = elem
	}
	return n
}

// mcomps are the domain and value components of a map type.
func (e *Engine) mcomps(t types.Type) (dom, val string) {
	m := t.Underlying().(*types.Map)
	k := e.typeKey(m.Key()) + "→" + e.typeKey(m.Elem())
	dom, val = "MD:"+k, "MV:"+k
	if _, ok := e.comps[dom]; !ok {
		ks, vs := e.sort(m.Key()), e.sort(m.Elem())
		e.comps[dom] = e.c.Array(e.c.IntS, e.c.Array(ks, e.c.Bool))
		e.comps[val] = e.c.Array(e.c.IntS, e.c.Array(ks, vs))
		e.compT[dom], e.compT[val] = t, t
		// nothing is in a nil map.
		en := e.c.Var("entry."+dom, e.comps[dom])
		e.c.Axiom("entry."+dom, e.c.Eq(e.c.Select(en, e.c.Int(0)), e.c.ConstArray(e.comps[dom].Elem, e.c.False)))
	}
	return
}
func (e *Engine) gcomp(g *ssa.Global) string {
	t := g.Type().(*types.Pointer).Elem()
	n := "G:" + g.Pkg.Pkg.Path() + "." + g.Name()
	if _, ok := e.comps[n]; !ok {
		e.comps[n] = e.sort(t)
		e.compT[n] = t
	}
	return n
}
func (e *Engine) xcomp(n string, s *smt.Sort) string {
	n = "X:" + n
	if _, ok := e.comps[n]; !ok {
		e.comps[n] = s
	}
	return n
}

// get reads a component of the state.
func (e *Engine) get(st *State, comp string) *smt.Term {
	if t, ok := st.heap[comp]; ok {
		return t
	}
	if e.postInit {
		if t, ok := e.initHeap[comp]; ok {
			return t
		}
	}
	s := e.compSort(comp)
	if e.inInit && strings.HasPrefix(comp, "G:"+modPath) {
		return e.zero(e.compT[comp])
	}
	if strings.HasPrefix(comp, "X:") {
		return e.ghostZero(s)
	}
	t := e.c.Var("entry."+comp, s)
	return t
}

func (e *Engine) ghostZero(s *smt.Sort) *smt.Term {
	switch {
	case s.IsArray():
		return e.c.ConstArray(s, e.ghostZero(s.Elem))
	case s == e.c.IntS:
		return e.c.Int(0)
	case s == e.c.Bool:
		return e.c.False
	case s == e.c.Str:
		return e.c.StrLit("")
	case s == e.c.Ifc:
		return e.nilIfc()
	case s == e.c.Fn:
		return e.c.FnLit("nil")
	case strings.HasPrefix(s.Name, "Seq_"):
		return e.seqEmpty(s)
	}
	panic("ghostZero " + s.Name)
}

func (e *Engine) set(st *State, comp string, v *smt.Term) { st.heap[comp] = v }

// ---------------------------------------------------------------- pointers

func (e *Engine) ptr(v Val, t types.Type) *Ptr {
	switch x := v.(type) {
	case *Ptr:
		return x
	case *smt.Term:
		if p, ok := e.decode(x).(*Ptr); ok {
			return p
		}
		el := t.Underlying().(*types.Pointer).Elem()
		return &Ptr{Comp: e.hcomp(el), Elem: el, Ref: x}
	}
	unsup("pointer %T", v)
	return nil
}

func (e *Engine) ptrTerm(p *Ptr) *smt.Term {
	if len(p.Path) == 0 && strings.HasPrefix(p.Comp, "H:") {
		return p.Ref
	}
	args := []*smt.Term{}
	n := "addr:" + p.Comp
	if p.Ref != nil {
		args = append(args, p.Ref)
	}
	if p.Idx != nil {
		args = append(args, p.Idx)
	}
	for _, s := range p.Path {
		if s.Idx != nil {
			n += ".[]"
			args = append(args, s.Idx)
		} else {
			n += "." + strconv.Itoa(s.Field)
		}
	}
	if _, ok := e.addrs[n]; !ok {
		e.addrs[n] = p
		if !e.c.HasAxioms(n) && len(args) > 0 {
			var bs []*smt.Term
			for _, a := range args {
				bs = append(bs, e.c.BVar("a", a.S))
			}
			x := e.c.App(n, e.c.IntS, bs...)
			e.c.Axiom(n, e.c.Forall(bs, e.c.Not(e.c.Eq(x, e.c.Int(0))), []*smt.Term{x}))
		}
	}
	return e.c.App(n, e.c.IntS, args...)
}

// decode gives the value that a term encodes: interior pointers are encoded as
// terms when they are captured.
func (e *Engine) decode(t *smt.Term) Val {
	if (t.Op == "app" || t.Op == "var") && strings.HasPrefix(t.Name, "addr:") {
		p := e.addrs[t.Name]
		n := &Ptr{Comp: p.Comp, Elem: p.Elem}
		as := t.Args
		if p.Ref != nil {
			n.Ref, as = as[0], as[1:]
		}
		if p.Idx != nil {
			n.Idx, as = as[0], as[1:]
		}
		for _, s := range p.Path {
			if s.Idx != nil {
				s.Idx, as = as[0], as[1:]
			}
			n.Path = append(n.Path, s)
		}
		return n
	}
	return t
}

func (e *Engine) loadBase(st *State, p *Ptr) *smt.Term {
	h := e.get(st, p.Comp)
	if p.Ref == nil {
		return h
	}
	v := e.c.Select(h, p.Ref)
	if p.Idx != nil {
		v = e.c.Select(v, p.Idx)
	}
	return v
}

func (e *Engine) load(st *State, p *Ptr) *smt.Term {
	v := e.loadBase(st, p)
	for _, s := range p.Path {
		if s.Idx != nil {
			v = e.c.Select(v, s.Idx)
		} else {
			v = e.c.Sel(v, s.Field)
		}
	}
	return v
}

func (e *Engine) store(st *State, p *Ptr, v *smt.Term) {
	nv := e.updatePath(e.loadBase(st, p), p.Path, v)
	if p.Ref == nil {
		e.set(st, p.Comp, nv)
		return
	}
	h := e.get(st, p.Comp)
	if p.Idx != nil {
		nv = e.c.Store(e.c.Select(h, p.Ref), p.Idx, nv)
	}
	e.set(st, p.Comp, e.c.Store(h, p.Ref, nv))
}

func (e *Engine) updatePath(old *smt.Term, path []step, v *smt.Term) *smt.Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.Idx != nil {
		return e.c.Store(old, s.Idx, e.updatePath(e.c.Select(old, s.Idx), path[1:], v))
	}
	return e.c.With(old, s.Field, e.updatePath(e.c.Sel(old, s.Field), path[1:], v))
}

// ---------------------------------------------------------------- interfaces

func (e *Engine) box(t types.Type, v *smt.Term) *smt.Term {
	k := e.typeKey(t)
	n := "box:" + k
	if !e.c.HasAxioms(n) {
		x := e.c.BVar("x", v.S)
		b := e.c.App(n, e.c.Ifc, x)
		pats := []*smt.Term{b}
		e.c.Axiom(n,
			e.c.Forall([]*smt.Term{x}, e.c.And(
				e.c.Eq(e.c.App("unbox:"+k, v.S, b), x),
				e.c.Eq(e.c.App("typ", e.c.IntS, b), e.c.Int(int64(e.typeID(t))))), pats),
			e.c.Eq(e.c.App("typ", e.c.IntS, e.nilIfc()), e.c.Int(0)))
	}
	return e.c.App(n, e.c.Ifc, v)
}

func (e *Engine) typeID(t types.Type) int {
	k := e.typeKey(t)
	if id, ok := e.typeIDs[k]; ok {
		return id
	}
	id := len(e.typeIDs) + 1
	e.typeIDs[k] = id
	e.typeByID[k] = t
	return id
}

// boxed gives the dynamic type and value of a known interface value.
func (e *Engine) boxed(t *smt.Term) (types.Type, *smt.Term, bool) {
	if t.Op == "app" && strings.HasPrefix(t.Name, "box:") {
		return e.typeByID[t.Name[4:]], t.Args[0], true
	}
	return nil, nil, false
}

// ---------------------------------------------------------------- sequences

func (e *Engine) seqSort(elem *smt.Sort) *smt.Sort { return e.c.Opaque("Seq_" + elem.Name) }

func (e *Engine) seqEmpty(s *smt.Sort) *smt.Term {
	return e.c.Var("seq.empty:"+s.Name, s)
}

// seq is the sequence of elements of a slice, given its backing array.
func (e *Engine) seq(arr, off, ln *smt.Term) *smt.Term {
	c := e.c
	el := arr.S.Elem
	s := e.seqSort(el)
	mk := "seq:" + el.Name
	if !c.HasAxioms(mk) {
		a, o, l, i := c.BVar("a", arr.S), c.BVar("o", c.IntS), c.BVar("l", c.IntS), c.BVar("i", c.IntS)
		b, p, m := c.BVar("b", arr.S), c.BVar("p", c.IntS), c.BVar("m", c.IntS)
		c.Declare(mk, s, arr.S, c.IntS, c.IntS)
		x, y := c.App(mk, s, a, o, l), c.App(mk, s, b, p, m)
		emp := e.seqEmpty(s)
		sv := c.BVar("s", s)
		c.Axiom(mk,
			c.Forall([]*smt.Term{a, o, l}, c.Implies(c.Le(c.Int(0), l), c.Eq(c.App("seq.len:"+el.Name, c.IntS, x), l)), []*smt.Term{x}),
			c.Forall([]*smt.Term{a, o, l, i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, l)),
				c.Eq(c.App("seq.at:"+el.Name, el, x, i), c.Select(a, c.Add(o, i)))), []*smt.Term{c.App("seq.at:"+el.Name, el, x, i)}),
			c.Forall([]*smt.Term{a, o, l}, c.Implies(c.Le(l, c.Int(0)), c.Eq(x, emp)), []*smt.Term{x}),
			c.Eq(c.App("seq.len:"+el.Name, c.IntS, emp), c.Int(0)),
		)
		c.Axiom("ext:"+mk,
			c.Forall([]*smt.Term{a, o, l, b, p, m}, c.Or(c.Eq(x, y), c.Not(c.Eq(l, m)),
				c.Exists([]*smt.Term{i}, c.And(c.Le(c.Int(0), i), c.Lt(i, l), c.Not(c.Eq(c.Select(a, c.Add(o, i)), c.Select(b, c.Add(p, i))))))),
				[]*smt.Term{x, y}))
		c.Axiom("seq.len:"+el.Name,
			c.Forall([]*smt.Term{sv}, c.Le(c.Int(0), c.App("seq.len:"+el.Name, c.IntS, sv)), []*smt.Term{c.App("seq.len:"+el.Name, c.IntS, sv)}))
	}
	if ln.IsLit() && ln.Int.Sign() == 0 {
		return e.seqEmpty(s)
	}
	// a sequence that is spelled out as an array is that sequence.
	if arr.Op == "app" && arr.Name == "seq.arr:"+el.Name && off.IsLit() && off.Int.Sign() == 0 && e.isSeqLen(ln, arr.Args[0]) {
		return arr.Args[0]
	}
	return c.App(mk, s, arr, off, ln)
}

func (e *Engine) isSeqLen(ln, sq *smt.Term) bool {
	return ln.Op == "app" && strings.HasPrefix(ln.Name, "seq.len:") && ln.Args[0] == sq
}

func (e *Engine) seqLen(s *smt.Term) *smt.Term {
	el := strings.TrimPrefix(s.S.Name, "Seq_")
	if s.Op == "app" && s.Name == "seq:"+el {
		return s.Args[2]
	}
	if s == e.seqEmpty(s.S) {
		return e.c.Int(0)
	}
	return e.c.App("seq.len:"+el, e.c.IntS, s)
}

// seqArr spells a sequence out as an array.
func (e *Engine) seqArr(s *smt.Term, el *smt.Sort) *smt.Term {
	n := "seq.arr:" + el.Name
	c := e.c
	as := c.Array(c.IntS, el)
	if !c.HasAxioms(n) {
		c.Declare(n, as, s.S)
		sv, i := c.BVar("s", s.S), c.BVar("i", c.IntS)
		c.Axiom(n, c.Forall([]*smt.Term{sv, i}, c.Eq(c.Select(c.App(n, as, sv), i), c.App("seq.at:"+el.Name, el, sv, i)), []*smt.Term{c.Select(c.App(n, as, sv), i)}))
	}
	return c.App(n, as, s)
}

// sliceSeq is the sequence of elements of a slice in the state.
func (e *Engine) sliceSeq(st *State, s *smt.Term, elem types.Type) *smt.Term {
	if s.Op == "ite" {
		return e.c.Ite(s.Args[0], e.sliceSeq(st, s.Args[1], elem), e.sliceSeq(st, s.Args[2], elem))
	}
	return e.seq(e.c.Select(e.get(st, e.acomp(elem)), e.rbase(s)), e.soff(s), e.slen(s))
}

// bag is the multiset of the elements of a sequence.
func (e *Engine) bag(sq *smt.Term) *smt.Term {
	c := e.c
	el := strings.TrimPrefix(sq.S.Name, "Seq_")
	els := c.LookupSort(el)
	if els == nil {
		panic("sort " + el)
	}
	bs := c.Opaque("Bag_" + el)
	n := "bag:" + el
	if !c.HasAxioms(n) {
		c.Declare(n, bs, sq.S)
		s, i, x := c.BVar("s", sq.S), c.BVar("i", c.IntS), c.BVar("x", els)
		b := c.App(n, bs, s)
		at := c.App("seq.at:"+el, els, s, i)
		ln := c.App("seq.len:"+el, c.IntS, s)
		ix := c.App("bag.idx:"+el, c.IntS, s, x)
		mem := c.App("bag.mem:"+el, c.Bool, b, x)
		as := c.Array(c.IntS, els)
		a, o, l := c.BVar("a", as), c.BVar("o", c.IntS), c.BVar("l", c.IntS)
		sa := c.App("seq:"+el, sq.S, a, o, l)
		sel := c.Select(a, i)
		c.Axiom(n,
			c.Forall([]*smt.Term{s, i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, ln)), c.App("bag.mem:"+el, c.Bool, b, at)), []*smt.Term{b, at}),
			c.Forall([]*smt.Term{s, x}, c.Implies(mem, c.And(c.Le(c.Int(0), ix), c.Lt(ix, ln), c.Eq(c.App("seq.at:"+el, els, s, ix), x))), []*smt.Term{mem}),
			c.Forall([]*smt.Term{s}, c.Eq(c.App("bag.card:"+el, c.IntS, b), ln), []*smt.Term{b}),
			c.Forall([]*smt.Term{a, o, l, i}, c.Implies(c.And(c.Le(o, i), c.Lt(i, c.Add(o, l))), c.App("bag.mem:"+el, c.Bool, c.App(n, bs, sa), sel)), []*smt.Term{c.App(n, bs, sa), sel}),
		)
	}
	return c.App(n, bs, sq)
}
