// Package smt holds hash-consed SMT terms with simplifying constructors, and
// the printing of queries to SMT-LIB.
package smt

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort.
type Sort struct {
	Name   string
	Key    *Sort // arrays
	Elem   *Sort
	Ctor   string // datatypes
	Fields []Field
}

// Field is a field of a datatype sort.
type Field struct {
	Name string
	Sort *Sort
}

func (s *Sort) String() string { return s.Name }

// IsArray tells whether the sort is an array sort.
func (s *Sort) IsArray() bool { return s.Key != nil }

// Term is an immutable, hash-consed term.
type Term struct {
	Op    string // "lit", "var", "bvar", "app" (uninterpreted), or an interpreted operator
	S     *Sort
	Args  []*Term
	Name  string
	Int   *big.Int // integer literals
	ID    int
	Bound bool      // has free bound variables
	Fr    bool      // mentions a symbol introduced after function entry
	Pats  [][]*Term // forall
}

// Ctx owns terms.
type Ctx struct {
	terms   map[string]*Term
	next    int
	sorts   map[string]*Sort
	funs    map[string]*FunDecl
	axioms  map[string][]*Term // by symbol
	selMemo map[[2]int]*Term

	Bool, IntS, Str, F32, F64, Ifc, Fn, Slc *Sort
	True, False                             *Term
}

// FunDecl is the declaration of an uninterpreted function.
type FunDecl struct {
	Name string
	Args []*Sort
	Res  *Sort
}

// NewCtx creates a term context.
func NewCtx() *Ctx {
	c := &Ctx{terms: map[string]*Term{}, sorts: map[string]*Sort{}, funs: map[string]*FunDecl{}, axioms: map[string][]*Term{}, selMemo: map[[2]int]*Term{}}
	c.Bool = c.sort("Bool")
	c.IntS = c.sort("Int")
	c.Str = c.sort("Str")
	c.F32 = c.sort("F32")
	c.F64 = c.sort("F64")
	c.Ifc = c.sort("Ifc")
	c.Fn = c.sort("Fn")
	c.Slc = c.Datatype("Slc", []Field{{"base", c.IntS}, {"off", c.IntS}, {"len", c.IntS}, {"cap", c.IntS}})
	c.True = c.mk(&Term{Op: "lit", S: c.Bool, Name: "true"})
	c.False = c.mk(&Term{Op: "lit", S: c.Bool, Name: "false"})
	return c
}

func (c *Ctx) sort(n string) *Sort {
	if s, ok := c.sorts[n]; ok {
		return s
	}
	s := &Sort{Name: n}
	c.sorts[n] = s
	return s
}

// Opaque gives an uninterpreted sort.
func (c *Ctx) Opaque(n string) *Sort { return c.sort(n) }

// Array gives an array sort.
func (c *Ctx) Array(k, e *Sort) *Sort {
	n := "(Array " + k.Name + " " + e.Name + ")"
	if s, ok := c.sorts[n]; ok {
		return s
	}
	s := &Sort{Name: n, Key: k, Elem: e}
	c.sorts[n] = s
	return s
}

// Datatype gives a single-constructor datatype sort.
func (c *Ctx) Datatype(n string, fs []Field) *Sort {
	if s, ok := c.sorts[n]; ok {
		return s
	}
	s := &Sort{Name: n, Ctor: "mk_" + n, Fields: fs}
	c.sorts[n] = s
	return s
}

// LookupSort finds a declared sort.
func (c *Ctx) LookupSort(n string) *Sort { return c.sorts[n] }

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.S.Name)
	b.WriteByte('|')
	b.WriteString(t.Name)
	if t.Int != nil {
		b.WriteByte('#')
		b.WriteString(t.Int.String())
	}
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
		if a.Bound {
			t.Bound = true
		}
	}
	if t.Op == "bvar" {
		t.Bound = true
	}
	switch t.Op {
	case "var", "app":
		t.Fr = t.Fr || strings.Contains(t.Name, "!") && !strings.HasPrefix(t.Name, "frozen!")
	}
	for _, a := range t.Args {
		t.Fr = t.Fr || a.Fr
	}
	k := b.String()
	if o, ok := c.terms[k]; ok {
		return o
	}
	c.next++
	t.ID = c.next
	c.terms[k] = t
	return t
}

// Var is a free constant.
func (c *Ctx) Var(n string, s *Sort) *Term { return c.mk(&Term{Op: "var", S: s, Name: n}) }

// Fresh is a new free constant.
func (c *Ctx) Fresh(n string, s *Sort) *Term {
	c.next++
	return c.Var(fmt.Sprintf("%s!%d", n, c.next), s)
}

// BVar is a new bound variable.
func (c *Ctx) BVar(n string, s *Sort) *Term {
	c.next++
	return c.mk(&Term{Op: "bvar", S: s, Name: fmt.Sprintf("%s?%d", n, c.next)})
}

// Int is an integer literal.
func (c *Ctx) Int(i int64) *Term { return c.BigInt(big.NewInt(i)) }

// BigInt is an integer literal.
func (c *Ctx) BigInt(i *big.Int) *Term {
	return c.mk(&Term{Op: "lit", S: c.IntS, Int: new(big.Int).Set(i)})
}

// BoolLit is a boolean literal.
func (c *Ctx) BoolLit(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// StrLit is a string literal.
func (c *Ctx) StrLit(s string) *Term { return c.mk(&Term{Op: "lit", S: c.Str, Name: s}) }

// FloatLit is a floating point literal.
func (c *Ctx) FloatLit(v float64, s *Sort) *Term {
	return c.mk(&Term{Op: "lit", S: s, Name: strconv.FormatFloat(v, 'g', -1, 64)})
}

// FnLit is a function constant.
func (c *Ctx) FnLit(n string) *Term { return c.mk(&Term{Op: "lit", S: c.Fn, Name: n}) }

// IfcLit is an interface constant, distinct from every other such constant.
func (c *Ctx) IfcLit(n string) *Term { return c.mk(&Term{Op: "lit", S: c.Ifc, Name: n}) }

// IsLit tells whether the term is a literal.
func (t *Term) IsLit() bool { return t.Op == "lit" }

// IsTrue tells whether the term is the literal true.
func (t *Term) IsTrue() bool { return t.Op == "lit" && t.S.Name == "Bool" && t.Name == "true" }

// IsFalse tells whether the term is the literal false.
func (t *Term) IsFalse() bool { return t.Op == "lit" && t.S.Name == "Bool" && t.Name == "false" }

// Declare declares an uninterpreted function.
func (c *Ctx) Declare(n string, res *Sort, args ...*Sort) *FunDecl {
	if f, ok := c.funs[n]; ok {
		if len(f.Args) != len(args) || f.Res != res {
			panic("redeclared " + n)
		}
		return f
	}
	f := &FunDecl{n, args, res}
	c.funs[n] = f
	return f
}

// App applies an uninterpreted function, declaring it if needed.
func (c *Ctx) App(n string, res *Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Var(n, res)
	}
	f, ok := c.funs[n]
	if !ok {
		ss := make([]*Sort, len(args))
		for i, a := range args {
			ss[i] = a.S
		}
		f = c.Declare(n, res, ss...)
	}
	if len(f.Args) != len(args) || f.Res != res {
		panic(fmt.Sprintf("bad application of %s: %d args", n, len(args)))
	}
	for i := range args {
		if args[i].S != f.Args[i] {
			panic(fmt.Sprintf("bad application of %s: arg %d has sort %s, want %s", n, i, args[i].S.Name, f.Args[i].Name))
		}
	}
	return c.mk(&Term{Op: "app", S: res, Name: n, Args: args})
}

// HasAxioms tells whether axioms are registered for the symbol.
func (c *Ctx) HasAxioms(sym string) bool { _, ok := c.axioms[sym]; return ok }

// Axiom registers an axiom that is asserted whenever the symbol occurs.
func (c *Ctx) Axiom(sym string, ts ...*Term) { c.axioms[sym] = append(c.axioms[sym], ts...) }

// ---------------------------------------------------------------- booleans

// Not negates.
func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.IsTrue():
		return c.False
	case a.IsFalse():
		return c.True
	case a.Op == "not":
		return a.Args[0]
	}
	return c.mk(&Term{Op: "not", S: c.Bool, Args: []*Term{a}})
}

// And conjoins.
func (c *Ctx) And(as ...*Term) *Term { return c.nary("and", as) }

// Or disjoins.
func (c *Ctx) Or(as ...*Term) *Term { return c.nary("or", as) }

func (c *Ctx) nary(op string, as []*Term) *Term {
	unit, zero := c.True, c.False
	if op == "or" {
		unit, zero = c.False, c.True
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit || seen[a.ID] {
			return true
		}
		if a == zero {
			return false
		}
		if a.Op == op {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a).ID] {
			return false
		}
		seen[a.ID] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return c.mk(&Term{Op: op, S: c.Bool, Args: out})
}

// Implies is implication.
func (c *Ctx) Implies(a, b *Term) *Term {
	if a.IsTrue() {
		return b
	}
	if a.IsFalse() || b.IsTrue() || a == b {
		return c.True
	}
	if b.IsFalse() {
		return c.Not(a)
	}
	return c.mk(&Term{Op: "=>", S: c.Bool, Args: []*Term{a, b}})
}

// Ite is if-then-else.
func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsTrue() || a == b {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if cond.Op == "not" {
		return c.Ite(cond.Args[0], b, a)
	}
	if a.S == c.Bool {
		switch {
		case a.IsTrue():
			return c.Or(cond, b)
		case a.IsFalse():
			return c.And(c.Not(cond), b)
		case b.IsTrue():
			return c.Or(c.Not(cond), a)
		case b.IsFalse():
			return c.And(cond, a)
		}
	}
	if a.S != b.S {
		panic("ite sorts " + a.S.Name + " " + b.S.Name)
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = c.Ite(cond, a.Args[i], b.Args[i])
		}
		return c.Ctor(a.S, args...)
	}
	return c.mk(&Term{Op: "ite", S: a.S, Args: []*Term{cond, a, b}})
}

// Known decides equality where that is syntactically evident: 1 equal, 0
// distinct, -1 unknown.
func (c *Ctx) Known(a, b *Term) int {
	if a == b {
		return 1
	}
	if a.S == c.IntS {
		la, lb := c.lin(a), c.lin(b)
		d := la.sub(lb)
		if len(d.co) == 0 {
			if d.k.Sign() == 0 {
				return 1
			}
			return 0
		}
		// references allocated at different levels are distinct.
		ra, rb := allocRoot(la), allocRoot(lb)
		if ra != nil && rb != nil {
			if ra.Name != rb.Name {
				return 0
			}
			return -1
		}
		// an allocated reference is never nil, never one that existed at
		// function entry, and never a frozen one.
		if ra != nil && notAlloc(b) || rb != nil && notAlloc(a) {
			return 0
		}
		return -1
	}
	if a.IsLit() && b.IsLit() {
		return 0
	}
	ab, bb := isBox(a), isBox(b)
	if ab && bb {
		if a.Name != b.Name {
			return 0
		}
		if len(a.Args) == 1 {
			return c.Known(a.Args[0], b.Args[0])
		}
		return -1
	}
	if ab && b.IsLit() || bb && a.IsLit() {
		return 0
	}
	return -1
}

// isBox tells whether the term is a known constructor: a boxed value, or a
// closure.
func isBox(t *Term) bool {
	return t.Op == "app" && (strings.HasPrefix(t.Name, "box:") || strings.HasPrefix(t.Name, "clofn:"))
}

func notAlloc(t *Term) bool {
	if !t.Fr {
		return true
	}
	return t.Op == "app" && strings.HasPrefix(t.Name, "frozen!")
}

func allocRoot(l lin) *Term {
	if len(l.co) != 1 || l.k.Sign() != 0 {
		return nil
	}
	for _, e := range l.co {
		if (e.t.Op == "var" || e.t.Op == "app") && strings.HasPrefix(e.t.Name, "alloc!") && e.c.Cmp(big.NewInt(1)) == 0 {
			return e.t
		}
	}
	return nil
}

// IsAllocRef tells whether the term denotes a reference allocated by the code
// under verification.
func (c *Ctx) IsAllocRef(t *Term) bool { return allocRoot(c.lin(t)) != nil }

// Eq is equality.
func (c *Ctx) Eq(a, b *Term) *Term {
	if a.S != b.S {
		panic("eq sorts " + a.S.Name + " " + b.S.Name)
	}
	switch c.Known(a, b) {
	case 1:
		return c.True
	case 0:
		return c.False
	}
	if a.S == c.Bool {
		switch {
		case a.IsTrue():
			return b
		case b.IsTrue():
			return a
		case a.IsFalse():
			return c.Not(b)
		case b.IsFalse():
			return c.Not(a)
		}
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	if isBox(a) && isBox(b) && a.Name == b.Name && strings.HasPrefix(a.Name, "box:") {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if b.Op == "ite" && (a.IsLit() || isBox(a)) {
		a, b = b, a
	}
	if a.Op == "ite" && (b.IsLit() || isBox(b)) {
		x, y := c.Known(a.Args[1], b), c.Known(a.Args[2], b)
		if x >= 0 || y >= 0 {
			return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: "=", S: c.Bool, Args: []*Term{a, b}})
}

// ---------------------------------------------------------------- integers

type linEntry struct {
	t *Term
	c *big.Int
}
type lin struct {
	co map[int]linEntry
	k  *big.Int
}

func (l lin) add(t *Term, k *big.Int) {
	e, ok := l.co[t.ID]
	if !ok {
		e = linEntry{t, new(big.Int)}
	}
	n := new(big.Int).Add(e.c, k)
	if n.Sign() == 0 {
		delete(l.co, t.ID)
	} else {
		l.co[t.ID] = linEntry{t, n}
	}
}
func (l lin) sub(o lin) lin {
	r := lin{map[int]linEntry{}, new(big.Int).Sub(l.k, o.k)}
	for _, e := range l.co {
		r.add(e.t, e.c)
	}
	for _, e := range o.co {
		r.add(e.t, new(big.Int).Neg(e.c))
	}
	return r
}

func (c *Ctx) lin(t *Term) lin {
	r := lin{map[int]linEntry{}, new(big.Int)}
	c.linInto(t, big.NewInt(1), r)
	return r
}
func (c *Ctx) linInto(t *Term, k *big.Int, r lin) {
	switch {
	case t.IsLit():
		r.k.Add(r.k, new(big.Int).Mul(k, t.Int))
	case t.Op == "+":
		for _, a := range t.Args {
			c.linInto(a, k, r)
		}
	case t.Op == "*" && t.Args[0].IsLit():
		c.linInto(t.Args[1], new(big.Int).Mul(k, t.Args[0].Int), r)
	default:
		r.add(t, k)
	}
}
func (c *Ctx) unlin(l lin) *Term {
	ids := make([]int, 0, len(l.co))
	for id := range l.co {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		e := l.co[id]
		if e.c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, e.t)
		} else {
			args = append(args, c.mk(&Term{Op: "*", S: c.IntS, Args: []*Term{c.BigInt(e.c), e.t}}))
		}
	}
	if l.k.Sign() != 0 || len(args) == 0 {
		args = append(args, c.BigInt(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk(&Term{Op: "+", S: c.IntS, Args: args})
}

// Add adds.
func (c *Ctx) Add(a, b *Term) *Term {
	r := c.lin(a)
	c.linInto(b, big.NewInt(1), r)
	return c.unlin(r)
}

// Sub subtracts.
func (c *Ctx) Sub(a, b *Term) *Term {
	r := c.lin(a)
	c.linInto(b, big.NewInt(-1), r)
	return c.unlin(r)
}

// Mul multiplies.
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.IsLit() {
		a, b = b, a
	}
	if a.IsLit() {
		r := lin{map[int]linEntry{}, new(big.Int)}
		c.linInto(b, a.Int, r)
		return c.unlin(r)
	}
	return c.mk(&Term{Op: "*", S: c.IntS, Args: []*Term{a, b}})
}

// Le is a <= b.
func (c *Ctx) Le(a, b *Term) *Term {
	d := c.lin(b).sub(c.lin(a))
	if len(d.co) == 0 {
		return c.BoolLit(d.k.Sign() >= 0)
	}
	return c.mk(&Term{Op: "<=", S: c.Bool, Args: []*Term{a, b}})
}

// Lt is a < b.
func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }

// ---------------------------------------------------------------- datatypes

// Ctor builds a datatype value.
func (c *Ctx) Ctor(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("ctor " + s.Name)
	}
	// mk(sel0(x), sel1(x), ...) is x.
	if len(args) > 0 && args[0].Op == "sel" && args[0].Int.Sign() == 0 && args[0].Args[0].S == s {
		x := args[0].Args[0]
		same := true
		for i, a := range args {
			if a.Op != "sel" || a.Args[0] != x || a.Int.Int64() != int64(i) {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	for i, a := range args {
		if a.S != s.Fields[i].Sort {
			panic(fmt.Sprintf("ctor %s field %d: %s, want %s", s.Name, i, a.S.Name, s.Fields[i].Sort.Name))
		}
	}
	return c.mk(&Term{Op: "ctor", S: s, Args: args})
}

// Sel selects a field of a datatype value.
func (c *Ctx) Sel(x *Term, i int) *Term {
	if x.Op == "ctor" {
		return x.Args[i]
	}
	if x.Op == "ite" {
		return c.Ite(x.Args[0], c.Sel(x.Args[1], i), c.Sel(x.Args[2], i))
	}
	f := x.S.Fields[i]
	return c.mk(&Term{Op: "sel", S: f.Sort, Name: x.S.Name + "." + f.Name, Int: big.NewInt(int64(i)), Args: []*Term{x}})
}

// With replaces a field of a datatype value.
func (c *Ctx) With(x *Term, i int, v *Term) *Term {
	args := make([]*Term, len(x.S.Fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = c.Sel(x, j)
		}
	}
	return c.Ctor(x.S, args...)
}

// ---------------------------------------------------------------- arrays

// ConstArray is the array that maps every index to v.
func (c *Ctx) ConstArray(s *Sort, v *Term) *Term {
	return c.mk(&Term{Op: "constarray", S: s, Args: []*Term{v}})
}

// Select reads an array.
func (c *Ctx) Select(a, i *Term) *Term {
	if !a.S.IsArray() || a.S.Key != i.S {
		panic("select " + a.S.Name + " " + i.S.Name)
	}
	for {
		if a.Op == "constarray" {
			return a.Args[0]
		}
		if a.Op == "mix" {
			switch c.inLoop(i, a.Name) {
			case 0:
				a = a.Args[0]
				continue
			case 1:
				a = a.Args[1]
				continue
			}
			break
		}
		if a.Op == "ite" && (pushes(a.Args[1]) || pushes(a.Args[2])) {
			key := [2]int{a.ID, i.ID}
			if r, ok := c.selMemo[key]; ok {
				return r
			}
			x, y := c.Select(a.Args[1], i), c.Select(a.Args[2], i)
			r := c.Ite(a.Args[0], x, y)
			c.selMemo[key] = r
			return r
		}
		if a.Op != "store" {
			break
		}
		k := c.Known(a.Args[1], i)
		if k == 1 {
			return a.Args[2]
		}
		if k == 0 {
			a = a.Args[0]
			continue
		}
		break
	}
	return c.mk(&Term{Op: "select", S: a.S.Elem, Args: []*Term{a, i}})
}

func pushes(t *Term) bool {
	return t.Op == "store" || t.Op == "constarray" || t.Op == "mix" || t.Op == "ite"
}

// Mix is the array that agrees with n on the references that were allocated in
// an iteration of the loop, and with o everywhere else.
func (c *Ctx) Mix(o, n *Term, loop string) *Term {
	if o == n {
		return o
	}
	if n := "inloop" + loop; !c.HasAxioms(n) {
		r := c.BVar("r", c.IntS)
		x := c.App(n, c.Bool, r)
		c.Axiom(n, c.Forall([]*Term{r}, c.Implies(x, c.Lt(r, c.Int(0))), []*Term{x}))
	}
	return c.mk(&Term{Op: "mix", Name: loop, S: o.S, Args: []*Term{o, n}})
}

// inLoop tells whether the reference was allocated in an iteration of the loop:
// 1 yes, 0 no, -1 unknown.
func (c *Ctx) inLoop(r *Term, loop string) int {
	if notAlloc(r) {
		return 0
	}
	if a := allocRoot(c.lin(r)); a != nil {
		if strings.Contains(a.Name, loop) {
			return 1
		}
		return 0
	}
	return -1
}

// Store writes an array.
func (c *Ctx) Store(a, i, v *Term) *Term {
	if !a.S.IsArray() || a.S.Key != i.S || a.S.Elem != v.S {
		panic("store " + a.S.Name + " " + i.S.Name + " " + v.S.Name)
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	// canonicalize: sort stores on provably distinct literal indices.
	if a.Op == "store" && c.Known(a.Args[1], i) == 0 && a.Args[1].ID > i.ID {
		return c.mk(&Term{Op: "store", S: a.S, Args: []*Term{c.Store(a.Args[0], i, v), a.Args[1], a.Args[2]}})
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk(&Term{Op: "store", S: a.S, Args: []*Term{a, i, v}})
}

// ---------------------------------------------------------------- generic interpreted operators

// Op builds an interpreted operator application.
func (c *Ctx) Op(op string, s *Sort, args ...*Term) *Term {
	return c.mk(&Term{Op: op, S: s, Args: args})
}

// OpN is Op with a name parameter.
func (c *Ctx) OpN(op, name string, s *Sort, args ...*Term) *Term {
	return c.mk(&Term{Op: op, Name: name, S: s, Args: args})
}

// ---------------------------------------------------------------- quantifiers

// Forall quantifies universally.
func (c *Ctx) Forall(vs []*Term, body *Term, pats ...[]*Term) *Term {
	if body.IsTrue() || body.IsFalse() {
		return body
	}
	var used []*Term
	for _, v := range vs {
		if Occurs(v, body) {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	return c.quant("forall", used, body, pats)
}

// Exists quantifies existentially.
func (c *Ctx) Exists(vs []*Term, body *Term) *Term { return c.Not(c.Forall(vs, c.Not(body))) }

func (c *Ctx) quant(op string, vs []*Term, body *Term, pats [][]*Term) *Term {
	args := append(append([]*Term{}, vs...), body)
	name := strconv.Itoa(len(vs))
	for _, p := range pats {
		name += ";"
		for _, t := range p {
			name += fmt.Sprintf(" %d", t.ID)
		}
	}
	t := c.mk(&Term{Op: op, S: c.Bool, Args: args, Name: name, Pats: pats})
	t.Bound = len(c.freeBound(t)) > 0
	return t
}

func (c *Ctx) freeBound(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[int]bool{}
	var walk func(t *Term, bound map[*Term]bool)
	walk = func(t *Term, bound map[*Term]bool) {
		if !t.Bound && t.Op != "forall" {
			return
		}
		if seen[t.ID] && t.Op != "bvar" {
			return
		}
		seen[t.ID] = true
		if t.Op == "bvar" {
			if !bound[t] {
				out[t] = true
			}
			return
		}
		if t.Op == "forall" {
			b := map[*Term]bool{}
			for k := range bound {
				b[k] = true
			}
			for _, v := range t.Args[:len(t.Args)-1] {
				b[v] = true
			}
			walk(t.Args[len(t.Args)-1], b)
			return
		}
		for _, a := range t.Args {
			walk(a, bound)
		}
	}
	walk(t, map[*Term]bool{})
	return out
}

// FreeBound gives the bound variables that occur free in the term.
func (c *Ctx) FreeBound(t *Term) map[*Term]bool { return c.freeBound(t) }

// Occurs tells whether x occurs in t.
func Occurs(x, t *Term) bool {
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// Subst replaces terms.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t.ID]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = walk(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = c.rebuild(t, args, walk)
		}
		memo[t.ID] = r
		return r
	}
	return walk(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term, walk func(*Term) *Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(args[0])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "=>":
		return c.Implies(args[0], args[1])
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "=":
		return c.Eq(args[0], args[1])
	case "<=":
		return c.Le(args[0], args[1])
	case "+":
		r := c.Int(0)
		for _, a := range args {
			r = c.Add(r, a)
		}
		return r
	case "*":
		return c.Mul(args[0], args[1])
	case "ctor":
		return c.Ctor(t.S, args...)
	case "sel":
		return c.Sel(args[0], int(t.Int.Int64()))
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "mix":
		return c.Mix(args[0], args[1], t.Name)
	case "forall":
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, walk(x))
			}
			pats = append(pats, q)
		}
		return c.Forall(args[:len(args)-1], args[len(args)-1], pats...)
	}
	return c.mk(&Term{Op: t.Op, S: t.S, Name: t.Name, Int: t.Int, Args: args})
}

func (t *Term) String() string {
	s := plain(t, 0)
	if len(s) > 2000 {
		s = s[:2000] + "…"
	}
	return s
}
