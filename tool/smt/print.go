package smt

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Mode selects how strings and floats are interpreted in a query.
type Mode struct {
	Strings bool // native string theory
	FP      bool // native floating point theory
	// NoExt leaves out that sequences with the same elements are the same, for
	// sequences whose order does not matter anyway.
	NoExt bool
}

func sym(n string) string {
	if strings.HasPrefix(n, "str.") {
		// not what solvers know by that name.
		n = "u" + n
	}
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '.' || r == '$') {
			return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|"
		}
	}
	return n
}

func plain(t *Term, d int) string {
	if d > 12 {
		return "…"
	}
	switch {
	case t.Op == "lit" && t.Int != nil:
		return t.Int.String()
	case t.Op == "lit" && t.S.Name == "Str":
		return strconv.Quote(t.Name)
	case t.Op == "lit" || t.Op == "var" || t.Op == "bvar":
		return t.Name
	}
	n := t.Op
	switch t.Op {
	case "app":
		n = t.Name
	case "sel":
		n = "." + t.Name
	case "mix":
		n = "mix" + t.Name
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, plain(a, d+1))
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

type printer struct {
	c      *Ctx
	m      Mode
	sorts  []*Sort
	sseen  map[string]bool
	consts map[string]*Sort
	corder []string
	funs   map[string]*FunDecl
	forder []string
	strs   map[string]*Term
	floats map[string]*Term
	lits   map[string]map[string]bool // sort -> names
	mixes  map[int]*Term
	shared map[int]string
	defs   []string
	extra  []*Term // axioms to add
	seen   map[int]bool
	axdone map[string]bool
	fb     map[int]map[*Term]bool
	regs   map[string]bool
}

// Query prints a satisfiability query over the assertions, including the
// axioms of the symbols that occur.
func (c *Ctx) Query(as []*Term, m Mode) string {
	p := &printer{c: c, m: m, sseen: map[string]bool{}, consts: map[string]*Sort{}, funs: map[string]*FunDecl{},
		strs: map[string]*Term{}, floats: map[string]*Term{}, lits: map[string]map[string]bool{}, mixes: map[int]*Term{},
		shared: map[int]string{}, seen: map[int]bool{}, axdone: map[string]bool{}, fb: map[int]map[*Term]bool{}, regs: map[string]bool{}}
	all := append([]*Term{}, as...)
	for i := 0; i < len(all); i++ {
		p.collect(all[i])
		all = append(all, p.extra...)
		p.extra = nil
	}
	// sharing.
	refs := map[int]int{}
	var count func(t *Term)
	var order []*Term
	count = func(t *Term) {
		refs[t.ID]++
		if refs[t.ID] > 1 {
			return
		}
		for _, a := range t.Args {
			count(a)
		}
		for _, pat := range t.Pats {
			for _, x := range pat {
				count(x)
			}
		}
		order = append(order, t)
	}
	for _, a := range all {
		count(a)
	}
	var defs []string
	for _, t := range order {
		if refs[t.ID] > 1 && len(t.Args) > 0 && !p.open(t) && t.Op != "mix" {
			d := fmt.Sprintf("(define-fun s!%d () %s %s)", t.ID, p.sortName(t.S), p.term(t, true))
			defs = append(defs, d)
			p.shared[t.ID] = fmt.Sprintf("s!%d", t.ID)
		}
	}
	var asserts []string
	for _, a := range all {
		asserts = append(asserts, "(assert "+p.term(a, false)+")")
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, s := range p.sorts {
		b.WriteString(p.sortDecl(s))
	}
	for _, n := range p.corder {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", sym(n), p.sortName(p.consts[n]))
	}
	for _, n := range p.forder {
		f := p.funs[n]
		var ss []string
		for _, a := range f.Args {
			ss = append(ss, p.sortName(a))
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", sym(n), strings.Join(ss, " "), p.sortName(f.Res))
	}
	p.literals(&b)
	mids := make([]int, 0)
	for id := range p.mixes {
		mids = append(mids, id)
	}
	sort.Ints(mids)
	for _, id := range mids {
		var ss []string
		for _, v := range p.mixVars(p.mixes[id]) {
			ss = append(ss, p.sortName(v.S))
		}
		fmt.Fprintf(&b, "(declare-fun mix!%d (%s) %s)\n", id, strings.Join(ss, " "), p.sortName(p.mixes[id].S))
	}
	for _, d := range defs {
		b.WriteString(d + "\n")
	}
	for _, id := range mids {
		t := p.mixes[id]
		var vs string
		for _, v := range p.mixVars(t) {
			vs += " (" + sym(v.Name) + " " + p.sortName(v.S) + ")"
		}
		m := p.term(t, false)
		fmt.Fprintf(&b, "(assert (forall ((mix!r Int)%s) (! (= (select %s mix!r) (ite (%s mix!r) (select %s mix!r) (select %s mix!r))) :pattern ((select %s mix!r)))))\n",
			vs, m, sym("inloop"+t.Name), p.term(t.Args[1], false), p.term(t.Args[0], false), m)
	}
	for _, a := range asserts {
		b.WriteString(a + "\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// open tells whether the term has bound variables that are bound by an
// enclosing quantifier of the query. Free occurrences outside of quantifiers
// are printed as constants, so a term with bound variables is never shared.
func (p *printer) open(t *Term) bool { return t.Bound }

func (p *printer) collect(t *Term) {
	if p.seen[t.ID] {
		return
	}
	p.seen[t.ID] = true
	p.needSort(t.S)
	for _, a := range t.Args {
		p.collect(a)
	}
	for _, pat := range t.Pats {
		for _, x := range pat {
			p.collect(x)
		}
	}
	switch t.Op {
	case "lit":
		if t.Int != nil {
			return
		}
		switch t.S.Name {
		case "Bool", "Int", "Real":
		case "Str":
			p.strs[t.Name] = t
			p.axiom("lit:Str")
		case "F32", "F64":
			p.floats[t.S.Name+":"+t.Name] = t
		default:
			if p.lits[t.S.Name] == nil {
				p.lits[t.S.Name] = map[string]bool{}
			}
			p.lits[t.S.Name][t.Name] = true
			p.axiom("lit:" + t.S.Name)
		}
	case "var":
		p.constant(t.Name, t.S)
		p.axiom(t.Name)
	case "bvar":
		p.constant(t.Name, t.S)
	case "app":
		if !p.native(t) {
			if _, ok := p.funs[t.Name]; !ok {
				p.funs[t.Name] = p.c.funs[t.Name]
				p.forder = append(p.forder, t.Name)
			}
		}
		p.axiom(t.Name)
	case "mix":
		p.mixes[t.ID] = t
		n := "inloop" + t.Name
		if _, ok := p.funs[n]; !ok {
			p.funs[n] = &FunDecl{n, []*Sort{p.c.IntS}, p.c.Bool}
			p.forder = append(p.forder, n)
		}
		p.axiom(n)
	}
}

func (p *printer) axiom(n string) {
	if p.axdone[n] {
		return
	}
	p.axdone[n] = true
	p.extra = append(p.extra, p.c.axioms[n]...)
	if el, ok := strings.CutPrefix(n, "seq:"); ok {
		if p.m.NoExt && len(p.c.axioms["bag:"+el]) > 0 {
			return
		}
		p.extra = append(p.extra, p.c.axioms["ext:"+n]...)
	}
}

func (p *printer) constant(n string, s *Sort) {
	if _, ok := p.consts[n]; !ok {
		p.consts[n] = s
		p.corder = append(p.corder, n)
	}
}

func (p *printer) needSort(s *Sort) {
	if p.sseen[s.Name] {
		return
	}
	p.sseen[s.Name] = true
	if s.Key != nil {
		p.needSort(s.Key)
		p.needSort(s.Elem)
		return
	}
	for _, f := range s.Fields {
		p.needSort(f.Sort)
	}
	p.sorts = append(p.sorts, s)
}

func (p *printer) sortName(s *Sort) string {
	if s.Key != nil {
		return "(Array " + p.sortName(s.Key) + " " + p.sortName(s.Elem) + ")"
	}
	switch s.Name {
	case "Str":
		if p.m.Strings {
			return "String"
		}
	case "F32":
		if p.m.FP {
			return "(_ FloatingPoint 8 24)"
		}
	case "F64":
		if p.m.FP {
			return "(_ FloatingPoint 11 53)"
		}
	}
	return sym(s.Name)
}

func (p *printer) sortDecl(s *Sort) string {
	switch s.Name {
	case "Bool", "Int", "Real":
		return ""
	case "Str":
		if p.m.Strings {
			return ""
		}
	case "F32", "F64":
		if p.m.FP {
			return ""
		}
	}
	if s.Ctor == "" {
		return fmt.Sprintf("(declare-sort %s 0)\n", sym(s.Name))
	}
	var fs []string
	for _, f := range s.Fields {
		fs = append(fs, fmt.Sprintf("(%s %s)", sym(s.Name+"."+f.Name), p.sortName(f.Sort)))
	}
	return fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))\n", sym(s.Name), sym(s.Ctor), strings.Join(fs, " "))
}

func (p *printer) litName(t *Term) string {
	switch t.S.Name {
	case "Str":
		return "|lit:" + strings.NewReplacer("|", "_", "\\", "_").Replace(strconv.Quote(t.Name)) + "|"
	case "F32", "F64":
		return "|" + t.S.Name + ":" + t.Name + "|"
	}
	return sym("lit:" + t.S.Name + ":" + t.Name)
}

func (p *printer) literals(b *strings.Builder) {
	keys := func(m map[string]*Term) []string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	if !p.m.Strings {
		var ns []string
		for _, k := range keys(p.strs) {
			n := p.litName(p.strs[k])
			fmt.Fprintf(b, "(declare-const %s Str)\n", n)
			ns = append(ns, n)
			if _, ok := p.funs["str.len"]; ok {
				fmt.Fprintf(b, "(assert (= (ustr.len %s) %d))\n", n, len(k))
			}
		}
		if len(ns) > 1 {
			fmt.Fprintf(b, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
	if !p.m.FP {
		for _, k := range keys(p.floats) {
			t := p.floats[k]
			n := p.litName(t)
			fmt.Fprintf(b, "(declare-const %s %s)\n", n, t.S.Name)
			f, _ := strconv.ParseFloat(t.Name, 64)
			pre := strings.ToLower(t.S.Name)
			if _, ok := p.funs[pre+".val"]; ok && f == f && !math.IsInf(f, 0) {
				r := new(big.Rat)
				if r.SetFloat64(f) == nil {
					r.SetInt64(0)
				}
				v := fmt.Sprintf("(/ %s.0 %s.0)", new(big.Int).Abs(r.Num()), r.Denom())
				if r.Sign() < 0 {
					v = "(- " + v + ")"
				}
				fmt.Fprintf(b, "(assert (= (%s.val %s) %s))\n", pre, n, v)
			}
			if _, ok := p.funs[pre+".fin"]; ok && f == f && !math.IsInf(f, 0) {
				fmt.Fprintf(b, "(assert (%s.fin %s))\n", pre, n)
			}
			if _, ok := p.funs[pre+".nan"]; ok {
				fmt.Fprintf(b, "(assert (= (%s.nan %s) %v))\n", pre, n, f != f)
			}
		}
	}
	var ss []string
	for s := range p.lits {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		var ns []string
		for n := range p.lits[s] {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for i, n := range ns {
			ns[i] = sym("lit:" + s + ":" + n)
			fmt.Fprintf(b, "(declare-const %s %s)\n", ns[i], sym(s))
		}
		if len(ns) > 1 {
			fmt.Fprintf(b, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '"':
			b.WriteString(`""`)
		case ch == '\\' || ch < 32 || ch > 126:
			fmt.Fprintf(&b, "\\u{%x}", ch)
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var nativeStr = map[string]bool{
	"str.len": true, "str.concat": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true,
	"str.at": true, "str.slice": true, "strings.Index": true, "str.lt": true, "strings.ReplaceAll": true, "str.inre": true,
}

var nativeFP = map[string]bool{
	"f32.mul": true, "f32.div": true, "f32.add": true, "f32.sub": true, "f64.mul": true, "f64.div": true, "f64.add": true, "f64.sub": true,
	"f32.lt": true, "f32.le": true, "f32.eq": true, "f64.lt": true, "f64.le": true, "f64.eq": true, "f32.isnan": true, "f64.isnan": true,
	"f32to64": true, "f64to32": true, "math.Round": true, "math.Abs": true, "f32.neg": true, "f64.neg": true,
}

func (p *printer) native(t *Term) bool {
	if p.m.Strings && nativeStr[t.Name] {
		return true
	}
	return p.m.FP && nativeFP[t.Name]
}

func (p *printer) term(t *Term, def bool) string {
	if !def {
		if n, ok := p.shared[t.ID]; ok {
			return n
		}
	}
	switch t.Op {
	case "lit":
		if t.Int != nil {
			if t.Int.Sign() < 0 {
				return "(- " + new(big.Int).Neg(t.Int).String() + ")"
			}
			return t.Int.String()
		}
		switch t.S.Name {
		case "Bool", "Real":
			return t.Name
		case "Str":
			if p.m.Strings {
				return smtString(t.Name)
			}
		case "F32", "F64":
			if p.m.FP {
				return fpLit(t)
			}
		}
		return p.litName(t)
	case "var", "bvar":
		return sym(t.Name)
	case "mix":
		vs := p.mixVars(t)
		if len(vs) == 0 {
			return fmt.Sprintf("mix!%d", t.ID)
		}
		var ns []string
		for _, v := range vs {
			ns = append(ns, sym(v.Name))
		}
		return fmt.Sprintf("(mix!%d %s)", t.ID, strings.Join(ns, " "))
	case "forall":
		var vs []string
		for _, v := range t.Args[:len(t.Args)-1] {
			vs = append(vs, "("+sym(v.Name)+" "+p.sortName(v.S)+")")
		}
		body := p.body(t)
		if len(t.Pats) > 0 {
			var ps []string
			for _, pat := range t.Pats {
				var xs []string
				for _, x := range pat {
					xs = append(xs, p.flat(x))
				}
				ps = append(ps, ":pattern ("+strings.Join(xs, " ")+")")
			}
			body = "(! " + body + " " + strings.Join(ps, " ") + ")"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, p.term(a, false))
	}
	j := strings.Join(as, " ")
	switch t.Op {
	case "app":
		if p.native(t) {
			return p.nativeTerm(t, as)
		}
		return "(" + sym(t.Name) + " " + j + ")"
	case "ctor":
		if len(as) == 0 {
			return sym(t.S.Ctor)
		}
		return "(" + sym(t.S.Ctor) + " " + j + ")"
	case "sel":
		return "(" + sym(t.Name) + " " + j + ")"
	case "constarray":
		return "((as const " + p.sortName(t.S) + ") " + j + ")"
	}
	return "(" + t.Op + " " + j + ")"
}

// mixVars are the bound variables that occur free in a mix.
func (p *printer) mixVars(t *Term) []*Term {
	if !t.Bound {
		return nil
	}
	var vs []*Term
	for v := range p.free(t) {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
	return vs
}

// flat prints a pattern: shared subterms are still fine, as they are closed.
func (p *printer) flat(t *Term) string { return p.term(t, false) }

// body prints the body of a quantifier, with let bindings for the subterms that
// occur more than once.
func (p *printer) body(q *Term) string {
	body := q.Args[len(q.Args)-1]
	refs := map[int]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.Bound {
			return
		}
		if _, ok := p.shared[t.ID]; ok {
			return
		}
		refs[t.ID]++
		if refs[t.ID] > 1 {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		order = append(order, t)
	}
	walk(body)
	inner := map[*Term]bool{}
	for _, t := range order {
		if t.Op == "forall" {
			for _, v := range t.Args[:len(t.Args)-1] {
				inner[v] = true
			}
		}
	}
	var lets []string
	var undo []int
	for _, t := range order {
		if refs[t.ID] < 2 || len(t.Args) == 0 || t == body {
			continue
		}
		ok := true
		for v := range p.free(t) {
			if inner[v] {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		s := p.term(t, true)
		if len(s) < 24 {
			continue
		}
		n := fmt.Sprintf("l!%d", t.ID)
		lets = append(lets, fmt.Sprintf("(let ((%s %s)) ", n, s))
		p.shared[t.ID] = n
		undo = append(undo, t.ID)
	}
	s := p.term(body, false)
	for _, id := range undo {
		delete(p.shared, id)
	}
	return strings.Join(lets, "") + s + strings.Repeat(")", len(lets))
}

func (p *printer) free(t *Term) map[*Term]bool {
	if m, ok := p.fb[t.ID]; ok {
		return m
	}
	m := p.c.freeBound(t)
	p.fb[t.ID] = m
	return m
}
