package main

import (
	"fmt"
	"go/types"
	"math"
	"net/textproto"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/tool/smt"
)

// Models of functions outside of the repository. Each of them is part of the
// trusted base, and is listed in the evidence of the checks that use it.

type model func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val)
type ifaceModel func(e *Engine, st *State, recv *smt.Term, args []Val) (*State, []Val)

var models map[string]model
var ifaceModels map[string]ifaceModel
var externalFacts map[string]func(e *Engine, st *State, args []Val, rs []Val, ins []*smt.Term)

// purePkgs are the packages whose functions are functions of their arguments.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "math": true, "mime": true, "net/url": true, "unicode": true, "unicode/utf8": true,
	"golang.org/x/text/language": true, "encoding/json": true, "encoding/xml": true, "gopkg.in/yaml.v2": true,
	"net/textproto": true, "path": true, "cmp": true, "regexp": true,
	"github.com/stretchr/stew/slice": true,
}

func pureExternal(name string) bool {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	i := strings.LastIndex(n, "/")
	j := strings.Index(n[i+1:], ".")
	if j < 0 {
		return false
	}
	pkg := n[:i+1+j]
	switch {
	case purePkgs[pkg]:
		return true
	case pkg == "fmt":
		return strings.HasPrefix(n, "fmt.Sprint")
	case pkg == "net/http":
		return n == "net/http.StatusText" || n == "net/http.CanonicalHeaderKey"
	case pkg == "go.uber.org/zap":
		// constructors of log fields.
		return !strings.HasPrefix(name, "(")
	}
	return false
}

// noop is a function without an effect that counts.
func noop(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
	var out []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		out = append(out, e.zero(fn.Signature.Results().At(i).Type()))
	}
	return st, out
}

func (e *Engine) newError(st *State, typ string) Val {
	pk, name := typ[:strings.LastIndex(typ, ".")], typ[strings.LastIndex(typ, ".")+1:]
	p := e.p.Prog.ImportedPackage(pk)
	if p == nil {
		unsup("package %s", pk)
	}
	m, ok := p.Members[name].(*ssa.Type)
	if !ok {
		unsup("type %s", typ)
	}
	return e.box(types.NewPointer(m.Type()), e.alloc())
}

func (e *Engine) implicitHeader(st *State, w *smt.Term) {
	c := e.c
	code := e.xcomp("rw.status", c.Array(c.Ifc, c.IntS))
	n := e.xcomp("rw.started", c.Array(c.Ifc, c.Bool))
	started := c.Select(e.get(st, n), w)
	old := c.Select(e.get(st, code), w)
	e.set(st, code, c.Store(e.get(st, code), w, c.Ite(started, old, c.Int(200))))
	e.snapshot(st, w, started)
	e.set(st, n, c.Store(e.get(st, n), w, c.True))
}

func (e *Engine) headerRef(w *smt.Term) *smt.Term { return e.c.App("frozen!rw.header", e.c.IntS, w) }

// snapshot fixes the headers that are sent.
func (e *Engine) snapshot(st *State, w, started *smt.Term) {
	c := e.c
	hn, hv, hk := e.headerComps()
	ref := e.headerRef(w)
	for _, k := range []string{hn, hv, hk} {
		sent := e.xcomp("sent."+k[2:], c.Array(c.Ifc, e.compSort(k).Elem))
		old := c.Select(e.get(st, sent), w)
		e.set(st, sent, c.Store(e.get(st, sent), w, c.Ite(started, old, c.Select(e.get(st, k), ref))))
	}
}

// headerComps are the ghosts of the headers that were added: how often, and
// with which values; and how many headers there are.
func (e *Engine) headerComps() (hn, hv, hk string) {
	c := e.c
	hn = e.xcomp("hdr.n", c.Array(c.IntS, c.Array(c.Str, c.IntS)))
	hv = e.xcomp("hdr.v", c.Array(c.IntS, c.Array(c.Str, c.Array(c.IntS, c.Str))))
	hk = e.xcomp("hdr.total", c.Array(c.IntS, c.IntS))
	return
}

func (e *Engine) canonical(k *smt.Term) *smt.Term {
	if k.IsLit() {
		return e.c.StrLit(textproto.CanonicalMIMEHeaderKey(k.Name))
	}
	return e.c.App("hdr.canonical", e.c.Str, k)
}

func (e *Engine) headerAdd(st *State, h, k, v *smt.Term, reset bool) {
	c := e.c
	k = e.canonical(k)
	hn, hv, hk := e.headerComps()
	an, av := c.Select(e.get(st, hn), h), c.Select(e.get(st, hv), h)
	n := c.Select(an, k)
	if reset {
		n = c.Int(0)
	}
	e.set(st, hn, c.Store(e.get(st, hn), h, c.Store(an, k, c.Add(n, c.Int(1)))))
	e.set(st, hv, c.Store(e.get(st, hv), h, c.Store(av, k, c.Store(c.Select(av, k), n, v))))
	e.set(st, hk, c.Store(e.get(st, hk), h, c.Add(c.Select(e.get(st, hk), h), c.Int(1))))
}

// scopeRoot is the scope that was supplied.
func scopeRoot(s *smt.Term) *smt.Term {
	for s.Op == "app" && s.Name == "tally.tagged" {
		s = s.Args[0]
	}
	return s
}

func (e *Engine) countComp() string {
	c := e.c
	return e.xcomp("tally.count", c.Array(c.Ifc, c.Array(c.Str, c.IntS)))
}

func (e *Engine) nonNilIfc(t *smt.Term) *smt.Term {
	if !e.c.HasAxioms(t.Name) && t.Op == "app" {
		var bs []*smt.Term
		for _, a := range t.Args {
			bs = append(bs, e.c.BVar("a", a.S))
		}
		x := e.c.App(t.Name, t.S, bs...)
		e.c.Axiom(t.Name, e.c.Forall(bs, e.c.Not(e.c.Eq(x, e.nilIfc())), []*smt.Term{x}))
	}
	return t
}

func init() {
	models = map[string]model{
		"errors.New": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			return st, []Val{e.newError(st, "errors.errorString")}
		},
		"fmt.Errorf": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			return st, []Val{e.newError(st, "errors.errorString")}
		},
		"regexp.MustCompile": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			s := e.term(args[0])
			if !s.IsLit() {
				unsup("regular expression that is not a constant")
			}
			if _, err := regexp.Compile(s.Name); err != nil {
				e.oblige(st, "panic", "regular expression", e.c.False)
			}
			r := e.c.Int(500000 + int64(len(e.regex)))
			for k, v := range e.regex {
				if v == s.Name {
					n, _ := strconv.ParseInt(k, 10, 64)
					r = e.c.Int(n)
				}
			}
			e.regex[r.Int.String()] = s.Name
			return st, []Val{r}
		},
		"(*regexp.Regexp).MatchString": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			return st, []Val{e.reMatch(e.term(args[0]), e.term(args[1]))}
		},
		"(*regexp.Regexp).FindStringSubmatch": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			c := e.c
			re, s := e.term(args[0]), e.term(args[1])
			m := e.reMatch(re, s)
			e.seq(c.ConstArray(c.Array(c.IntS, c.Str), c.StrLit("")), c.Int(0), c.Int(0))
			sq := c.App("re.sub", e.seqSort(c.Str), re, s)
			pat, ok := e.regex[re.String()]
			if re.IsLit() && ok {
				n := regexp.MustCompile(pat).NumSubexp() + 1
				e.fact(c.Eq(e.seqLen(sq), c.Int(int64(n))), "number of submatches")
			} else {
				e.fact(c.Lt(c.Int(0), e.seqLen(sq)), "number of submatches")
			}
			r := e.sliceOf(st, types.Typ[types.String], sq)
			return st, []Val{c.Ite(m, r, e.nilSlice())}
		},
		"math.IsNaN": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			return st, []Val{e.f("f64.isnan", e.c.Bool, e.term(args[0]))}
		},
		"math.Pow10": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			n := e.term(args[0])
			if n.IsLit() {
				return st, []Val{e.c.FloatLit(math.Pow10(int(n.Int.Int64())), e.c.F64)}
			}
			return st, []Val{e.c.App("math.Pow10", e.c.F64, n)}
		},
		"strings.EqualFold": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			c := e.c
			e.trusted["strings.EqualFold compares a canonical form, which is lower case for ASCII"] = true
			a, b := e.term(args[0]), e.term(args[1])
			fold := func(t *smt.Term) *smt.Term {
				if t.IsLit() && ascii(t.Name) {
					return c.StrLit(strings.ToLower(t.Name))
				}
				return c.App("fold", c.Str, t)
			}
			r := c.Eq(fold(a), fold(b))
			if a.IsLit() {
				a, b = b, a
			}
			if b.IsLit() && ascii(b.Name) && strings.ToLower(b.Name) == strings.ToUpper(b.Name) {
				// without letters there is nothing to fold.
				r = c.Eq(a, b)
			}
			return st, []Val{r}
		},
		"math.Round": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			return st, []Val{e.c.App("math.Round", e.c.F64, e.term(args[0]))}
		},
		"math.Abs": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			return st, []Val{e.c.App("math.Abs", e.c.F64, e.term(args[0]))}
		},
		"(net/http.Header).Add": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			e.headerAdd(st, e.term(args[0]), e.term(args[1]), e.term(args[2]), false)
			return st, nil
		},
		"(net/http.Header).Set": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			e.headerAdd(st, e.term(args[0]), e.term(args[1]), e.term(args[2]), true)
			return st, nil
		},
		"(net/http.Header).Get": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			c := e.c
			h, k := e.term(args[0]), e.canonical(e.term(args[1]))
			t := types.NewMap(types.Typ[types.String], types.NewSlice(types.Typ[types.String]))
			v, has := e.mapGet(st, h, k, t)
			v = e.wf(v)
			comp := e.acomp(types.Typ[types.String])
			first := c.Select(c.Select(e.get(st, comp), e.rbase(v)), e.soff(v))
			return st, []Val{c.Ite(c.And(has, c.Lt(c.Int(0), e.slen(v))), first, c.StrLit(""))}
		},
		"(net/http.Header).Values": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			h, k := e.term(args[0]), e.canonical(e.term(args[1]))
			t := types.NewMap(types.Typ[types.String], types.NewSlice(types.Typ[types.String]))
			v, has := e.mapGet(st, h, k, t)
			return st, []Val{e.wf(e.c.Ite(has, v, e.nilSlice()))}
		},
		"(github.com/uber-go/tally.Stopwatch).Stop": noop,
		"(*go.uber.org/zap.Logger).Debug":           logCall,
		"(*go.uber.org/zap.Logger).Info":            logCall,
		"(*go.uber.org/zap.Logger).Warn":            logCall,
		"(*go.uber.org/zap.Logger).Error":           logCall,
		"go.uber.org/zap.NewNop": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			return st, []Val{e.alloc()}
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"sort.Strings": func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			e.sorted(st, e.term(args[0]), types.Typ[types.String], "strings", nil)
			return st, nil
		},
		"(*net/url.URL).String":   urlMethod("(*net/url.URL).String"),
		"(*net/url.URL).Hostname": urlMethod("(*net/url.URL).Hostname"),
		"(*net/url.URL).Port":     urlMethod("(*net/url.URL).Port"),
	}
	ifaceModels = map[string]ifaceModel{
		"(net/http.ResponseWriter).Header": func(e *Engine, st *State, w *smt.Term, args []Val) (*State, []Val) {
			return st, []Val{e.headerRef(w)}
		},
		"(net/http.ResponseWriter).WriteHeader": func(e *Engine, st *State, w *smt.Term, args []Val) (*State, []Val) {
			c := e.c
			n := e.xcomp("rw.headers", c.Array(c.Ifc, c.IntS))
			code := e.xcomp("rw.status", c.Array(c.Ifc, c.IntS))
			sd := e.xcomp("rw.started", c.Array(c.Ifc, c.Bool))
			started := c.Select(e.get(st, sd), w)
			// net/http panics on an invalid code.
			k := e.term(args[0])
			e.panicFree(st, "status code is valid", c.And(c.Le(c.Int(100), k), c.Le(k, c.Int(999))))
			e.set(st, code, c.Store(e.get(st, code), w, c.Ite(started, c.Select(e.get(st, code), w), k)))
			e.snapshot(st, w, started)
			e.set(st, n, c.Store(e.get(st, n), w, c.Add(c.Select(e.get(st, n), w), c.Int(1))))
			e.set(st, sd, c.Store(e.get(st, sd), w, c.True))
			return st, nil
		},
		"(net/http.ResponseWriter).Write": func(e *Engine, st *State, w *smt.Term, args []Val) (*State, []Val) {
			c := e.c
			e.implicitHeader(st, w)
			n := e.xcomp("rw.writes", c.Array(c.Ifc, c.IntS))
			bs := e.seqSort(c.IntS)
			body := e.xcomp("rw.body", c.Array(c.Ifc, bs))
			sq := e.sliceSeq(st, e.term(args[0]), types.Typ[types.Uint8])
			k := c.Select(e.get(st, n), w)
			old := c.Select(e.get(st, body), w)
			e.set(st, body, c.Store(e.get(st, body), w, c.Ite(c.Eq(k, c.Int(0)), sq, c.App("rw.cat", bs, old, sq))))
			e.set(st, n, c.Store(e.get(st, n), w, c.Add(k, c.Int(1))))
			return st, []Val{c.App("rw.wn", c.IntS, w, sq, k), c.App("rw.werr", c.Ifc, w, sq, k)}
		},
		"(github.com/uber-go/tally.Scope).Tagged": func(e *Engine, st *State, s *smt.Term, args []Val) (*State, []Val) {
			return st, []Val{e.nonNilIfc(e.c.App("tally.tagged", e.c.Ifc, s))}
		},
		"(github.com/uber-go/tally.Scope).SubScope": func(e *Engine, st *State, s *smt.Term, args []Val) (*State, []Val) {
			return st, []Val{e.nonNilIfc(e.c.App("tally.sub", e.c.Ifc, s, e.term(args[0])))}
		},
		"(github.com/uber-go/tally.Scope).Counter": func(e *Engine, st *State, s *smt.Term, args []Val) (*State, []Val) {
			return st, []Val{e.nonNilIfc(e.c.App("tally.counter", e.c.Ifc, s, e.term(args[0])))}
		},
		"(github.com/uber-go/tally.Scope).Timer": func(e *Engine, st *State, s *smt.Term, args []Val) (*State, []Val) {
			return st, []Val{e.nonNilIfc(e.c.App("tally.timer", e.c.Ifc, s, e.term(args[0])))}
		},
		"(github.com/uber-go/tally.Timer).Start": func(e *Engine, st *State, s *smt.Term, args []Val) (*State, []Val) {
			p := e.p.Prog.ImportedPackage("github.com/uber-go/tally")
			t := p.Members["Stopwatch"].(*ssa.Type).Type()
			return st, []Val{e.c.Var("tally.stopwatch", e.sort(t))}
		},
		"(github.com/uber-go/tally.Counter).Inc": func(e *Engine, st *State, s *smt.Term, args []Val) (*State, []Val) {
			c := e.c
			if s.Op != "app" || s.Name != "tally.counter" {
				unsup("counter of unknown origin")
			}
			root, name := scopeRoot(s.Args[0]), s.Args[1]
			comp := e.countComp()
			a := c.Select(e.get(st, comp), root)
			e.set(st, comp, c.Store(e.get(st, comp), root, c.Store(a, name, c.Add(c.Select(a, name), e.term(args[0])))))
			return st, nil
		},
	}
	externalFacts = map[string]func(e *Engine, st *State, args []Val, rs []Val, ins []*smt.Term){
		"strings.Split": func(e *Engine, st *State, args []Val, rs []Val, ins []*smt.Term) {
			c := e.c
			if s := e.term(args[1]); s.IsLit() && s.Name != "" {
				n := e.slen(e.term(rs[0]))
				e.fact(c.Le(c.Int(1), n), "strings.Split")
				has := c.App("strings.Contains,Str,Str#0", c.Bool, e.term(args[0]), s)
				e.fact(c.Eq(has, c.Le(c.Int(2), n)), "strings.Split")
			}
		},
		"strings.Join": func(e *Engine, st *State, args []Val, rs []Val, ins []*smt.Term) {
			c := e.c
			sl, r := e.term(args[0]), e.term(rs[0])
			first := c.Select(c.Select(e.get(st, e.acomp(types.Typ[types.String])), e.rbase(sl)), e.soff(sl))
			switch n := e.slen(sl); {
			case n == c.Int(0):
				e.fact(c.Eq(r, c.StrLit("")), "strings.Join")
			case n == c.Int(1):
				e.fact(c.Eq(r, first), "strings.Join")
			}
		},
		"strings.LastIndex": indexFacts,
		"strings.Index":     indexFacts,
		"strconv.ParseFloat": func(e *Engine, st *State, args []Val, rs []Val, ins []*smt.Term) {
			s, bits := e.term(args[0]), e.term(args[1])
			if s.IsLit() && bits.IsLit() {
				_, err := strconv.ParseFloat(s.Name, int(bits.Int.Int64()))
				e.fact(e.c.Eq(e.c.BoolLit(err == nil), e.c.Eq(e.term(rs[1]), e.nilIfc())), "strconv.ParseFloat")
			}
		},
		"golang.org/x/text/language.ParseAcceptLanguage": func(e *Engine, st *State, args []Val, rs []Val, ins []*smt.Term) {
			e.fact(e.c.Eq(e.slen(e.term(rs[0])), e.slen(e.term(rs[1]))), "ParseAcceptLanguage")
		},
	}
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func indexFacts(e *Engine, st *State, args []Val, rs []Val, ins []*smt.Term) {
	c := e.c
	s, sub, i := e.term(args[0]), e.term(args[1]), e.term(rs[0])
	e.fact(c.And(c.Le(c.Int(-1), i), c.Implies(c.Le(c.Int(0), i), c.Le(c.Add(i, e.strLen(sub)), e.strLen(s)))), "strings.Index")
}

func logCall(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
	e.nonNil(st, args[0])
	return st, nil
}

func urlMethod(name string) model {
	return func(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
		e.nonNil(st, args[0])
		return e.external(st, fn, name, args)
	}
}

// reMatch tells whether a regular expression matches.
func (e *Engine) reMatch(re, s *smt.Term) *smt.Term {
	if pat, ok := e.regex[re.String()]; ok && re.IsLit() && s.IsLit() {
		return e.c.BoolLit(regexp.MustCompile(pat).MatchString(s.Name))
	}
	return e.c.App("re.match", e.c.Bool, re, s)
}

// fold evaluates functions of constants.
func (e *Engine) fold(name string, args []Val) (Val, bool) {
	c := e.c
	var ss []string
	for _, a := range args {
		t, ok := a.(*smt.Term)
		if !ok || !t.IsLit() || t.S != c.Str {
			return nil, false
		}
		ss = append(ss, t.Name)
	}
	if len(ss) == 1 {
		switch name {
		case "strings.ToLower":
			return c.StrLit(strings.ToLower(ss[0])), true
		case "strings.ToUpper":
			return c.StrLit(strings.ToUpper(ss[0])), true
		case "strings.TrimSpace":
			return c.StrLit(strings.TrimSpace(ss[0])), true
		}
	}
	if len(ss) == 2 {
		switch name {
		case "strings.HasPrefix":
			return c.BoolLit(strings.HasPrefix(ss[0], ss[1])), true
		case "strings.HasSuffix":
			return c.BoolLit(strings.HasSuffix(ss[0], ss[1])), true
		case "strings.Contains":
			return c.BoolLit(strings.Contains(ss[0], ss[1])), true
		case "strings.EqualFold":
			return c.BoolLit(strings.EqualFold(ss[0], ss[1])), true
		case "strings.TrimPrefix":
			return c.StrLit(strings.TrimPrefix(ss[0], ss[1])), true
		case "strings.TrimSuffix":
			return c.StrLit(strings.TrimSuffix(ss[0], ss[1])), true
		}
	}
	return nil, false
}

// sortSlice is sort.Slice: the elements are permuted; if the function given is
// a strict weak order on them they end up sorted.
func sortSlice(e *Engine, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
	t, sl, ok := e.boxed(e.term(args[0]))
	if !ok {
		unsup("sort of an unknown value")
	}
	elem := t.Underlying().(*types.Slice).Elem()
	less := e.term(args[1])
	f, ok := e.fnOf(less)
	if !ok {
		unsup("sort with an unknown function")
	}
	if sl.Op == "ite" || e.sbase(sl).Op == "ite" {
		cond := e.sbase(sl).Args[0]
		return e.branch(st, cond, func(st *State, side bool) (*State, []Val) {
			m := map[*smt.Term]*smt.Term{cond: e.c.BoolLit(side)}
			return sortSlice(e, st, fn, []Val{e.box(t, e.c.Subst(sl, m)), e.c.Subst(less, m)})
		})
	}
	var extra []*smt.Term
	for i, b := range f.Bindings {
		p := e.ptr(b, f.Fn.FreeVars[i].Type())
		v := e.load(st, p)
		if v == sl {
			continue
		}
		extra = append(extra, e.deep(st, v, p.cellType(), 0)...)
	}
	name := strings.ReplaceAll(f.Fn.String(), modPath, "")
	return e.sortedBy(st, sl, elem, name, extra, func(st *State, i, j *smt.Term) *smt.Term {
		s, vs := e.callStatic(nil, st, f.Fn, f.Bindings, []Val{i, j})
		if s == nil {
			unsup("less function does not return")
		}
		return e.term(vs[0])
	}), nil
}

// cellType is the type of what the pointer points to.
func (p *Ptr) cellType() types.Type {
	if n := len(p.Path); n > 0 {
		return p.Path[n-1].T
	}
	return p.Elem
}

func (e *Engine) sortedBy(st *State, sl *smt.Term, elem types.Type, name string, extra []*smt.Term, less func(st *State, i, j *smt.Term) *smt.Term) *State {
	c := e.c
	e.sorted(st, sl, elem, name, extra)
	ln := e.slen(sl)
	i, j := c.BVar("i", c.IntS), c.BVar("j", c.IntS)
	rng := func(x *smt.Term) *smt.Term { return c.And(c.Le(c.Int(0), x), c.Lt(x, ln)) }
	saved := e.binders
	e.binders = append(append([]*Binder{}, saved...), &Binder{V: i, Guard: rng(i)}, &Binder{V: j, Guard: rng(j)})
	l := less(st.clone(), i, j)
	e.binders = saved
	at := func(x, y *smt.Term) *smt.Term { return c.Subst(l, map[*smt.Term]*smt.Term{i: x, j: y}) }
	x, y, z := c.BVar("x", c.IntS), c.BVar("y", c.IntS), c.BVar("z", c.IntS)
	swo := c.And(
		c.Forall([]*smt.Term{x, y}, c.Implies(c.And(rng(x), rng(y)), c.Not(c.And(at(x, y), at(y, x))))),
		c.Forall([]*smt.Term{x, y, z}, c.Implies(c.And(rng(x), rng(y), rng(z), at(x, y)), c.Or(at(x, z), at(z, y)))))
	e.assume(st, c.Implies(swo, c.Forall([]*smt.Term{i, j}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, j), c.Lt(j, ln)), c.Not(at(j, i))))), "sorted")
	return st
}

// permute permutes the elements of a slice.
func (e *Engine) permute(st *State, sl *smt.Term, elem types.Type, name string) *State {
	if sl.Op == "ite" || e.sbase(sl).Op == "ite" {
		cond := e.sbase(sl).Args[0]
		s, _ := e.branch(st, cond, func(st *State, side bool) (*State, []Val) {
			return e.permute(st, e.c.Subst(sl, map[*smt.Term]*smt.Term{cond: e.c.BoolLit(side)}), elem, name), nil
		})
		return s
	}
	e.sorted(st, sl, elem, name, e.bvars())
	return st
}

// sorted permutes the elements of a slice.
func (e *Engine) sorted(st *State, sl *smt.Term, elem types.Type, name string, extra []*smt.Term) {
	c := e.c
	comp := e.acomp(elem)
	base, off, ln := e.sbase(sl), e.soff(sl), e.slen(sl)
	if base.IsLit() && base.Int.Sign() == 0 || ln.IsLit() && ln.Int.Int64() <= 1 {
		return
	}
	arr := c.Select(e.get(st, comp), base)
	as := append([]*smt.Term{arr, off, ln}, extra...)
	n := sigName("sort:"+name, as)
	nw := c.App(n, arr.S, as...)
	if _, ok := e.sorts2[n]; !ok {
		var bs []*smt.Term
		for _, a := range as {
			bs = append(bs, c.BVar("a", a.S))
		}
		e.sorts2[n] = &sortRec{vars: bs, in: bs[0], off: bs[1], ln: bs[2]}
		t := c.App(n, arr.S, bs...)
		k := c.BVar("k", c.IntS)
		e.seqSort(arr.S.Elem)
		c.Axiom(n,
			c.Forall(bs, c.Eq(e.bag(e.seq(t, bs[1], bs[2])), e.bag(e.seq(bs[0], bs[1], bs[2]))), []*smt.Term{t}),
			c.Forall(append(append([]*smt.Term{}, bs...), k), c.Or(c.And(c.Le(bs[1], k), c.Lt(k, c.Add(bs[1], bs[2]))),
				c.Eq(c.Select(t, k), c.Select(bs[0], k))), []*smt.Term{c.Select(t, k)}),
			c.Forall(bs, c.Or(c.Lt(c.Int(1), bs[2]), c.Eq(t, bs[0])), []*smt.Term{t}))
	}
	e.set(st, comp, c.Store(e.get(st, comp), base, nw))
}

var _ = fmt.Sprint
