package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/tool/smt"
)

type intrinsic func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val)

var intrinsics map[string]intrinsic

// using tells whether the specification is that of a callee.
func (e *Engine) using() bool { return len(e.uses) > 0 }

func str(e *Engine, v Val) string {
	t := e.term(v)
	if !t.IsLit() {
		unsup("name of a clause")
	}
	return t.Name
}

// tagsOf are the properties that a clause belongs to: the words Cnn at its
// start.
func tagsOf(name string) []string {
	var out []string
	for _, w := range strings.Fields(name) {
		if len(w) == 3 && w[0] == 'C' && w[1] >= '0' && w[1] <= '9' {
			out = append(out, w)
			continue
		}
		break
	}
	return out
}

// quantify evaluates a predicate for a bound variable.
func (e *Engine) quantify(fr *frame, st *State, f Val, s *smt.Sort, guard func(v *smt.Term) *smt.Term) (v, g, body *smt.Term) {
	fv, ok := e.fnOf(e.term(f))
	if !ok {
		unsup("quantifier over an unknown function")
	}
	v = e.c.BVar("q", s)
	g = guard(v)
	saved := e.binders
	e.binders = append(append([]*Binder{}, saved...), &Binder{V: v, Guard: g})
	e.spec++
	s2 := st.clone()
	r, vs := e.callStatic(fr, s2, fv.Fn, fv.Bindings, []Val{v})
	e.spec--
	e.binders = saved
	if r == nil {
		unsup("predicate does not return")
	}
	return v, g, e.term(vs[0])
}

func forall(s func(e *Engine) *smt.Sort, guard func(e *Engine, args []Val, v *smt.Term) *smt.Term, fi int, neg bool) intrinsic {
	return func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
		if fi == 1 {
			if n, ok := smallLit(e.term(args[0])); ok {
				return st, []Val{e.unrolled(fr, st, args[1], n, neg)}
			}
		}
		v, g, b := e.quantify(fr, st, args[fi], s(e), func(v *smt.Term) *smt.Term { return guard(e, args, v) })
		if neg {
			return st, []Val{e.c.Exists([]*smt.Term{v}, e.c.And(g, b))}
		}
		return st, []Val{e.c.Forall([]*smt.Term{v}, e.c.Implies(g, b))}
	}
}

// smallLit is the value of a literal that quantifiers up to it are unrolled for.
func smallLit(t *smt.Term) (int, bool) {
	if !t.IsLit() || t.Int == nil || !t.Int.IsInt64() {
		return 0, false
	}
	n := t.Int.Int64()
	return int(n), n >= 0 && n <= 4
}

// unrolled evaluates a predicate for each of the first n indices.
func (e *Engine) unrolled(fr *frame, st *State, f Val, n int, exists bool) *smt.Term {
	fv, ok := e.fnOf(e.term(f))
	if !ok {
		unsup("quantifier over an unknown function")
	}
	r := e.c.True
	if exists {
		r = e.c.False
	}
	for i := 0; i < n; i++ {
		e.spec++
		s, vs := e.callStatic(fr, st.clone(), fv.Fn, fv.Bindings, []Val{e.c.Int(int64(i))})
		e.spec--
		if s == nil {
			unsup("predicate does not return")
		}
		if exists {
			r = e.c.Or(r, e.term(vs[0]))
		} else {
			r = e.c.And(r, e.term(vs[0]))
		}
	}
	return r
}

func (e *Engine) elemArg(fn *ssa.Function, i int) types.Type {
	return fn.Signature.Params().At(i).Type().Underlying().(*types.Slice).Elem()
}

// ghost reads a ghost of a response writer.
func ghost(name string, s func(e *Engine) *smt.Sort) intrinsic {
	return func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
		comp := e.xcomp(name, e.c.Array(e.c.Ifc, s(e)))
		return st, []Val{e.c.Select(e.get(st, comp), e.term(args[0]))}
	}
}

func init() {
	intS := func(e *Engine) *smt.Sort { return e.c.IntS }
	boolS := func(e *Engine) *smt.Sort { return e.c.Bool }
	strS := func(e *Engine) *smt.Sort { return e.c.Str }
	index := func(e *Engine, args []Val, v *smt.Term) *smt.Term {
		return e.c.And(e.c.Le(e.c.Int(0), v), e.c.Lt(v, e.term(args[0])))
	}
	any := func(e *Engine, args []Val, v *smt.Term) *smt.Term { return e.c.True }
	ensures := func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
		cond := e.term(args[1])
		if e.using() {
			e.assume(st, cond, "contract: "+str(e, args[0]))
			return st, nil
		}
		n := str(e, args[0])
		e.oblige(st, "ensures", n, cond, tagsOf(n)...)
		if len(tagsOf(n)) == 0 {
			e.assume(st, cond, n)
		}
		return st, nil
	}
	intrinsics = map[string]intrinsic{
		"Requires": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			cond := e.term(args[0])
			if e.using() {
				u := e.uses[len(e.uses)-1]
				e.curPos = u.pos
				e.oblige(st, "requires", "precondition of "+u.con.Name, cond)
			}
			e.assume(st, cond, "requires")
			return st, nil
		},
		"Ensures": ensures,
		"Assert":  ensures,
		"Assume": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			e.assume(st, e.term(args[0]), "assumption")
			return st, nil
		},
		"Forall":       forall(intS, index, 1, false),
		"Exists":       forall(intS, index, 1, true),
		"ForallString": forall(strS, any, 0, false),
		"ForallInt":    forall(intS, any, 0, false),
		"Permutation": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			el := e.elemArg(fn, 0)
			return st, []Val{e.c.Eq(e.bag(e.sliceSeq(st, e.term(args[0]), el)), e.bag(e.sliceSeq(st, e.term(args[1]), el)))}
		},
		"SameSeq": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			el := e.elemArg(fn, 0)
			return st, []Val{e.c.Eq(e.sliceSeq(st, e.term(args[0]), el), e.sliceSeq(st, e.term(args[1]), el))}
		},
		"Clone": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			el := e.elemArg(fn, 0)
			s := e.term(args[0])
			comp := e.acomp(el)
			arr := e.c.Select(e.get(st, comp), e.rbase(s))
			off := e.soff(s)
			if off.IsLit() && off.Int.Sign() == 0 {
				r := e.alloc()
				e.set(st, comp, e.c.Store(e.get(st, comp), r, arr))
				return st, []Val{e.slc(r, off, e.slen(s), e.slen(s))}
			}
			return st, []Val{e.sliceOf(st, el, e.sliceSeq(st, s, el))}
		},
		"Modifies": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			if e.cur != nil && !e.using() {
				e.cur.mods = append(e.cur.mods, modRec{e.acomp(e.elemArg(fn, 0)), e.sbase(e.term(args[0]))})
			}
			return st, nil
		},
		"Same": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			return st, []Val{e.c.Eq(e.term(args[0]), e.term(args[1]))}
		},
		"Status":       ghost("rw.status", intS),
		"StatusWrites": ghost("rw.headers", intS),
		"Writes":       ghost("rw.writes", intS),
		"Started":      ghost("rw.started", boolS),
		"HeaderTotal":  ghost("sent.hdr.total", intS),
		"HeaderPending": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			_, _, hk := e.headerComps()
			return st, []Val{e.c.Select(e.get(st, hk), e.headerRef(e.term(args[0])))}
		},
		"BodyIs": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			body := e.xcomp("rw.body", e.c.Array(e.c.Ifc, e.seqSort(e.c.IntS)))
			n := e.xcomp("rw.writes", e.c.Array(e.c.Ifc, e.c.IntS))
			w := e.term(args[0])
			e.seqReady(e.c.IntS)
			sq := e.sliceSeq(st, e.term(args[1]), types.Typ[types.Uint8])
			return st, []Val{e.c.And(e.c.Eq(e.c.Select(e.get(st, n), w), e.c.Int(1)), e.c.Eq(e.c.Select(e.get(st, body), w), sq))}
		},
		"HeaderCount": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			hn, _, _ := e.headerComps()
			comp := e.xcomp("sent."+hn[2:], e.c.Array(e.c.Ifc, e.compSort(hn).Elem))
			return st, []Val{e.c.Select(e.c.Select(e.get(st, comp), e.term(args[0])), e.canonical(e.term(args[1])))}
		},
		"HeaderAt": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			_, hv, _ := e.headerComps()
			comp := e.xcomp("sent."+hv[2:], e.c.Array(e.c.Ifc, e.compSort(hv).Elem))
			return st, []Val{e.c.Select(e.c.Select(e.c.Select(e.get(st, comp), e.term(args[0])), e.canonical(e.term(args[1]))), e.term(args[2]))}
		},
		"HeaderIs": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			c := e.c
			hn, hv, _ := e.headerComps()
			w, k := e.term(args[0]), e.canonical(e.term(args[1]))
			cn := e.xcomp("sent."+hn[2:], c.Array(c.Ifc, e.compSort(hn).Elem))
			cv := e.xcomp("sent."+hv[2:], c.Array(c.Ifc, e.compSort(hv).Elem))
			return st, []Val{c.And(c.Eq(c.Select(c.Select(e.get(st, cn), w), k), c.Int(1)),
				c.Eq(c.Select(c.Select(c.Select(e.get(st, cv), w), k), c.Int(0)), e.term(args[2])))}
		},
		"Fresh": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			c := e.c
			w := e.term(args[0])
			hn, _, hk := e.headerComps()
			at := func(comp string, k *smt.Term) *smt.Term { return c.Select(e.get(st, comp), k) }
			zero := func(comp string, v *smt.Term, k *smt.Term) *smt.Term {
				return c.Eq(at(comp, k), v)
			}
			var fs []*smt.Term
			fs = append(fs, zero(e.xcomp("rw.status", c.Array(c.Ifc, c.IntS)), c.Int(0), w))
			fs = append(fs, zero(e.xcomp("rw.headers", c.Array(c.Ifc, c.IntS)), c.Int(0), w))
			fs = append(fs, zero(e.xcomp("rw.writes", c.Array(c.Ifc, c.IntS)), c.Int(0), w))
			fs = append(fs, c.Not(at(e.xcomp("rw.started", c.Array(c.Ifc, c.Bool)), w)))
			fs = append(fs, zero(hn, c.ConstArray(c.Array(c.Str, c.IntS), c.Int(0)), e.headerRef(w)))
			fs = append(fs, zero(hk, c.Int(0), e.headerRef(w)))
			fs = append(fs, zero(e.xcomp("sent."+hk[2:], c.Array(c.Ifc, c.IntS)), c.Int(0), w))
			fs = append(fs, zero(e.xcomp("sent."+hn[2:], c.Array(c.Ifc, c.Array(c.Str, c.IntS))), c.ConstArray(c.Array(c.Str, c.IntS), c.Int(0)), w))
			return st, []Val{c.And(fs...)}
		},
		"Uncounted": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			c := e.c
			return st, []Val{c.Eq(c.Select(e.get(st, e.countComp()), scopeRoot(e.term(args[0]))), c.ConstArray(c.Array(c.Str, c.IntS), c.Int(0)))}
		},
		"WriteError": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			c := e.c
			e.seqReady(c.IntS)
			w := e.term(args[0])
			return st, []Val{c.App("rw.werr", c.Ifc, w, e.sliceSeq(st, e.term(args[1]), types.Typ[types.Uint8]), c.Int(0))}
		},
		"Count": func(e *Engine, fr *frame, st *State, fn *ssa.Function, args []Val) (*State, []Val) {
			return st, []Val{e.c.Select(e.c.Select(e.get(st, e.countComp()), scopeRoot(e.term(args[0]))), e.term(args[1]))}
		},
	}
}

// seqReady declares the theory of sequences of the sort.
func (e *Engine) seqReady(el *smt.Sort) {
	c := e.c
	i := c.BVar("x", c.Array(c.IntS, el))
	e.seq(i, c.Int(0), c.Int(1))
}
