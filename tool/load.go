package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/freerware/negotiator"
const vspecPath = modPath + "/internal/vspec"

// Program is the loaded code under verification together with the contracts.
type Program struct {
	Repo        string
	Prog        *ssa.Program
	Pkgs        []*packages.Package
	Overlay     map[string][]byte
	Contracts   map[*ssa.Function]*Contract // by function under contract
	GlobalCon   map[*ssa.Global]*Contract   // by function-valued package variable
	Order       []*Contract
	Specs       map[*ssa.Function]bool // recursive specification functions
	Dropped     []string               // contracts that no longer apply
	DroppedTags map[string]map[string]bool
}

// Contract is a contract function.
type Contract struct {
	Fn     *ssa.Function // the contract
	Target *ssa.Function
	Global *ssa.Global
	Name   string // display name of the target
	Flags  map[string]bool
	Hints  map[string]string // how to generate arguments
}

func (c *Contract) has(f string) bool { return c.Flags[f] }

// overlayFiles maps the contract files of dir into the repository.
func overlayFiles(repo, dir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		d, base := filepath.Split(rel)
		if base == "gen.go" {
			// only for running contracts.
			return nil
		}
		if strings.HasPrefix(d, "vspec/") {
			ov[filepath.Join(repo, "internal", "vspec", base)] = b
			return nil
		}
		ov[filepath.Join(repo, d, "zz_verif_"+base)] = b
		return nil
	})
	return ov, err
}

// Load loads the repository with the contracts.
func Load(repo, contracts string) (*Program, error) {
	ov, err := overlayFiles(repo, contracts)
	if err != nil {
		return nil, err
	}
	p := &Program{Repo: repo, Contracts: map[*ssa.Function]*Contract{}, GlobalCon: map[*ssa.Global]*Contract{}, Specs: map[*ssa.Function]bool{}, DroppedTags: map[string]map[string]bool{}}
	for try := 0; ; try++ {
		if try > 40 {
			return nil, fmt.Errorf("contracts do not type-check")
		}
		cfg := &packages.Config{
			Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0"),
		}
		pkgs, err := packages.Load(cfg, "./...", vspecPath)
		if err != nil {
			return nil, err
		}
		var errs []packages.Error
		packages.Visit(pkgs, nil, func(pk *packages.Package) {
			for _, e := range pk.Errors {
				errs = append(errs, e)
			}
		})
		if len(errs) == 0 {
			p.Pkgs = pkgs
			break
		}
		if !p.dropBroken(ov, errs) {
			return nil, fmt.Errorf("the code does not type-check: %v", errs[0])
		}
	}
	p.Overlay = ov
	prog, _ := ssautil.AllPackages(p.Pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	p.bind()
	return p, nil
}

// dropBroken removes the contract declarations that the errors point into.
func (p *Program) dropBroken(ov map[string][]byte, errs []packages.Error) bool {
	type loc struct {
		file string
		line int
	}
	var locs []loc
	for _, e := range errs {
		parts := strings.Split(e.Pos, ":")
		if len(parts) < 2 {
			continue
		}
		if _, ok := ov[parts[0]]; !ok || strings.Contains(parts[0], "/vspec/") {
			continue
		}
		var n int
		fmt.Sscanf(parts[1], "%d", &n)
		locs = append(locs, loc{parts[0], n})
	}
	changed := false
	byFile := map[string][]int{}
	for _, l := range locs {
		byFile[l.file] = append(byFile[l.file], l.line)
	}
	for f, lines := range byFile {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, ov[f], parser.ParseComments)
		if err != nil {
			continue
		}
		src := string(ov[f])
		type cut struct{ a, b int }
		var cuts []cut
		for _, d := range af.Decls {
			var start token.Pos = d.Pos()
			name := "declaration"
			switch x := d.(type) {
			case *ast.FuncDecl:
				name = x.Name.Name
				if x.Doc != nil {
					start = x.Doc.Pos()
				}
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					// an unused import: blank it.
					for _, s := range x.Specs {
						l := fset.Position(s.Pos()).Line
						for _, n := range lines {
							if n == l {
								cuts = append(cuts, cut{fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset})
							}
						}
					}
					continue
				}
				if x.Doc != nil {
					start = x.Doc.Pos()
				}
			}
			a, b := fset.Position(d.Pos()).Line, fset.Position(d.End()).Line
			for _, n := range lines {
				if n >= a && n <= b {
					cuts = append(cuts, cut{fset.Position(start).Offset, fset.Position(d.End()).Offset})
					n := filepath.Base(filepath.Dir(f)) + "." + name
					p.Dropped = append(p.Dropped, n)
					p.dropTags(n, src, fset.Position(start).Offset, fset.Position(d.End()).Offset)
					break
				}
			}
		}
		sort.Slice(cuts, func(i, j int) bool { return cuts[i].a > cuts[j].a })
		for _, c := range cuts {
			// keep the line structure.
			gone := src[c.a:c.b]
			src = src[:c.a] + strings.Repeat("\n", strings.Count(gone, "\n")) + src[c.b:]
			changed = true
		}
		ov[f] = []byte(src)
	}
	return changed
}

var tagRE = regexp.MustCompile(`\bC[0-9][0-9]\b`)

// dropTags notes which properties a dropped declaration spoke about.
func (p *Program) dropTags(n, src string, a, b int) {
	if p.DroppedTags[n] == nil {
		p.DroppedTags[n] = map[string]bool{}
	}
	for _, t := range tagRE.FindAllString(src[a:b], -1) {
		p.DroppedTags[n][t] = true
	}
}

// bind finds the targets of the contract functions.
func (p *Program) bind() {
	for _, pk := range p.Pkgs {
		sp := p.Prog.Package(pk.Types)
		if sp == nil {
			continue
		}
		for _, f := range pk.Syntax {
			fn := pk.Fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fn), "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//verif:")
					if t == c.Text {
						continue
					}
					fs := strings.Fields(t)
					obj, _ := pk.TypesInfo.Defs[fd.Name].(*types.Func)
					sf := p.Prog.FuncValue(obj)
					switch fs[0] {
					case "spec":
						p.Specs[sf] = true
					case "theorem":
						con := &Contract{Fn: sf, Hints: hints(fd.Doc), Flags: map[string]bool{}, Name: sp.Pkg.Name() + "." + fd.Name.Name}
						for _, x := range fs[1:] {
							con.Flags[x] = true
						}
						p.Order = append(p.Order, con)
					case "contract":
						con := &Contract{Fn: sf, Hints: hints(fd.Doc), Flags: map[string]bool{}}
						for _, x := range fs[2:] {
							con.Flags[x] = true
						}
						if !p.resolve(con, sp, fs[1]) {
							n := sp.Pkg.Name() + "." + fd.Name.Name
							p.Dropped = append(p.Dropped, n)
							pos := pk.Fset.Position(fd.Pos())
							p.dropTags(n, string(p.Overlay[pos.Filename]), pos.Offset, pk.Fset.Position(fd.End()).Offset)
							continue
						}
						p.Order = append(p.Order, con)
					}
				}
			}
		}
	}
	sort.Slice(p.Order, func(i, j int) bool { return p.Order[i].Name < p.Order[j].Name })
}

func (p *Program) resolve(c *Contract, sp *ssa.Package, name string) bool {
	c.Name = sp.Pkg.Name() + "." + name
	if v, ok := strings.CutPrefix(name, "var:"); ok {
		g, ok := sp.Members[v].(*ssa.Global)
		if !ok {
			return false
		}
		c.Name = sp.Pkg.Name() + "." + v
		c.Global = g
		p.GlobalCon[g] = c
		return true
	}
	var target *ssa.Function
	if i := strings.LastIndex(name, "."); i >= 0 {
		tn := strings.Trim(name[:i], "()*")
		tm, ok := sp.Members[tn].(*ssa.Type)
		if !ok {
			return false
		}
		ms := p.Prog.MethodSets.MethodSet(types.NewPointer(tm.Type()))
		for j := 0; j < ms.Len(); j++ {
			m := ms.At(j).Obj().(*types.Func)
			if m.Name() == name[i+1:] && m.Pkg() == sp.Pkg {
				if f := p.Prog.FuncValue(m); f != nil {
					target = f
				}
			}
		}
	} else if f, ok := sp.Members[name].(*ssa.Function); ok {
		target = f
	}
	if target == nil {
		return false
	}
	// the contract must have the parameters of its target.
	if len(target.Params) != len(c.Fn.Params) {
		return false
	}
	for i := range target.Params {
		if !types.Identical(target.Params[i].Type(), c.Fn.Params[i].Type()) {
			return false
		}
	}
	c.Target = target
	p.Contracts[target] = c
	return true
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	pk := f.Package()
	if pk == nil {
		// wrappers and bound methods.
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}
