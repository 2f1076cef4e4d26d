package main

// Loading: parse and type-check the working tree of /repo (non-test files), dependencies from export data.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

const modPath = "github.com/lyraproj/dgo"

type Pkg struct {
	Path  string
	Name  string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

type Prog struct {
	Fset    *token.FileSet
	Pkgs    map[string]*Pkg // by import path
	Order   []*Pkg
	Decls   map[*types.Func]*ast.FuncDecl
	renames sync.Map
	DPkg    map[*types.Func]*Pkg
	Tags    map[string]int // dynamic type -> tag
	TagT    []types.Type
	// all named types declared in the repo (non-interface)
	NTags      int
	Concrete   []types.Type // candidate dynamic types
	FieldOwner map[*types.Var]string
	Const      map[*types.Var]bool // immutable field (never assigned outside construction)
	GlobalInit map[*types.Var]ast.Expr
	GlobalAssn map[*types.Var]bool
	addrTaken  map[types.Object]bool
	mu         sync.Mutex
}

type listPkg struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Name       string
	Standard   bool
	Imports    []string
}

func loadProg(repo string) (*Prog, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Name,Standard,Imports", "./...")
	cmd.Dir = repo
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, er.String())
	}
	dec := json.NewDecoder(&out)
	exports := map[string]string{}
	var mine []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, modPath) {
			mine = append(mine, p)
		}
	}
	fset := token.NewFileSet()
	pr := &Prog{Fset: fset, Pkgs: map[string]*Pkg{}, Decls: map[*types.Func]*ast.FuncDecl{}, DPkg: map[*types.Func]*Pkg{},
		Tags: map[string]int{}, FieldOwner: map[*types.Var]string{}, Const: map[*types.Var]bool{},
		GlobalInit: map[*types.Var]ast.Expr{}, GlobalAssn: map[*types.Var]bool{}, addrTaken: map[types.Object]bool{}}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := &repoImporter{pr, gc}
	for _, lp := range mine {
		p := &Pkg{Path: lp.ImportPath, Name: lp.Name}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(lp.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		p.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.13"}
		tp, err := conf.Check(lp.ImportPath, fset, p.Files, p.Info)
		if err != nil {
			return nil, err
		}
		p.Types = tp
		pr.Pkgs[p.Path] = p
		pr.Order = append(pr.Order, p)
	}
	pr.index()
	return pr, nil
}

type repoImporter struct {
	pr *Prog
	gc types.Importer
}

func (ri *repoImporter) Import(path string) (*types.Package, error) {
	if p, ok := ri.pr.Pkgs[path]; ok {
		return p.Types, nil
	}
	return ri.gc.Import(path)
}

func (pr *Prog) index() {
	typeSet := map[string]types.Type{}
	assigned := map[*types.Var]bool{}
	for _, p := range pr.Order {
		// named types
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				t := tn.Type()
				if _, isI := t.Underlying().(*types.Interface); isI {
					continue
				}
				typeSet[typeStr(t)] = t
				typeSet[types.TypeString(types.NewPointer(t), nil)] = types.NewPointer(t)
				if st, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						nm := n + "." + f.Name()
						fieldOrds[f] = i + 1
						if o, ok := pr.FieldOwner[f]; !ok || (len(nm) < len(o) || len(nm) == len(o) && nm < o) {
							pr.FieldOwner[f] = nm
						}
					}
				}
			}
		}
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if fn, ok := p.Info.Defs[d.Name].(*types.Func); ok {
						pr.Decls[fn] = d
						pr.DPkg[fn] = p
						if d.Body != nil {
							pr.scanAssign(p, d, assigned)
						}
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						if vs, ok := s.(*ast.ValueSpec); ok {
							for i, nm := range vs.Names {
								if v, ok := p.Info.Defs[nm].(*types.Var); ok && i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
									pr.GlobalInit[v] = vs.Values[i]
								}
							}
						}
					}
				}
			}
			// conversions to interface of basic types are tagged lazily
		}
	}
	for f := range pr.FieldOwner {
		if !assigned[f] {
			pr.Const[f] = true
		}
	}
	for _, b := range []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String, types.Uintptr} {
		typeSet[types.TypeString(types.Typ[b], nil)] = types.Typ[b]
	}
	var names []string
	for n := range typeSet {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		pr.tagOf(typeSet[n])
	}
	var valIface *types.Interface
	if d := pr.pkgByName("dgo"); d != nil {
		if tn, ok := d.Types.Scope().Lookup("Value").(*types.TypeName); ok {
			valIface, _ = tn.Type().Underlying().(*types.Interface)
		}
	}
	pr.NTags = len(pr.TagT)
	for _, t := range pr.TagT {
		// A pointer to a type that is a value by itself is never used as a value, and a struct that is a value only
		// by embedding one is only used by its address (reported as assumptions).
		embeds := func(t types.Type) bool {
			st, ok := t.Underlying().(*types.Struct)
			for i := 0; ok && i < st.NumFields(); i++ {
				if _, isI := st.Field(i).Type().Underlying().(*types.Interface); isI && st.Field(i).Embedded() {
					return true
				}
			}
			return false
		}
		if pt, ok := t.(*types.Pointer); ok {
			if types.Implements(pt.Elem(), valIface) && !embeds(pt.Elem()) {
				continue
			}
		} else if embeds(t) {
			continue
		}
		pr.Concrete = append(pr.Concrete, t)
	}
}

// tagOf returns the dynamic type tag (>=1) of t.
func (pr *Prog) tagOf(t types.Type) int {
	k := typeStr(t)
	pr.mu.Lock()
	defer pr.mu.Unlock()
	if i, ok := pr.Tags[k]; ok {
		return i
	}
	pr.TagT = append(pr.TagT, t)
	pr.Tags[k] = len(pr.TagT)
	return len(pr.TagT)
}

// scanAssign records fields that are assigned after construction, and variables whose address is taken.
// A field assigned on a local variable that was defined in the same function by a fresh composite literal
// (&T{...}) still counts as construction.
func (pr *Prog) scanAssign(p *Pkg, d *ast.FuncDecl, assigned map[*types.Var]bool) {
	freshLocal := map[types.Object]bool{}
	ast.Inspect(d.Body, func(n ast.Node) bool {
		if as, ok := n.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 && len(as.Rhs) == 1 {
			if u, ok := as.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.AND {
				if _, ok := u.X.(*ast.CompositeLit); ok {
					if id, ok := as.Lhs[0].(*ast.Ident); ok {
						freshLocal[p.Info.Defs[id]] = true
					}
				}
			}
		}
		return true
	})
	mark := func(e ast.Expr) {
		switch x := ast.Unparen(e).(type) {
		case *ast.SelectorExpr:
			if sel := p.Info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal {
				if v, ok := sel.Obj().(*types.Var); ok {
					if id, ok := x.X.(*ast.Ident); ok && freshLocal[p.Info.Uses[id]] && pr.lateInit(p, v) {
						return
					}
					assigned[v] = true
				}
			}
		case *ast.StarExpr:
			if st, ok := p.Info.TypeOf(x).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					assigned[st.Field(i)] = true
				}
			}
		case *ast.Ident:
			if v, ok := p.Info.Uses[x].(*types.Var); ok && v.Parent() == p.Types.Scope() {
				pr.GlobalAssn[v] = true
			}
			if v, ok := p.Info.Uses[x].(*types.Var); ok {
				if st, ok := v.Type().Underlying().(*types.Struct); ok {
					_ = st
				}
			}
		}
	}
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				for _, l := range n.Lhs {
					mark(l)
				}
			}
		case *ast.IncDecStmt:
			mark(n.X)
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				mark(n.Key)
				if n.Value != nil {
					mark(n.Value)
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				switch x := ast.Unparen(n.X).(type) {
				case *ast.Ident:
					if o := p.Info.Uses[x]; o != nil {
						pr.addrTaken[o] = true
					}
				case *ast.SelectorExpr:
					mark(x) // address of a field escapes: not immutable
				}
			}
		case *ast.SelectorExpr:
			// implicit address-of for pointer-receiver method on addressable variable
			if sel := p.Info.Selections[n]; sel != nil && sel.Kind() == types.MethodVal {
				if fn, ok := sel.Obj().(*types.Func); ok {
					sig := fn.Type().(*types.Signature)
					if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
						if id, ok := ast.Unparen(n.X).(*ast.Ident); ok {
							if o := p.Info.Uses[id]; o != nil {
								if _, isp := o.Type().Underlying().(*types.Pointer); !isp {
									pr.addrTaken[o] = true
								}
							}
						}
					}
				}
			}
		}
		return true
	})
}

// lateInit: the field may be set right after construction of a fresh object. Only the self references of the exact types.
func (pr *Prog) lateInit(p *Pkg, v *types.Var) bool { return v.Name() == "ExactType" }

func (pr *Prog) pkgByName(n string) *Pkg {
	for _, p := range pr.Order {
		if p.Name == n {
			return p
		}
	}
	return nil
}

func funcKey(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	pn := ""
	if fn.Pkg() != nil {
		pn = fn.Pkg().Name()
	}
	if sig.Recv() == nil {
		return pn + "." + fn.Name()
	}
	rt := sig.Recv().Type()
	star := ""
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
		star = "*"
	}
	name := "?"
	if n, ok := rt.(*types.Named); ok {
		name = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			pn = n.Obj().Pkg().Name()
		}
	}
	if star != "" {
		return pn + ".(*" + name + ")." + fn.Name()
	}
	return pn + "." + name + "." + fn.Name()
}

// DPkgName tells whether path is a package of the repository.
func (pr *Prog) DPkgName(path string) bool { return pr.Pkgs[path] != nil }
