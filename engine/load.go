package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/go-bond/bond"

// buildOverlay maps harness sources into the module and applies the source
// seams (scaled constants, clock) to the repository's current files.
func buildOverlay(repo, harness string, consts map[string]string, yield, native bool) (map[string][]byte, []string, error) {
	ov := map[string][]byte{}
	var notes []string
	err := filepath.WalkDir(harness, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(harness, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repo, "zzverif", rel)] = b
		return nil
	})
	if err != nil {
		return nil, nil, err
	}
	dirs := []string{".", "utils", "bloom", "filters", "cond", "serializers"}
	found := map[string]bool{}
	for _, d := range dirs {
		files, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			out, hit := rewrite(f, src, consts, yield, native)
			for _, h := range hit {
				found[h] = true
			}
			if out != nil {
				ov[f] = out
			}
		}
	}
	for k := range consts {
		if found[k] {
			notes = append(notes, fmt.Sprintf("constant %s scaled to %s", k, consts[k]))
		} else {
			notes = append(notes, fmt.Sprintf("constant %s not found: not scaled", k))
		}
	}
	if found["time.Now"] {
		notes = append(notes, "time.Now redirected to the harness clock")
	}
	sort.Strings(notes)
	return ov, notes, nil
}

type edit struct {
	lo, hi int
	txt    string
}

func rewrite(name string, src []byte, consts map[string]string, yield, native bool) ([]byte, []string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, nil
	}
	var eds []edit
	var hit []string
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || (g.Tok != token.CONST && g.Tok != token.VAR) {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if v, ok := consts[n.Name]; ok && i < len(vs.Values) {
					eds = append(eds, edit{off(vs.Values[i].Pos()), off(vs.Values[i].End()), v})
					hit = append(hit, n.Name)
				}
			}
		}
	}
	needNd := false
	// clock seam
	timeName := ""
	var timeImp *ast.ImportSpec
	for _, im := range f.Imports {
		if im.Path.Value == `"time"` {
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
			timeImp = im
		}
	}
	if timeName != "" && timeName != "_" && timeName != "." {
		other := 0
		var nows []*ast.SelectorExpr
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := s.X.(*ast.Ident)
			if ok && id.Name == timeName && id.Obj == nil {
				if s.Sel.Name == "Now" {
					nows = append(nows, s)
				} else {
					other++
				}
			}
			return true
		})
		if len(nows) > 0 {
			for _, s := range nows {
				eds = append(eds, edit{off(s.Pos()), off(s.End()), "zznd.Now"})
			}
			imp := "zznd \"" + ndPkg + "\""
			if other == 0 {
				imp += "; import _ \"time\""
			} else {
				imp += "; import " + timeName + " \"time\""
			}
			_ = timeImp
			// replace the import of time by the clock seam (same line)
			needNd = true
			if other == 0 {
				// keep the time import used
				eds = append(eds, edit{len(src), len(src), "\nvar _ = " + timeName + ".Second\n"})
			}
			hit = append(hit, "time.Now")
		}
	}
	if yield {
		list := func(ss []ast.Stmt) {
			for _, x := range ss {
				if _, ok := x.(*ast.EmptyStmt); ok {
					continue
				}
				needNd = true
				eds = append(eds, edit{off(x.Pos()), off(x.Pos()), "zznd.P(); "})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
	}
	if native {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				t := `"` + modPath + `/zzverif/zzsync"`
				if im.Name == nil {
					t = "sync " + t
				}
				eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), t})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			g, ok := n.(*ast.GoStmt)
			if !ok {
				return true
			}
			needNd = true
			var names, vals []string
			for i, a := range g.Call.Args {
				inline := false
				ast.Inspect(a, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.FuncLit:
						inline = true
					case *ast.Ident:
						inline = inline || x.Name == "nil" || x.Name == "true" || x.Name == "false"
					case *ast.BasicLit:
						inline = true
					}
					return true
				})
				if inline {
					continue
				}
				nm := fmt.Sprintf("zza%d", i)
				names = append(names, nm)
				vals = append(vals, string(src[off(a.Pos()):off(a.End())]))
				eds = append(eds, edit{off(a.Pos()), off(a.End()), nm})
			}
			t := "{ "
			if len(names) > 0 {
				t += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
			}
			eds = append(eds, edit{off(g.Go), off(g.Go) + 2, t + "zznd.Go(func() {"}, edit{off(g.End()), off(g.End()), " }) }"})
			return true
		})
	}
	if needNd {
		pos := off(f.Name.End())
		eds = append(eds, edit{pos, pos, "; import zznd \"" + ndPkg + "\""})
	}
	if len(eds) == 0 {
		return nil, nil
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].lo > eds[j].lo })
	out := append([]byte{}, src...)
	for _, e := range eds {
		out = append(out[:e.lo:e.lo], append([]byte(e.txt), out[e.hi:]...)...)
	}
	if _, err := format.Source(out); err != nil {
		return nil, nil
	}
	return out, hit
}

func loadProg(repo string, overlay map[string][]byte, pats []string) (*Prog, error) {
	os.Setenv("PATH", "/usr/lib/go-1.21/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Overlay:    overlay,
		BuildFlags: []string{"-tags=purego,math_big_pure_go,appengine"},
		Env: append(os.Environ(), "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOFLAGS=-mod=readonly",
			"GOPROXY=off", "GOWORK=off", "GO111MODULE=on"),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs bytes.Buffer
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				fmt.Fprintln(&errs, e)
			}
		}
	})
	if errs.Len() > 0 {
		return nil, fmt.Errorf("load: %s", errs.String())
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	p := &Prog{ssa: prog, pkgs: map[string]*ssa.Package{}, fns: map[*ssa.Function]*Fn{}, meth: map[methKey]*Fn{},
		redir: map[string]*ssa.Function{}, initSl: map[*ssa.Global]*initSlice{}, comp: map[[2]types.Type]bool{},
		rts: map[types.Type]*rType{}, methNm: map[methNameKey]*Fn{}, modPfx: modPath}
	p.sizes = types.SizesFor("gc", "amd64")
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	if rt := p.pkgs["runtime"]; rt != nil {
		p.errStr = rt.Type("errorString").Type()
	}
	// redirect directives: //verif:redirect <full function name>
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, modPath+"/zzverif") {
			return
		}
		sp := p.pkgs[pk.PkgPath]
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if s, ok := strings.CutPrefix(c.Text, "//verif:redirect "); ok {
						p.redir[strings.TrimSpace(s)] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	})
	return p, nil
}

// repoInits returns the func init() bodies of the module's own packages.
func (p *Prog) repoInits() []*Fn {
	var out []*Fn
	var paths []string
	for k := range p.pkgs {
		if strings.HasPrefix(k, modPath) {
			paths = append(paths, k)
		}
	}
	sort.Strings(paths)
	for _, k := range paths {
		sp := p.pkgs[k]
		if in := sp.Func("init"); in != nil {
			for _, b := range in.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok {
						if f, ok := c.Call.Value.(*ssa.Function); ok && f.Pkg == sp && strings.HasPrefix(f.Name(), "init#") {
							out = append(out, p.fn(f))
						}
					}
				}
			}
		}
	}
	return out
}
