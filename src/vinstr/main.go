// vinstr translates Go packages so that their synchronisation, clock reads, map iteration and
// shared memory accesses go through package vsched.
//
// usage: vinstr -src GOPATHSRC -out OUTSRC -mod full|sync pkg...
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

var (
	out  = flag.String("out", "", "output src directory")
	mode = flag.String("mode", "full", "full: also memory accesses; sync: synchronisation only")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vinstr: "+f+"\n", a...)
	os.Exit(2)
}

type pkgInfo struct {
	dir   string
	files []string
}

func main() {
	flag.Parse()
	pkgs := flag.Args()
	// export data of all dependencies, and the files of the packages to translate
	args := append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}\t{{.Dir}}\t{{range .GoFiles}}{{.}} {{end}}"}, pkgs...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	infos := map[string]pkgInfo{}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		f := strings.Split(l, "\t")
		exports[f[0]] = f[1]
		infos[f[0]] = pkgInfo{f[2], strings.Fields(f[3])}
	}
	for _, p := range pkgs {
		in, ok := infos[p]
		if !ok {
			die("no package %s", p)
		}
		translate(p, in, exports)
	}
}

func translate(path string, in pkgInfo, exports map[string]string) {
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		e := exports[p]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(e)
	})
	var files []*ast.File
	var names []string
	skip := map[string]bool{}
	for _, n := range in.files {
		src, err := os.ReadFile(filepath.Join(in.dir, n))
		if err != nil {
			die("%v", err)
		}
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "//go:") && !strings.HasPrefix(l, "//go:build") && !strings.HasPrefix(l, "//go:noinline") && !strings.HasPrefix(l, "//go:generate") {
				skip[n] = true
			}
		}
		f, err := parser.ParseFile(fset, filepath.Join(in.dir, n), src, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
		names = append(names, n)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes:     map[ast.Node]*types.Scope{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check(path, fset, files, info)
	if err != nil {
		die("typecheck %s: %v", path, err)
	}
	odir := filepath.Join(*out, filepath.FromSlash(path))
	if err := os.MkdirAll(odir, 0o755); err != nil {
		die("%v", err)
	}
	captured := findCaptured(files, info, pkg)
	for i, f := range files {
		dst := filepath.Join(odir, names[i])
		if skip[names[i]] {
			src, _ := os.ReadFile(filepath.Join(in.dir, names[i]))
			os.WriteFile(dst, src, 0o644)
			continue
		}
		r := &rw{fset: fset, info: info, pkg: pkg, captured: captured, file: names[i], full: *mode == "full"}
		r.rewriteFile(f)
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, f); err != nil {
			die("print %s: %v", names[i], err)
		}
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
}

// findCaptured returns the local variables used inside a function literal that does not declare them.
func findCaptured(files []*ast.File, info *types.Info, pkg *types.Package) map[types.Object]bool {
	res := map[types.Object]bool{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			fl, ok := n.(*ast.FuncLit)
			if !ok {
				return true
			}
			ast.Inspect(fl, func(m ast.Node) bool {
				id, ok := m.(*ast.Ident)
				if !ok {
					return true
				}
				v, ok := info.Uses[id].(*types.Var)
				if !ok || v.IsField() || v.Pkg() != pkg {
					return true
				}
				if v.Parent() == pkg.Scope() {
					return true
				}
				if v.Pos() < fl.Pos() || v.Pos() > fl.End() {
					res[v] = true
				}
				return true
			})
			return true
		})
	}
	return res
}

type rw struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	captured map[types.Object]bool
	file     string
	full     bool
	tmp      int
	used     bool
}

func (r *rw) site(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", r.file, p.Line))}
}

func (r *rw) v(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(name)}
}

func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.v(name), Args: args}
}

func (r *rw) newTmp() string {
	r.tmp++
	return fmt.Sprintf("vtmp_%d", r.tmp)
}

var timeFuncs = map[string]string{"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "Tick": "Tick_"}
var envFuncs = map[string]string{
	"syscall.Getrusage": "Getrusage", "runtime.ReadMemStats": "ReadMemStats",
	"runtime.NumGoroutine": "NumGoroutine", "runtime.Gosched": "Gosched",
	"maps.Keys": "MapKeys", "maps.Values": "MapValues", "maps.All": "MapAll",
}

func (r *rw) rewriteFile(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, sp := range d.Specs {
					vs := sp.(*ast.ValueSpec)
					for i := range vs.Values {
						vs.Values[i] = r.expr(vs.Values[i])
					}
				}
			}
		}
	}
	// imports
	usedPaths := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				usedPaths[pn.Imported().Path()] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	if r.used {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("vsched")}}}})
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, sp := range g.Specs {
			is := sp.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			}
			if name != "_" && name != "." && !usedPaths[p] {
				continue
			}
			switch p {
			case "sync":
				if name == "" {
					name = "sync"
				}
				p = "vsched/vsync"
			case "sync/atomic":
				if name == "" {
					name = "atomic"
				}
				p = "vsched/vatomic"
			}
			n := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}}
			if name != "" {
				n.Name = ast.NewIdent(name)
			}
			decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{n}})
		}
	}
	f.Decls = decls
	f.Imports = nil
	f.Comments = nil
	f.Doc = nil
}
