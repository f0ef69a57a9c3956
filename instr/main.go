// instr rewrites the library under test so that all its concurrency, time and
// map iteration go through the model-checking runtime vh/mc.
//
// usage: instr -repo DIR -out DIR
//
// It loads the library package and every non-standard package it depends on
// with go list, type-checks them from source and writes the rewritten sources
// to OUT/snapws and OUT/dep/<path>. It judges nothing about how the code is
// written: any Go code using the standard primitives is accepted.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	SFiles     []string
	Imports    []string
	Standard   bool
	Export     string
	Error      *struct{ Err string }
}

var (
	fset   = token.NewFileSet()
	pkgs   = map[string]*listPkg{}
	order  []*listPkg
	loaded = map[string]*types.Package{}
	root   string
)

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type imp struct{ gc types.ImporterFrom }

func (i imp) Import(p string) (*types.Package, error) {
	if q, ok := loaded[p]; ok {
		return q, nil
	}
	return i.gc.Import(p)
}

func newPath(p string) string {
	if p == root {
		return "vh/snapws"
	}
	return "vh/dep/" + p
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,SFiles,Imports,Standard,Export,Error", ".")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatalf("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatalf("go list output: %v", err)
		}
		if p.Error != nil {
			fatalf("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs[p.ImportPath] = p
		if !p.Standard {
			order = append(order, p)
			root = p.ImportPath // -deps lists the named package last
		}
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}).(types.ImporterFrom)
	for _, p := range order {
		if len(p.CgoFiles) > 0 || len(p.SFiles) > 0 {
			fatalf("%s uses cgo or assembly", p.ImportPath)
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				fatalf("%v", err)
			}
			files = append(files, a)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp{gc}, GoVersion: "go1.24"}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatalf("typecheck: %v", err)
		}
		loaded[p.ImportPath] = tp
		dir := filepath.Join(*out, "snapws")
		if p.ImportPath != root {
			dir = filepath.Join(*out, "dep", p.ImportPath)
		}
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fatalf("%v", err)
		}
		for i, f := range files {
			r := &rw{info: info, pkg: tp}
			r.file(f)
			var buf bytes.Buffer
			if err := format.Node(&buf, fset, f); err != nil {
				fatalf("%s: %v", p.GoFiles[i], err)
			}
			if err := os.WriteFile(filepath.Join(dir, p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
				fatalf("%v", err)
			}
		}
	}
}

func (r *rw) file(f *ast.File) {
	for i, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		f.Decls[i] = r.decl(d)
	}
	// imports still in use
	used := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
						used[pn.Imported().Path()+" "+pn.Name()] = true
					}
				}
			}
			return true
		})
	}
	var specs []ast.Spec
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		name := ""
		if s.Name != nil {
			name = s.Name.Name
		}
		p := pkgs[path]
		real := filepath.Base(path)
		if q, ok := loaded[path]; ok {
			real = q.Name()
		} else if p != nil {
			real = p.Name
		}
		eff := name
		if eff == "" {
			eff = real
		}
		if name != "_" && name != "." && !used[path+" "+eff] {
			continue
		}
		np := path
		if p != nil && !p.Standard {
			np = newPath(path)
			if name == "" {
				name = real
			}
		}
		ns := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}}
		if name != "" {
			ns.Name = ast.NewIdent(name)
		}
		specs = append(specs, ns)
	}
	if r.usesMC {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(mcName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vh/mc"`}})
	}
	var decls []ast.Decl
	if len(specs) > 0 {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 2, Specs: specs})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	f.Imports = nil
	f.Comments = nil
	f.Doc = nil
}

const mcName = "mcΔ"

var _ = strings.HasPrefix
