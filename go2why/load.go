package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Pkg is one type-checked package of the repository.
type Pkg struct {
	Path  string
	Name  string // short name used in contract keys ("" for the root package)
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	DepOnly    bool
	Standard   bool
}

// ownImporter gives the packages which are verified themselves as checked
// from source, so that there is one object for each of their functions.
type ownImporter struct {
	types.Importer
	own map[string]*types.Package
}

func (o *ownImporter) Import(path string) (*types.Package, error) {
	if p := o.own[path]; p != nil {
		return p, nil
	}
	return o.Importer.Import(path)
}

// Load type-checks the repository's packages from the current working tree.
func Load(repo string, fset *token.FileSet) ([]*Pkg, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,DepOnly,Standard", ".", "./internal/...")
	cmd.Dir = repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var mine []listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly && !p.Standard {
			mine = append(mine, p)
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	// go list -deps puts dependencies first
	own := &ownImporter{imp, map[string]*types.Package{}}
	var pkgs []*Pkg
	for _, lp := range mine {
		p := &Pkg{Path: lp.ImportPath}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		p.Info = &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits:  map[ast.Node]types.Object{},
			Scopes:     map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: own, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(lp.ImportPath, fset, p.Files, p.Info)
		if err != nil {
			return nil, err
		}
		p.Types = tp
		own.own[lp.ImportPath] = tp
		p.Name = tp.Name()
		if strings.HasSuffix(lp.ImportPath, "/flate") {
			p.Name = ""
		}
		pkgs = append(pkgs, p)
	}
	return pkgs, nil
}
