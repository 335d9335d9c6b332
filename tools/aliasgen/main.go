// Command aliasgen writes zz_aliases.go for a shim package: aliases for every exported name of the real
// package that the shim's own files do not declare.
//
//	aliasgen <real import path> <shim dir>
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	path, dir := os.Args[1], os.Args[2]
	pkg, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	have := map[string]bool{}
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool { return fi.Name() != "zz_aliases.go" }, 0)
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	var b bytes.Buffer
	base := strings.TrimSuffix(path, "/v2")
	base = filepath.Base(base)
	fmt.Fprintf(&b, "//go:build go1.21\n\n// Code generated by aliasgen. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", base, path)
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	if !strings.Contains(b.String(), "= real.") {
		fmt.Fprintf(&b, "var _ = real.%s\n", names[0])
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_aliases.go"), b.Bytes(), 0o644); err != nil {
		panic(err)
	}
}
