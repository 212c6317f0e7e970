// Command genshim writes zz_forward.go in a shim package: aliases and forwards for
// every exported identifier of a standard package that the shim does not define
// itself. Run by hand when a shim changes; its output is committed.
//
//	genshim STDPATH DIR [NAME,NAME...|@nofunc]
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	std, dir := os.Args[1], os.Args[2]
	only := map[string]bool{}
	noFunc := len(os.Args) > 3 && os.Args[3] == "@nofunc"
	if len(os.Args) > 3 && !noFunc {
		for _, n := range strings.Split(os.Args[3], ",") {
			only[n] = true
		}
	}
	fset := token.NewFileSet()
	p, err := importer.ForCompiler(fset, "source", nil).Import(std)
	if err != nil {
		panic(err)
	}
	have := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "zz_forward.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by genshim from package %s; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", std, p.Name(), std)
	names := p.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		if len(only) > 0 && !only[n] {
			continue
		}
		if noFunc {
			switch o.(type) {
			case *types.Func, *types.Var:
				continue
			}
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_forward.go"), []byte(b.String()), 0o644); err != nil {
		panic(err)
	}
}
