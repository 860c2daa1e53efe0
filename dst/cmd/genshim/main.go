// genshim writes shim/<pkg>/zz_alias.go: every exported name of the real
// package that the hand-written shim files do not define.
package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	root := os.Args[1]
	pkgs := os.Args[2:]
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	for _, p := range pkgs {
		dir := filepath.Join(root, filepath.FromSlash(p))
		defined := map[string]bool{}
		pname := ""
		fset := token.NewFileSet()
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "zz_alias.go") {
				continue
			}
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			pname = af.Name.Name
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						defined[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							defined[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								defined[n.Name] = true
							}
						}
					}
				}
			}
		}
		tp, err := imp.Import(p)
		if err != nil {
			panic(err)
		}
		if pname == "" {
			pname = tp.Name()
		}
		names := tp.Scope().Names()
		sort.Strings(names)
		var b strings.Builder
		fmt.Fprintf(&b, "// Code generated by genshim. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", pname, p)
		used := false
		for _, n := range names {
			o := tp.Scope().Lookup(n)
			if !o.Exported() || defined[n] {
				continue
			}
			switch o := o.(type) {
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
			case *types.Const:
				// keep typed and untyped constants as they are
				_ = constant.Unknown
				fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
			}
			used = true
		}
		if !used {
			os.Remove(filepath.Join(dir, "zz_alias.go"))
			continue
		}
		if err := os.WriteFile(filepath.Join(dir, "zz_alias.go"), []byte(b.String()), 0644); err != nil {
			panic(err)
		}
	}
}
