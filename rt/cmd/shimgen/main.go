// shimgen writes zz_gen.go re-exporting everything a standard package exports,
// except the names that the shim package itself declares.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	std, dir := os.Args[1], os.Args[2]
	have := map[string]bool{}
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool { return fi.Name() != "zz_gen.go" }, 0)
	if err != nil {
		panic(err)
	}
	name := ""
	for n, p := range pkgs {
		name = n
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(std)
	if err != nil {
		panic(err)
	}
	alias := "real" + std[strings.LastIndex(std, "/")+1:]
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by shimgen from package %s; DO NOT EDIT.\n\npackage %s\n\nimport %s %q\n\n", std, name, alias, std)
	names := p.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = %s.%s\n", n, alias, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = %s.%s\n", n, alias, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, alias, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, alias, n)
		}
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(dir+"/zz_gen.go", out, 0o644); err != nil {
		panic(err)
	}
}
