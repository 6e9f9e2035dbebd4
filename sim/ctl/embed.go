package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"
)

// embedSetter is the source of a function that sets the variables the package
// embeds files in, by file. The "ne" build leaves them empty, and the data is
// not all there; the go:embed directives say which variable holds which file.
func (in *instr) embedSetter(repo string) string {
	var b strings.Builder
	b.WriteString("package gse\n\n// VsimEmbed sets the embedded files and says which it could set.\nfunc VsimEmbed(m map[string]string) map[string]bool {\n\tset := map[string]bool{}\n")
	names, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), n, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				doc := vs.Doc
				if doc == nil && len(g.Specs) == 1 {
					doc = g.Doc
				}
				if doc == nil || len(vs.Names) != 1 {
					continue
				}
				for _, c := range doc.List {
					file := strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:embed "))
					if !strings.HasPrefix(c.Text, "//go:embed ") || strings.ContainsAny(file, " *?[") {
						continue
					}
					p := in.pkgs[gsePath]
					if p == nil || p.tpkg == nil {
						continue
					}
					v, ok := p.tpkg.Scope().Lookup(vs.Names[0].Name).(*types.Var)
					if !ok || v.Type() != types.Typ[types.String] {
						continue
					}
					fmt.Fprintf(&b, "\tif v, ok := m[%q]; ok {\n\t\t%s = v\n\t\tset[%q] = true\n\t}\n", strings.Trim(file, "\"`"), v.Name(), strings.Trim(file, "\"`"))
				}
			}
		}
	}
	b.WriteString("\treturn set\n}\n")
	return b.String()
}
