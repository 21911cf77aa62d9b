package main

import "go/ast"

func declDoc(n ast.Node) ([]string, bool) {
	fd, ok := n.(*ast.FuncDecl)
	if !ok || fd.Doc == nil {
		return nil, false
	}
	var out []string
	for _, c := range fd.Doc.List {
		out = append(out, c.Text)
	}
	return out, true
}
