// Package goval reads the files that the generators of the repository write, and provides the web that they read.
package goval

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
)

// Mappings type-checks a generated file and returns the package name and the value of its variable mappings.
func Mappings(source []byte) (string, map[string]string, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "generated.go", source, parser.ParseComments)
	if err != nil {
		return "", nil, fmt.Errorf("does not parse: %v", err)
	}
	if formatted, err := format.Source(source); err != nil || !bytes.Equal(formatted, source) {
		return "", nil, fmt.Errorf("is not formatted: %v", err)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{}
	pkg, err := conf.Check("generated", fset, []*ast.File{file}, info)
	if err != nil {
		return "", nil, fmt.Errorf("does not compile: %v", err)
	}
	v, ok := pkg.Scope().Lookup("mappings").(*types.Var)
	if !ok {
		return "", nil, fmt.Errorf("has no variable mappings")
	}
	if s := v.Type().Underlying().String(); s != "map[string]string" {
		return "", nil, fmt.Errorf("variable mappings is a %s", s)
	}
	mappings := map[string]string{}
	for _, d := range file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, spec := range g.Specs {
			vs, ok := spec.(*ast.ValueSpec)
			if !ok || len(vs.Names) != 1 || vs.Names[0].Name != "mappings" || len(vs.Values) != 1 {
				continue
			}
			lit, ok := vs.Values[0].(*ast.CompositeLit)
			if !ok {
				return "", nil, fmt.Errorf("mappings is not a literal")
			}
			for _, e := range lit.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					return "", nil, fmt.Errorf("mappings has an element that is not a pair")
				}
				key, value := info.Types[kv.Key].Value, info.Types[kv.Value].Value
				if key == nil || value == nil || key.Kind() != constant.String || value.Kind() != constant.String {
					return "", nil, fmt.Errorf("mappings has an element that is not constant")
				}
				mappings[constant.StringVal(key)] = constant.StringVal(value)
			}
		}
	}
	return file.Name.Name, mappings, nil
}

// Differ compares mappings.
func Differ(got, want map[string]string) error {
	var keys []string
	for k := range got {
		keys = append(keys, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		g, inGot := got[k]
		w, inWant := want[k]
		switch {
		case !inGot:
			return fmt.Errorf("lacks %q → %q", k, w)
		case !inWant:
			return fmt.Errorf("has %q → %q, which is not expected", k, g)
		case g != w:
			return fmt.Errorf("has %q → %q, expected %q", k, g, w)
		}
	}
	return nil
}
