package main

import (
	"go/ast"
	"go/token"
	"reflect"
)

// clearPos zeroes every position in the tree (the printer then lays the file
// out afresh), except the ones whose validity carries meaning.
func clearPos(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		v := reflect.ValueOf(n)
		if v.Kind() != reflect.Ptr {
			return true
		}
		v = v.Elem()
		if v.Kind() != reflect.Struct {
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() != reflect.TypeOf(token.Pos(0)) || !f.CanSet() {
				continue
			}
			name := v.Type().Field(i).Name
			switch {
			case name == "Ellipsis" || name == "Lparen" || name == "Rparen" || name == "Assign" || name == "Arrow":
				if f.Int() != 0 && keepPos(n, name) {
					f.SetInt(1)
				} else {
					f.SetInt(0)
				}
			default:
				f.SetInt(0)
			}
		}
		if d, ok := n.(*ast.GenDecl); ok {
			d.Doc = nil
		}
		return true
	})
}

func keepPos(n ast.Node, name string) bool {
	switch n.(type) {
	case *ast.CallExpr:
		return name == "Ellipsis"
	case *ast.GenDecl:
		return name == "Lparen" || name == "Rparen"
	case *ast.TypeSpec:
		return name == "Assign"
	}
	return false
}
