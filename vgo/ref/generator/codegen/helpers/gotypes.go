package helpers

import (
	"go/ast"

	asthlp "github.com/iv-menshenin/go-ast"
)

func DenotedType(expr ast.Expr) ast.Expr {
	switch typed := expr.(type) {
	case *ast.Ident:
		return DenotedIdent(typed)

	case *ast.SelectorExpr:
		if !IsTime(typed) && !IsUUID(typed) {
			return DenotedIdent(typed.Sel)
		}
	}
	return expr
}

// ElementType is DenotedType, but a type defined by a time or UUID has methods of its own
func ElementType(expr ast.Expr) ast.Expr {
	dt := DenotedType(expr)
	if sel, ok := dt.(*ast.SelectorExpr); ok && (IsTime(sel) || IsUUID(sel)) {
		return expr
	}
	return dt
}

// IsTime tells time.Time from a type of the same name that is declared in the project
func IsTime(sel *ast.SelectorExpr) bool {
	return sel.Sel.Name == "Time" && sel.Sel.Obj == nil
}

// IsUUID tells uuid.UUID from a type of the same name that is declared in the project
func IsUUID(sel *ast.SelectorExpr) bool {
	return sel.Sel.Name == "UUID" && sel.Sel.Obj == nil
}

// TimeOrUUID converts the value of a type defined by a time or UUID to it
func TimeOrUUID(value ast.Expr, denoted ast.Expr, isStar bool) ast.Expr {
	var t ast.Expr
	sel, ok := denoted.(*ast.SelectorExpr)
	switch {
	case ok && IsTime(sel):
		t = asthlp.SimpleSelector("time", "Time")
	case ok && IsUUID(sel):
		t = asthlp.SimpleSelector("uuid", "UUID")
	default:
		return value
	}
	if isStar {
		t = asthlp.ParenExpr(asthlp.Star(t))
	}
	return asthlp.ExpressionTypeConvert(value, t)
}

func DenotedIdent(t *ast.Ident) ast.Expr {
	if t.Obj != nil {
		ts, ok := t.Obj.Decl.(*ast.TypeSpec)
		if ok {
			if i, ok := ts.Type.(*ast.Ident); ok {
				return DenotedIdent(i)
			}
			return ts.Type
		}
	}
	return t
}

func Ordinal(s string) bool {
	switch s {
	case "int", "int8", "int16", "int32", "int64":
		return true
	case "uint", "uint8", "uint16", "uint32", "uint64":
		return true
	case "float32", "float64":
		return true
	case "bool":
		return true
	case "string":
		return true
	case "byte", "rune":
		return true
	default:
		return false
	}
}
