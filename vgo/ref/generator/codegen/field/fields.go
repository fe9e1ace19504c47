package field

import (
	"fmt"
	"go/ast"
	"unicode"

	asthlp "github.com/iv-menshenin/go-ast"

	"github.com/iv-menshenin/valyjson/generator/codegen/helpers"
	"github.com/iv-menshenin/valyjson/generator/codegen/names"
	"github.com/iv-menshenin/valyjson/generator/codegen/tags"
)

type (
	// Field render helper for ast.Field
	Field struct {
		// field
		field ast.Expr
		// expr represents field type expression
		expr ast.Expr
		// refx represents field type denoted value
		refx ast.Expr
		// tags contains tag descriptor
		tags tags.Tags
		// isStar is type is ref to type
		isStar bool
		// isStarType is type is type of ref
		isStarType bool
		// isNullable is type nullable
		isNullable bool
		// dontCheckErr do not check error and not to return
		dontCheckErr bool
		// filled if already filled this field (by reference for example)
		filled bool
		// isElem the value is an element of a list or map, its error is handled by the code of the list or map
		isElem bool
		// level counts code hierarchy
		level int
	}
)

func New(f *ast.Field) *Field {
	if f.Tag == nil && len(f.Names) > 0 {
		panic("you must fill in all fields with tags")
	}
	var ff = Field{
		expr: f.Type,
	}
	if f.Tag != nil {
		ff.tags = tags.Parse(f.Tag.Value)
	}
	ff.prepareRef()
	return &ff
}

func NewFromType(expr ast.Expr, isStar bool) *Field {
	var ff = Field{
		expr:   expr,
		isStar: isStar,
	}
	ff.prepareRef()
	return &ff
}

func (f *Field) prepareRef() {
	var dstType = f.expr
	star, isStar := dstType.(*ast.StarExpr)
	if isStar {
		f.expr = star.X
		f.isStar = true
	}
	_, isArray := dstType.(*ast.ArrayType)
	_, isMap := dstType.(*ast.MapType)
	_, isStruct := dstType.(*ast.StructType)
	f.isNullable = isStar || isArray || isMap || isStruct
	f.fillDenotedType()
}

func (f *Field) fillDenotedType() {
	dt := helpers.DenotedType(f.expr)
	if i, ok := dt.(*ast.Ident); ok && helpers.Ordinal(i.Name) {
		f.refx = dt
		return
	}
	if i, ok := f.expr.(*ast.Ident); ok {
		f.refx = helpers.DenotedIdent(i)
		return
	}
	f.refx = f.expr
}

func (f *Field) DontCheckErr() {
	f.dontCheckErr = true
}

// IsElem leaves the error of the value to the code that stores the value
func (f *Field) IsElem() {
	f.isElem = true
}

// FillStatements makes statements processed data-filling for struct field
//
//		if offset := v.Get("offset"); offset != nil {
//	     var vOffset int
//	     vOffset, err = offset.Int()
//	     if err != nil {
//	         return fmt.Errorf("error parsing '%s.limit' value: %w", objPath, err)
//	     }
//	     s.Offset = vOffset
//		} else {
//	     s.Offset = 100
//		}
func (f *Field) FillStatements(name string) []ast.Stmt {
	if f.tags.JsonName() == "-" {
		return nil
	}
	var v = intermediateVarName(name, f.tags)
	var body *ast.BlockStmt
	var els *ast.BlockStmt
	if stmt := f.fillFrom(name, v); len(stmt) > 0 {
		body = &ast.BlockStmt{List: stmt}
	}
	if stmt := f.ifDefault(v, name); len(stmt) > 0 {
		els = &ast.BlockStmt{List: stmt}
	}
	if body == nil {
		panic(fmt.Errorf("can`t prepare AST for '%s'", name))
	}
	var condition = asthlp.NotNil(ast.NewIdent(v))
	if f.isNullable {
		condition = asthlp.Call(asthlp.InlineFunc(asthlp.NewIdent("valueIsNotNull")), ast.NewIdent(v))
	}
	return asthlp.Block(
		asthlp.IfInitElse(
			f.extract(v),
			condition,
			body,
			els,
		),
	).List
}

// result.WriteString("\"field\":")
// b, err = marshalString(s.Field, buf[:0])
//
//	if err != nil {
//		return nil, err
//	}
//
// result.Write(b)
func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
	switch tt := f.refx.(type) {

	case *ast.StarExpr:
		f.isStarType = true
		intF := *f
		intF.refx = tt.X
		intF.isStar = true
		intF.level = f.level + 1
		if f.isStar {
			src = asthlp.Star(src)
		}
		return intF.MarshalStatements(src, name)

	case *ast.Ident:
		return f.typeMarshal(src, tt.Name)

	case *ast.SelectorExpr:
		if _, named := f.expr.(*ast.Ident); named && !f.isStarType {
			src = helpers.TimeOrUUID(src, tt, f.isStar)
		}
		if helpers.IsTime(tt) {
			block := timeMarshal(src, f.tags.JsonName(), f.tags.Layout(), f.tags.JsonOption("omitempty"), f.isStar)
			return block.Render(putCommaFirstIf)
		}
		if helpers.IsUUID(tt) {
			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), f.isStar)
			return block.Render(putCommaFirstIf)
		}
		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), f.isStar).Render(putCommaFirstIf)

	case *ast.StructType:
		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), f.isStar).Render(putCommaFirstIf)

	case *ast.MapType:
		var isString bool
		if i, ok := tt.Key.(*ast.Ident); ok {
			isString = i.Name == "string"
		}
		dec := GetDecorExpr(tt.Value)
		valType := helpers.ElementType(tt.Value)
		errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
		block := mapMarshal(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), isString, GetValueExtractor(valType, errExpr, dec))
		return block.Render(putCommaFirstIf)

	case *ast.ArrayType:
		var block WriteBlock
		if helpers.IsIdent(tt.Elt, "byte") {
			block = byteSliceMarshal(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), tt)
		} else {
			dec := GetDecorExpr(tt.Elt)
			valType := helpers.ElementType(tt.Elt)
			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
		}
		return block.Render(putCommaFirstIf)

	default:
		// todo @menshenin panic
		panic("not implemented")
	}
}

type ValueExtractor func(src ast.Expr) []ast.Stmt
type DecorSrc func(e ast.Expr) ast.Expr

func EmptyDecorSrc(e ast.Expr) ast.Expr {
	return e
}

func GetDecorExpr(valType ast.Expr) DecorSrc {
	if dt := helpers.DenotedType(valType); dt != valType && helpers.IsIdent(dt, "string") {
		return func(e ast.Expr) ast.Expr {
			return asthlp.ExpressionTypeConvert(e, asthlp.String)
		}
	}
	return EmptyDecorSrc
}

func GetValueExtractor(t, errExpr ast.Expr, initDecorSrc DecorSrc) ValueExtractor {
	if errExpr == nil {
		errExpr = asthlp.NewIdent(names.VarNameError)
	}
	transitMarshaller := func(src ast.Expr) []ast.Stmt {
		return []ast.Stmt{
			// err = v.MarshalTo(result)
			asthlp.Assign(
				asthlp.VarNames{asthlp.NewIdent(names.VarNameError)},
				asthlp.Assignment,
				asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameMarshalTo)), asthlp.NewIdent(names.VarNameWriter)),
			),
			//	if err != nil {
			//		return fmt.Errorf(`can't marshal "name" attribute %q: %w`, k, err)
			//	}
			asthlp.If(asthlp.NotNil(asthlp.NewIdent(names.VarNameError)), asthlp.Return(errExpr)),
		}
	}

	if initDecorSrc == nil {
		initDecorSrc = EmptyDecorSrc
	}
	decorSrc := initDecorSrc
	decorStmt := func(_ ast.Expr, stmt []ast.Stmt) []ast.Stmt {
		return stmt
	}
	star, isStar := t.(*ast.StarExpr)
	if isStar {
		t = star.X
	}
	if isStar {
		decorSrc = func(e ast.Expr) ast.Expr {
			return initDecorSrc(asthlp.Star(e))
		}
		decorStmt = func(src ast.Expr, stmt []ast.Stmt) []ast.Stmt {
			return []ast.Stmt{
				asthlp.IfElse(
					asthlp.IsNil(src),
					// result.RawString("null")
					asthlp.Block(asthlp.CallStmt(asthlp.Call(
						RawStringFn,
						asthlp.StringConstant("null").Expr(),
					))),
					asthlp.Block(stmt...),
				),
			}
		}
	}

	if dt := helpers.DenotedType(t); t != dt && helpers.IsOrdinal(dt) {
		if dt.(*ast.Ident).Name == "string" {
			tmpDecor := decorSrc
			decorSrc = func(e ast.Expr) ast.Expr {
				return asthlp.ExpressionTypeConvert(tmpDecor(e), t)
			}
		}
		t = dt
	}
	switch tt := t.(type) {

	case *ast.Ident:
		switch tt.Name {
		case "int", "int8", "int16", "int32", "int64":
			return func(src ast.Expr) []ast.Stmt {
				int64Expression := asthlp.ExpressionTypeConvert(decorSrc(src), asthlp.Int64)
				return decorStmt(src, []ast.Stmt{
					// result.Int64(int64({src}))
					asthlp.CallStmt(asthlp.Call(names.WriteInt64Func, int64Expression)),
				})
			}

		case "uint", "uint8", "uint16", "uint32", "uint64":
			return func(src ast.Expr) []ast.Stmt {
				uint64Expression := asthlp.ExpressionTypeConvert(decorSrc(src), asthlp.UInt64)
				return decorStmt(src, []ast.Stmt{
					// result.Uint64(uint64({src}))
					asthlp.CallStmt(asthlp.Call(names.WriteUint64Func, uint64Expression)),
				})
			}

		case "float32", "float64":
			return func(src ast.Expr) []ast.Stmt {
				float64Expression := asthlp.ExpressionTypeConvert(decorSrc(src), asthlp.Float64)
				return decorStmt(src, []ast.Stmt{
					// result.Float64(float64({src}))
					asthlp.CallStmt(asthlp.Call(names.WriteFloat64Func, float64Expression)),
				})
			}

		case "bool":
			return func(src ast.Expr) []ast.Stmt {
				return decorStmt(src, []ast.Stmt{
					asthlp.IfElse(
						decorSrc(src),
						// result.RawString(`true`)
						asthlp.Block(asthlp.CallStmt(asthlp.Call(
							RawStringFn,
							asthlp.StringConstant(`true`).Expr(),
						))),
						// result.WriteString(`false`)
						asthlp.Block(asthlp.CallStmt(asthlp.Call(
							RawStringFn,
							asthlp.StringConstant(`false`).Expr(),
						))),
					),
				})
			}

		case "string":
			return func(src ast.Expr) []ast.Stmt {
				// result.String(_v)
				return decorStmt(src, []ast.Stmt{
					asthlp.CallStmt(asthlp.Call(
						names.WriteStringFunc,
						decorSrc(src),
					)),
				})
			}

		default:
			return transitMarshaller
		}

	case *ast.SelectorExpr:
		if helpers.IsTime(tt) {
			return func(src ast.Expr) []ast.Stmt {
				return decorStmt(src, []ast.Stmt{
					// writeTime(result, s.DateBegin, time.RFC3339Nano)
					asthlp.CallStmt(
						asthlp.Call(names.WriteTimeFunc, asthlp.NewIdent(names.VarNameWriter), decorSrc(src), names.TimeDefaultLayout),
					),
				})
			}
		}
		if helpers.IsUUID(tt) {
			return func(src ast.Expr) []ast.Stmt {
				bufVar := asthlp.NewIdent("buf")
				return decorStmt(src, []ast.Stmt{
					// if buf, err := _v.MarshalText(); err != nil {
					asthlp.IfInitElse(
						asthlp.Assign(
							asthlp.VarNames{bufVar, asthlp.NewIdent(names.VarNameError)},
							asthlp.Definition, // must shadow the buf variable
							asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, "MarshalText"))),
						),
						asthlp.NotNil(asthlp.NewIdent(names.VarNameError)),
						asthlp.Block(asthlp.Return(errExpr)),
						asthlp.Block(
							// result.RawByte('"')
							asthlp.CallStmt(asthlp.Call(RawByteFn, asthlp.RuneConstant('"').Expr())),
							// result.Buffer.AppendBytes(buf)
							asthlp.CallStmt(asthlp.Call(BytesAppendFn, bufVar)),
							// result.RawByte('"')
							asthlp.CallStmt(asthlp.Call(RawByteFn, asthlp.RuneConstant('"').Expr())),
						),
					),
				})
			}
		}
		return transitMarshaller

	case *ast.StructType:
		return transitMarshaller

	case *ast.InterfaceType:
		// TODO
		panic("not implemented")

	case *ast.ArrayType:
		// result.Int64(int64(_v))
		ve := GetValueExtractor(tt.Elt, errExpr, initDecorSrc)
		return func(src ast.Expr) []ast.Stmt {
			return decorStmt(src, []ast.Stmt{
				asthlp.CallStmt(asthlp.Call(
					RawByteFn,
					asthlp.RuneConstant('[').Expr(),
				)),
				// for _k1, _v1 := range _v {
				asthlp.Range(true, "_k1", "_v1", asthlp.NewIdent("_v"),
					append(
						ve(asthlp.NewIdent("_v1")),
						// if len(_v) -1 > _k1 {
						//   result.RawByte(',')
						// }
						asthlp.If(
							asthlp.Great(
								asthlp.Sub(asthlp.Call(asthlp.LengthFn, asthlp.NewIdent("_v")), asthlp.IntegerConstant(1).Expr()),
								asthlp.NewIdent("_k1"),
							),
							asthlp.CallStmt(asthlp.Call(
								RawByteFn,
								asthlp.RuneConstant(',').Expr(),
							)),
						),
					)...,
				),
				asthlp.CallStmt(asthlp.Call(
					RawByteFn,
					asthlp.RuneConstant(']').Expr(),
				)),
			})
		}

	default:
		panic("not implemented")
	}
}

func marshalTransit(src ast.Expr, name string, omitempty, isStar bool) WriteBlock {
	if name == "" {
		// inlined
		// result.Raw(unpackObject(s.Field.MarshalJSON()))
		return inlineStructMarshal(src)
	}
	var block WriteBlock
	if isStar {
		block = refStructMarshal(src, name, omitempty)
	} else {
		block = structMarshal(src, name, omitempty)
	}
	return block
}

func (f *Field) notEmptyCondition(src ast.Expr) ast.Expr {
	i, ok := f.refx.(*ast.Ident)
	if !ok {
		return src
		// TODO panic("expected ident")
	}
	switch i.Name {

	case "int", "int8", "int16", "int32", "int64":
		return asthlp.NotEqual(src, asthlp.Zero)

	case "uint", "uint8", "uint16", "uint32", "uint64":
		return asthlp.NotEqual(src, asthlp.Zero)

	case "float32", "float64":
		return asthlp.NotEqual(src, asthlp.Zero)

	case "bool":
		return src

	case "string":
		return asthlp.NotEqual(src, asthlp.EmptyString)

	default:
		panic("not implemented")
	}
}

func intermediateVarName(name string, _ tags.Tags) string {
	return "_" + string(unicode.ToLower([]rune(name)[0])) + string([]rune(name)[1:])
}
