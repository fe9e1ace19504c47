From 27fb2aa14c1b605315d697cd35b3066c5dd1d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:21 +0000
Subject: [PATCH 01/26] fix: report an invalid time or uuid in a list instead
 of dropping it

The generated loop declared err anew for every element, so the error of
time.Parse/uuid.ParseBytes was lost and the list was silently cut short.
---
 generator/codegen/field/extractors.go | 59 ++++++++++++++++++++++-----
 generator/codegen/field/fields.go     |  2 +
 generator/codegen/field/fill.go       | 13 ++++--
 3 files changed, 61 insertions(+), 13 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index 0bfdb51..13ec73b 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -317,15 +317,6 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	if layout == "" {
 		extrStmt = timeExtractionUnify(dst, srcString)
 	} else {
-		var layoutExpr ast.Expr
-		if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
-			layoutExpr = &ast.SelectorExpr{
-				X:   ast.NewIdent(l[0]),
-				Sel: ast.NewIdent(l[1]),
-			}
-		} else {
-			layoutExpr = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
-		}
 		extrStmt = []ast.Stmt{
 			&ast.AssignStmt{
 				Lhs: []ast.Expr{dst, ast.NewIdent("err")},
@@ -337,7 +328,7 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 							Sel: ast.NewIdent("Parse"),
 						},
 						Args: []ast.Expr{
-							layoutExpr,
+							timeLayoutExpr(layout),
 							srcString,
 						},
 					},
@@ -384,3 +375,51 @@ func timeExtractionUnify(dst *ast.Ident, v ast.Expr) []ast.Stmt {
 		},
 	}
 }
+
+func timeLayoutExpr(layout string) ast.Expr {
+	if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
+		return &ast.SelectorExpr{
+			X:   ast.NewIdent(l[0]),
+			Sel: ast.NewIdent(l[1]),
+		}
+	}
+	return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
+}
+
+// timeElemExtraction is timeExtraction for the elements of a list
+func timeElemExtraction(dst *ast.Ident, v, layout string) []ast.Stmt {
+	var srcString = asthlp.VariableTypeConvert("b", asthlp.String)
+	if layout == "" {
+		return elemExtraction(dst, asthlp.SimpleSelector("time", "Time"), v,
+			asthlp.Call(asthlp.InlineFunc(ast.NewIdent("parseDateTime")), srcString))
+	}
+	return elemExtraction(dst, asthlp.SimpleSelector("time", "Time"), v,
+		asthlp.Call(asthlp.InlineFunc(asthlp.SimpleSelector("time", "Parse")), timeLayoutExpr(layout), srcString))
+}
+
+// uuidElemExtraction is uuidExtraction for the elements of a list
+func uuidElemExtraction(dst *ast.Ident, t ast.Expr, v string) []ast.Stmt {
+	return elemExtraction(dst, t, v,
+		asthlp.Call(asthlp.InlineFunc(asthlp.SimpleSelector("uuid", "ParseBytes")), asthlp.NewIdent("b")))
+}
+
+// elemExtraction leaves the error in the err variable of the enclosing function, without shadowing it
+//
+//	var b []byte
+//	var {dst} {t}
+//	if b, err = {v}.StringBytes(); err == nil {
+//		{dst}, err = {parse}
+//	}
+func elemExtraction(dst *ast.Ident, t ast.Expr, v string, parse ast.Expr) []ast.Stmt {
+	return []ast.Stmt{
+		asthlp.Var(asthlp.TypeSpec("b", asthlp.ArrayType(asthlp.Byte))),
+		asthlp.Var(asthlp.TypeSpec(dst.Name, t)),
+		asthlp.IfInit(
+			asthlp.Assign(asthlp.MakeVarNames("b", names.VarNameError), asthlp.Assignment, asthlp.Call(
+				asthlp.InlineFunc(asthlp.SimpleSelector(v, "StringBytes")),
+			)),
+			asthlp.IsNil(asthlp.NewIdent(names.VarNameError)),
+			asthlp.Assign(asthlp.VarNames{dst, asthlp.NewIdent(names.VarNameError)}, asthlp.Assignment, parse),
+		),
+	}
+}
diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 411573e..6f710b7 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -33,6 +33,8 @@ type (
 		dontCheckErr bool
 		// filled if already filled this field (by reference for example)
 		filled bool
+		// isElem the value is an element of a list, its error is handled by the code of the list
+		isElem bool
 		// level counts code hierarchy
 		level int
 	}
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 35d7662..803483e 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -213,9 +213,15 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 		switch t.Sel.Name {
 
 		case "Time":
+			if f.isElem {
+				return append(result, timeElemExtraction(dst, v, f.tags.Layout())...)
+			}
 			result = append(result, timeExtraction(dst, v, f.tags.JsonName(), f.tags.Layout())...)
 
 		case "UUID":
+			if f.isElem {
+				return append(result, uuidElemExtraction(dst, f.refx, v)...)
+			}
 			result = append(result, uuidExtraction(dst, f.refx, v, f.tags.JsonName())...)
 
 		default:
@@ -235,9 +241,10 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 				dst,
 				asthlp.FreeExpression(asthlp.Sub(asthlp.Call(asthlp.LengthFn, dst), asthlp.IntegerConstant(1).Expr())),
 			),
-			expr:  t.Elt,
-			tags:  tags.Parse(fmt.Sprintf(`json:"%s"`, f.tags.JsonName())),
-			level: f.level + 1,
+			expr:   t.Elt,
+			tags:   tags.Parse(fmt.Sprintf(`json:"%s"`, f.tags.JsonName())),
+			isElem: true,
+			level:  f.level + 1,
 		}
 		intF.prepareRef()
 		if t.Len == nil {
-- 
2.43.0


From 2d3743c436388bd6a5d7288f80bfa7f49e4f240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 02/26] fix: report an invalid map in a list of lists instead
 of dropping the error

---
 generator/codegen/field/fill.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 803483e..5d9f883 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -381,9 +381,20 @@ func (f *Field) mapExtraction(dst *ast.Ident, t *ast.MapType, v, json string) []
 		"json": {f.tags.JsonName()},
 	}), t.Value))
 	valFactory.DontCheckErr()
+	var (
+		declareObject = asthlp.EmptyStmt()
+		assignObject  = asthlp.Definition
+	)
+	if f.isElem {
+		// var o *fastjson.Object
+		// the err variable must not be declared anew, the code after the loop checks it
+		declareObject = asthlp.Var(asthlp.TypeSpec("o", asthlp.Star(asthlp.SimpleSelector("fastjson", "Object"))))
+		assignObject = asthlp.Assignment
+	}
 	return asthlp.Block(
+		declareObject,
 		//	o, err := {v}.Object()
-		asthlp.Assign(asthlp.MakeVarNames("o", names.VarNameError), asthlp.Definition, asthlp.Call(
+		asthlp.Assign(asthlp.MakeVarNames("o", names.VarNameError), assignObject, asthlp.Call(
 			asthlp.InlineFunc(asthlp.SimpleSelector(v, "Object")),
 		)),
 		checkErrAndReturnParsingError(asthlp.StringConstant(json).Expr()),
-- 
2.43.0


From 2a38719a59ef7d2e3c574d90d5536a5409305a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 03/26] fix: write a time in the layout constant its tag names

A layout tag such as "time.RFC1123" was resolved when decoding but written
out literally when encoding.
---
 generator/codegen/field/extractors.go | 24 ++++++++++++++++++++++++
 generator/codegen/field/marshalers.go |  4 ++++
 2 files changed, 28 insertions(+)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index 13ec73b..c4a8441 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/token"
 	"strings"
+	"time"
 
 	"github.com/iv-menshenin/go-ast"
 	"github.com/iv-menshenin/valyjson/generator/codegen/names"
@@ -376,6 +377,29 @@ func timeExtractionUnify(dst *ast.Ident, v ast.Expr) []ast.Stmt {
 	}
 }
 
+// timeLayouts are the constants of the package time that a layout tag can name
+var timeLayouts = map[string]string{
+	"time.Layout":      time.Layout,
+	"time.ANSIC":       time.ANSIC,
+	"time.UnixDate":    time.UnixDate,
+	"time.RubyDate":    time.RubyDate,
+	"time.RFC822":      time.RFC822,
+	"time.RFC822Z":     time.RFC822Z,
+	"time.RFC850":      time.RFC850,
+	"time.RFC1123":     time.RFC1123,
+	"time.RFC1123Z":    time.RFC1123Z,
+	"time.RFC3339":     time.RFC3339,
+	"time.RFC3339Nano": time.RFC3339Nano,
+	"time.Kitchen":     time.Kitchen,
+	"time.Stamp":       time.Stamp,
+	"time.StampMilli":  time.StampMilli,
+	"time.StampMicro":  time.StampMicro,
+	"time.StampNano":   time.StampNano,
+	"time.DateTime":    "2006-01-02 15:04:05",
+	"time.DateOnly":    "2006-01-02",
+	"time.TimeOnly":    "15:04:05",
+}
+
 func timeLayoutExpr(layout string) ast.Expr {
 	if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
 		return &ast.SelectorExpr{
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 1ef5143..bb99342 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -56,6 +56,10 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 	var layoutExpr = names.TimeDefaultLayout
 	if layout != "" {
 		layoutExpr = asthlp.StringConstant(layout).Expr()
+		if value, ok := timeLayouts[layout]; ok {
+			// the tag names a constant of the package time
+			layoutExpr, layout = timeLayoutExpr(layout), value
+		}
 	}
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
 	if isStar {
-- 
2.43.0


From 43b7c5b4d05ef55b4e1cdd292ff86fda0d90e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:38 +0000
Subject: [PATCH 04/26] fix: keep the commas in layout and default tags

---
 generator/codegen/tags/tags.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 4005038..4df1125 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -72,8 +72,9 @@ func (t Tags) Layout() string {
 func Parse(tag string) Tags {
 	var result = make(map[string][]string)
 	result["json"] = strings.Split(StructTag(tag).Get("json"), ",")
-	result["layout"] = strings.Split(StructTag(tag).Get("layout"), ",")
-	result["default"] = strings.Split(StructTag(tag).Get("default"), ",")
+	// unlike json, these hold a single value, which can contain commas
+	result["layout"] = []string{StructTag(tag).Get("layout")}
+	result["default"] = []string{StructTag(tag).Get("default")}
 	return result
 }
 
-- 
2.43.0


From 76ddd939358ac9129634bb428276557f3b1bc6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 05/26] fix: resolve types of other packages behind pointers,
 lists and maps

---
 generator/analyse.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 15c33ae..31ea4a2 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -170,6 +170,7 @@ func (v *visitor) processDecl(decl taggedDecl, result []renderer) []renderer {
 		put(codegen.NewStruct(decl.spec.Name.Name, decl.tags, stct))
 
 	case *ast.MapType:
+		v.resolveTypes(typed)
 		put(codegen.NewMap(decl.spec.Name.Name, decl.tags, typed))
 
 	case *ast.ArrayType:
@@ -186,12 +187,7 @@ func (v *visitor) processDecl(decl taggedDecl, result []renderer) []renderer {
 				result = v.processDecl(elDeclT, result)
 			}
 		}
-		switch tt := typed.Elt.(type) {
-		case *ast.SelectorExpr:
-			if tt.Sel.Obj == nil {
-				tt.Sel.Obj = v.resolveExternal(tt)
-			}
-		}
+		v.resolveTypes(typed.Elt)
 
 		put(codegen.NewArray(decl.spec.Name.Name, decl.tags, typed))
 
@@ -227,10 +223,8 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 				panic(fmt.Errorf("all fields should have tags, but %q haven't", fld.Names[0].Name))
 			}
 		}
-		if sel, ok := fld.Type.(*ast.SelectorExpr); ok && sel.Sel.Obj == nil {
-			// try to resolve external type
-			sel.Sel.Obj = v.resolveExternal(sel)
-		}
+		// try to resolve external types
+		v.resolveTypes(fld.Type)
 		if v.over != nil {
 			if i, ok := fld.Type.(*ast.Ident); ok && unicode.IsUpper([]rune(i.Name)[0]) {
 				fld.Type = &ast.SelectorExpr{
@@ -252,6 +246,27 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 	return flds
 }
 
+// resolveTypes resolves the external types the expression is made of: the type itself, its element and its key.
+func (v *visitor) resolveTypes(expr ast.Expr) {
+	switch t := expr.(type) {
+
+	case *ast.SelectorExpr:
+		if t.Sel.Obj == nil {
+			t.Sel.Obj = v.resolveExternal(t)
+		}
+
+	case *ast.StarExpr:
+		v.resolveTypes(t.X)
+
+	case *ast.ArrayType:
+		v.resolveTypes(t.Elt)
+
+	case *ast.MapType:
+		v.resolveTypes(t.Key)
+		v.resolveTypes(t.Value)
+	}
+}
+
 func (v *visitor) resolveExternal(sel *ast.SelectorExpr) *ast.Object {
 	packages, ok := v.g.packages[sel.X.(*ast.Ident).String()]
 	if ok {
-- 
2.43.0


From 2f28f56a608113904b2fabadbf1cfbeb8c0255bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 06/26] fix: inline the struct of the package the file imports

---
 generator/analyse.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 31ea4a2..5cecbd3 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -325,7 +325,7 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	if !ok {
 		panic(fmt.Errorf("can't inline struct %q; can't recognize %+v expression", inlined.Sel.Name, inlined.X))
 	}
-	pkg, err := v.g.discovery.GetPackage(packIdent.Name, inlined.Sel.Name)
+	pkg, err := v.importedPackage(packIdent.Name, inlined.Sel.Name)
 	if err != nil {
 		panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
 	}
@@ -345,6 +345,24 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	return
 }
 
+// importedPackage finds the package the file knows under the name
+func (v *visitor) importedPackage(name, typeName string) (ast.Node, error) {
+	if v.over == nil || v.over.Name == name {
+		for _, p := range v.g.packages[name] {
+			parsed, err := parsePackage(v.g.discovery.PackagePathFromPath(p.Path))
+			if err != nil {
+				return nil, err
+			}
+			for pkgName, pkg := range parsed {
+				if !strings.HasSuffix(pkgName, "_test") {
+					return pkg, nil
+				}
+			}
+		}
+	}
+	return v.g.discovery.GetPackage(name, typeName)
+}
+
 func findFieldWithName(fields []*ast.Field, name string) *ast.Field {
 	for _, field := range fields {
 		for _, fldName := range field.Names {
-- 
2.43.0


From d083a82c4d606b701d772c10fa3553286829f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 07/26] fix: qualify the element types of fields inlined from
 another package

---
 generator/analyse.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 5cecbd3..c617957 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -226,12 +226,7 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 		// try to resolve external types
 		v.resolveTypes(fld.Type)
 		if v.over != nil {
-			if i, ok := fld.Type.(*ast.Ident); ok && unicode.IsUpper([]rune(i.Name)[0]) {
-				fld.Type = &ast.SelectorExpr{
-					X:   v.over,
-					Sel: i,
-				}
-			}
+			fld.Type = v.qualify(fld.Type)
 		}
 		if tag.JsonAppendix() == "inline" {
 			inlinedFields, canInline := v.exploreInlined(fld)
@@ -246,6 +241,31 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 	return flds
 }
 
+// qualify adds the name of the inlined package to the types declared in it
+func (v *visitor) qualify(expr ast.Expr) ast.Expr {
+	switch t := expr.(type) {
+
+	case *ast.Ident:
+		if unicode.IsUpper([]rune(t.Name)[0]) {
+			return &ast.SelectorExpr{
+				X:   v.over,
+				Sel: t,
+			}
+		}
+
+	case *ast.StarExpr:
+		t.X = v.qualify(t.X)
+
+	case *ast.ArrayType:
+		t.Elt = v.qualify(t.Elt)
+
+	case *ast.MapType:
+		t.Key = v.qualify(t.Key)
+		t.Value = v.qualify(t.Value)
+	}
+	return expr
+}
+
 // resolveTypes resolves the external types the expression is made of: the type itself, its element and its key.
 func (v *visitor) resolveTypes(expr ast.Expr) {
 	switch t := expr.(type) {
-- 
2.43.0


From 9bb0e41d8ceeb8475a95478262e06c8968aa3a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 08/26] fix: write the text elements whose type another package
 declares

---
 generator/codegen/field/fields.go | 12 +++---------
 generator/codegen/map.go          |  4 +---
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 6f710b7..ec6f66f 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -212,15 +212,9 @@ func EmptyDecorSrc(e ast.Expr) ast.Expr {
 }
 
 func GetDecorExpr(valType ast.Expr) DecorSrc {
-	if i, ok := valType.(*ast.Ident); ok {
-		valType = helpers.DenotedIdent(i)
-		switch t := valType.(type) {
-		case *ast.Ident:
-			if i.Name != "string" && t.Name == "string" {
-				return func(e ast.Expr) ast.Expr {
-					return asthlp.ExpressionTypeConvert(e, asthlp.String)
-				}
-			}
+	if dt := helpers.DenotedType(valType); dt != valType && helpers.IsIdent(dt, "string") {
+		return func(e ast.Expr) ast.Expr {
+			return asthlp.ExpressionTypeConvert(e, asthlp.String)
 		}
 	}
 	return EmptyDecorSrc
diff --git a/generator/codegen/map.go b/generator/codegen/map.go
index 58fcc05..05598d2 100644
--- a/generator/codegen/map.go
+++ b/generator/codegen/map.go
@@ -219,9 +219,7 @@ func (m *Map) MarshalToFunc() ast.Decl {
 
 	var valType = m.spec.Value
 	dec := field.GetDecorExpr(valType)
-	if i, ok := valType.(*ast.Ident); ok {
-		valType = helpers.DenotedIdent(i)
-	}
+	valType = helpers.DenotedType(valType)
 	errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+m.name+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
 	ve := field.GetValueExtractor(valType, errExpr, dec)
 
-- 
2.43.0


From 768e5417ab04699f3d1f40c2bf457a156ebf70b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 09/26] fix: resolve types the other files of the package
 declare

---
 generator/analyse.go | 32 +++++++++++++++++++++++++++-----
 generator/parser.go  |  7 ++++++-
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index c617957..25e0cfc 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -3,6 +3,7 @@ package generator
 import (
 	"fmt"
 	"go/ast"
+	"path"
 	"strings"
 	"unicode"
 
@@ -192,9 +193,11 @@ func (v *visitor) processDecl(decl taggedDecl, result []renderer) []renderer {
 		put(codegen.NewArray(decl.spec.Name.Name, decl.tags, typed))
 
 	case *ast.Ident:
+		v.resolveTypes(typed)
 		put(codegen.NewTransitive(decl.spec.Name.Name, decl.tags, typed))
 
 	case *ast.SelectorExpr:
+		v.resolveTypes(typed)
 		put(codegen.NewTransitive(decl.spec.Name.Name, decl.tags, typed))
 
 	default:
@@ -270,6 +273,11 @@ func (v *visitor) qualify(expr ast.Expr) ast.Expr {
 func (v *visitor) resolveTypes(expr ast.Expr) {
 	switch t := expr.(type) {
 
+	case *ast.Ident:
+		if t.Obj == nil && !helpers.Ordinal(t.Name) {
+			t.Obj = v.resolveInternal(t)
+		}
+
 	case *ast.SelectorExpr:
 		if t.Sel.Obj == nil {
 			t.Sel.Obj = v.resolveExternal(t)
@@ -287,6 +295,24 @@ func (v *visitor) resolveTypes(expr ast.Expr) {
 	}
 }
 
+// resolveInternal finds the type in the other files of the package
+func (v *visitor) resolveInternal(ident *ast.Ident) *ast.Object {
+	var spec *ast.TypeSpec
+	if decl := v.getDeclByName(ident.Name); decl != nil {
+		spec = decl.spec
+	} else if v.over == nil {
+		spec = exploreDir(path.Dir(v.g.fileName), ident.Name)
+	}
+	if spec == nil {
+		return nil
+	}
+	return &ast.Object{
+		Kind: ast.Typ,
+		Name: ident.Name,
+		Decl: spec,
+	}
+}
+
 func (v *visitor) resolveExternal(sel *ast.SelectorExpr) *ast.Object {
 	packages, ok := v.g.packages[sel.X.(*ast.Ident).String()]
 	if ok {
@@ -326,11 +352,7 @@ func (v *visitor) exploreInlined(fld *ast.Field) ([]*ast.Field, bool) {
 }
 
 func (v *visitor) exploreInlinedIdent(ident *ast.Ident) (fields []*ast.Field, canInline bool) {
-	decl := v.getDeclByName(ident.Name)
-	if decl == nil {
-		panic("can't resolve inlined field by name")
-	}
-	stct, ok := decl.spec.Type.(*ast.StructType)
+	stct, ok := helpers.DenotedIdent(ident).(*ast.StructType)
 	if !ok {
 		panic("can't inline")
 	}
diff --git a/generator/parser.go b/generator/parser.go
index 878e64a..10d0345 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -135,7 +135,12 @@ func (g *Gen) Print(name string) {
 }
 
 func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
-	parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
+	return exploreDir(g.discovery.PackagePathFromPath(p.Path), objName)
+}
+
+// exploreDir looks for the type among the files of the directory
+func exploreDir(dir, objName string) *ast.TypeSpec {
+	parsed, err := parsePackage(dir)
 	if err != nil {
 		return nil
 	}
-- 
2.43.0


From 9b3ddf32ddbaa078656b3b25f9f05526313c1021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 10/26] fix: generate the codec of a type defined by a scalar
 of another package

---
 generator/codegen/transit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/transit.go b/generator/codegen/transit.go
index de54043..104e4e1 100644
--- a/generator/codegen/transit.go
+++ b/generator/codegen/transit.go
@@ -87,7 +87,7 @@ func (t *Transitive) MarshalToFunc() ast.Decl {
 		}
 	}
 
-	typed, ok := t.tran.(*ast.Ident)
+	typed, ok := helpers.DenotedType(t.tran).(*ast.Ident)
 	if ok {
 		src := asthlp.Star(asthlp.NewIdent(names.VarNameReceiver))
 		switch typed.Name {
@@ -194,7 +194,7 @@ func (t *Transitive) ZeroFunc() ast.Decl {
 		Receiver(asthlp.Field(names.VarNameReceiver, nil, ast.NewIdent(t.name))).
 		Results(asthlp.Field("", nil, asthlp.Bool))
 
-	zero := helpers.ZeroValueOfT(t.tran)
+	zero := helpers.ZeroValueOfT(helpers.DenotedType(t.tran))
 	if zero != nil {
 		if zero == asthlp.Nil {
 			fn.AppendStmt(
-- 
2.43.0


From f38c770a63324d058f8f914692b563be86585dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 11/26] fix: look through a chain of named types

---
 generator/codegen/helpers/gotypes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/codegen/helpers/gotypes.go b/generator/codegen/helpers/gotypes.go
index a7cc143..902d57b 100644
--- a/generator/codegen/helpers/gotypes.go
+++ b/generator/codegen/helpers/gotypes.go
@@ -19,6 +19,9 @@ func DenotedIdent(t *ast.Ident) ast.Expr {
 	if t.Obj != nil {
 		ts, ok := t.Obj.Decl.(*ast.TypeSpec)
 		if ok {
+			if i, ok := ts.Type.(*ast.Ident); ok {
+				return DenotedIdent(i)
+			}
 			return ts.Type
 		}
 	}
-- 
2.43.0


From 1bd22679d06e86992dda1ba0e05b8b51ace0153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 12/26] fix: leave a member named "-" out of the encoded object
 and of the check

---
 generator/codegen/struct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 67fedc8..97c8cdf 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -130,6 +130,9 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 		if fieldSpec.Tag != nil {
 			fieldTags = tags.Parse(fieldSpec.Tag.Value)
 		}
+		if fieldTags.JsonName() == "-" {
+			continue
+		}
 		visitFunc.AppendStmt(
 			//		if bytes.Equal(key, []byte{'f', 'i', 'l', 't', 'e', 'r'}) {
 			//			. . .
@@ -260,6 +263,9 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 }
 
 func jsonFieldStmts(fld *ast.Field) []ast.Stmt {
+	if fld.Tag != nil && tags.Parse(fld.Tag.Value).JsonName() == "-" {
+		return nil
+	}
 	factory := field.New(fld)
 	if len(fld.Names) == 0 {
 		name := ""
-- 
2.43.0


From 0775ab6bea1e9fb1452f5ea186b5b2ee4c490497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 13/26] fix: write null for a nil pointer to a struct without
 members

---
 generator/codegen/struct.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 97c8cdf..8d93770 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -225,8 +225,17 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 
 	if len(s.spec.Fields.List) == 0 {
 		return fn.AppendStmt(
+			// 	if s == nil {
+			//		result.RawString("null")
+			//		return nil
+			//	}
+			asthlp.If(
+				asthlp.IsNil(asthlp.NewIdent(names.VarNameReceiver)),
+				asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("null").Expr())),
+				asthlp.Return(asthlp.Nil),
+			),
 			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
-			asthlp.Return(asthlp.Nil),
+			asthlp.Return(asthlp.SimpleSelector(names.VarNameWriter, "Error")),
 		).Decl()
 	}
 
-- 
2.43.0


From 9227776fa3e7fe8c9c9e7fe36ba75fbc50b900c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 14/26] fix: write null for a nil pointer to a UUID

---
 generator/codegen/field/fields.go     | 2 +-
 generator/codegen/field/marshalers.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index ec6f66f..5fb0679 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -167,7 +167,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			return block.Render(putCommaFirstIf)
 		}
 		if tt.Sel.Name == "UUID" {
-			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
 		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index bb99342..1755f8e 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -101,7 +101,7 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 //			result.Write(buf)
 //			result.WriteRune('"')
 //		}
-func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
+func uuidMarshal(src ast.Expr, jsonName string, omitempty, isStar bool) WriteBlock {
 	var bufVar = asthlp.NewIdent("buf")
 	var w = WriteBlock{
 		Block: []ast.Stmt{
@@ -134,6 +134,9 @@ func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
 			),
 		},
 	}
+	if isStar {
+		w.NotZero = asthlp.NotNil(src)
+	}
 	if !omitempty {
 		w.IfZero = []ast.Stmt{
 			asthlp.CallStmt(asthlp.Call(
-- 
2.43.0


From c1ed6136e6550d7b923a87a2e37de2ca7f0bccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 15/26] fix: test the elements of an array for emptiness when
 their scalar type is declared in another package

---
 generator/codegen/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/codegen/array.go b/generator/codegen/array.go
index 4b72413..29012e1 100644
--- a/generator/codegen/array.go
+++ b/generator/codegen/array.go
@@ -268,7 +268,7 @@ func (a *Array) ZeroFunc() ast.Decl {
 		//	}
 		//	return true
 		var isZero ast.Expr
-		if zero := helpers.ZeroValueOfT(a.spec.Elt); zero != nil {
+		if zero := helpers.ZeroValueOfT(helpers.DenotedType(a.spec.Elt)); zero != nil {
 			isZero = asthlp.NotEqual(asthlp.NewIdent("_v"), zero)
 		} else {
 			isZero = asthlp.Call(asthlp.InlineFunc(asthlp.SimpleSelector("_v", names.MethodNameZero)))
-- 
2.43.0


From 84da19bf54676f18d24082ad736b5cc009f2f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:54 +0000
Subject: [PATCH 16/26] fix: reset the elements of a list of another package
 when their type is declared there

---
 generator/codegen/codegen.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/generator/codegen/codegen.go b/generator/codegen/codegen.go
index ec2ce91..c4e0cd9 100644
--- a/generator/codegen/codegen.go
+++ b/generator/codegen/codegen.go
@@ -122,6 +122,7 @@ func resetStmt(t, name ast.Expr, lvl int) []ast.Stmt {
 	var needCast = t != helpers.DenotedType(t)
 	switch tt := helpers.DenotedType(t).(type) {
 	case *ast.ArrayType:
+		tt = qualifyArray(t, tt)
 		if tt.Len == nil {
 			//for i := range s.Data {
 			//	s.Data[i].Reset()
@@ -212,3 +213,24 @@ func resetStmt(t, name ast.Expr, lvl int) []ast.Stmt {
 		)),
 	}
 }
+
+// qualifyArray adds the name of the package to what the declaration of an array of another package refers to
+func qualifyArray(t ast.Expr, array *ast.ArrayType) *ast.ArrayType {
+	sel, ok := t.(*ast.SelectorExpr)
+	if !ok {
+		return array
+	}
+	var qualify func(expr ast.Expr) ast.Expr
+	qualify = func(expr ast.Expr) ast.Expr {
+		switch e := expr.(type) {
+		case *ast.Ident:
+			if e.IsExported() {
+				return &ast.SelectorExpr{X: sel.X, Sel: e}
+			}
+		case *ast.ArrayType:
+			return &ast.ArrayType{Len: qualify(e.Len), Elt: qualify(e.Elt)}
+		}
+		return expr
+	}
+	return qualify(array).(*ast.ArrayType)
+}
-- 
2.43.0


From e98ed62e3bb86b05a7225c3fc2c3a943bd4b3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 17/26] fix: tell a type of the project named Time or UUID from
 time.Time and uuid.UUID

---
 generator/codegen/codegen.go            |  4 ++--
 generator/codegen/field/fields.go       |  6 +++---
 generator/codegen/field/fill.go         |  6 +++---
 generator/codegen/helpers/asthelpers.go |  2 +-
 generator/codegen/helpers/gotypes.go    | 12 +++++++++++-
 generator/codegen/transit.go            |  4 ++--
 6 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/generator/codegen/codegen.go b/generator/codegen/codegen.go
index c4e0cd9..c5c654b 100644
--- a/generator/codegen/codegen.go
+++ b/generator/codegen/codegen.go
@@ -150,12 +150,12 @@ func resetStmt(t, name ast.Expr, lvl int) []ast.Stmt {
 			}
 		}
 		// uuid.Nil
-		if tt.Sel.Name == "UUID" {
+		if helpers.IsUUID(tt) {
 			return []ast.Stmt{
 				asthlp.Assign(asthlp.VarNames{name}, asthlp.Assignment, wrapFunc(asthlp.SimpleSelector("uuid", "Nil"))),
 			}
 		}
-		if tt.Sel.Name == "Time" {
+		if helpers.IsTime(tt) {
 			return []ast.Stmt{
 				asthlp.Assign(asthlp.VarNames{name}, asthlp.Assignment, wrapFunc(asthlp.StructLiteral(tt).Expr())),
 			}
diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 5fb0679..98bde6d 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -162,11 +162,11 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 		return f.typeMarshal(src, tt.Name)
 
 	case *ast.SelectorExpr:
-		if tt.Sel.Name == "Time" {
+		if helpers.IsTime(tt) {
 			block := timeMarshal(src, f.tags.JsonName(), f.tags.Layout(), f.tags.JsonAppendix() == "omitempty", f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
-		if tt.Sel.Name == "UUID" {
+		if helpers.IsUUID(tt) {
 			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
@@ -344,7 +344,7 @@ func GetValueExtractor(t, errExpr ast.Expr, initDecorSrc DecorSrc) ValueExtracto
 		}
 
 	case *ast.SelectorExpr:
-		if tt.Sel.Name == "Time" {
+		if helpers.IsTime(tt) {
 			return func(src ast.Expr) []ast.Stmt {
 				return decorStmt(src, []ast.Stmt{
 					// writeTime(result, s.DateBegin, time.RFC3339Nano)
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 5d9f883..8bc9163 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -210,15 +210,15 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 		result = append(result, f.typeExtraction(dst, v, "struct", elemPathExpr)...)
 
 	case *ast.SelectorExpr:
-		switch t.Sel.Name {
+		switch {
 
-		case "Time":
+		case helpers.IsTime(t):
 			if f.isElem {
 				return append(result, timeElemExtraction(dst, v, f.tags.Layout())...)
 			}
 			result = append(result, timeExtraction(dst, v, f.tags.JsonName(), f.tags.Layout())...)
 
-		case "UUID":
+		case helpers.IsUUID(t):
 			if f.isElem {
 				return append(result, uuidElemExtraction(dst, f.refx, v)...)
 			}
diff --git a/generator/codegen/helpers/asthelpers.go b/generator/codegen/helpers/asthelpers.go
index 3c0daae..0eefcb7 100644
--- a/generator/codegen/helpers/asthelpers.go
+++ b/generator/codegen/helpers/asthelpers.go
@@ -156,7 +156,7 @@ func ZeroValueOfT(x ast.Expr) ast.Expr {
 		}
 
 	case *ast.SelectorExpr:
-		if t.Sel.Name == "UUID" {
+		if IsUUID(t) {
 			return asthlp.SimpleSelector("uuid", "Nil")
 		}
 
diff --git a/generator/codegen/helpers/gotypes.go b/generator/codegen/helpers/gotypes.go
index 902d57b..c77ff88 100644
--- a/generator/codegen/helpers/gotypes.go
+++ b/generator/codegen/helpers/gotypes.go
@@ -8,13 +8,23 @@ func DenotedType(expr ast.Expr) ast.Expr {
 		return DenotedIdent(typed)
 
 	case *ast.SelectorExpr:
-		if typed.Sel.Name != "Time" && typed.Sel.Name != "UUID" {
+		if !IsTime(typed) && !IsUUID(typed) {
 			return DenotedIdent(typed.Sel)
 		}
 	}
 	return expr
 }
 
+// IsTime tells time.Time from a type of the same name that is declared in the project
+func IsTime(sel *ast.SelectorExpr) bool {
+	return sel.Sel.Name == "Time" && sel.Sel.Obj == nil
+}
+
+// IsUUID tells uuid.UUID from a type of the same name that is declared in the project
+func IsUUID(sel *ast.SelectorExpr) bool {
+	return sel.Sel.Name == "UUID" && sel.Sel.Obj == nil
+}
+
 func DenotedIdent(t *ast.Ident) ast.Expr {
 	if t.Obj != nil {
 		ts, ok := t.Obj.Decl.(*ast.TypeSpec)
diff --git a/generator/codegen/transit.go b/generator/codegen/transit.go
index 104e4e1..3ead9f7 100644
--- a/generator/codegen/transit.go
+++ b/generator/codegen/transit.go
@@ -60,9 +60,9 @@ func (t *Transitive) MarshalToFunc() ast.Decl {
 
 	sel, ok := t.tran.(*ast.SelectorExpr)
 	if ok {
-		if sel.Sel.Name == "UUID" || sel.Sel.Name == "Time" {
+		if helpers.IsUUID(sel) || helpers.IsTime(sel) {
 			bufVar := asthlp.NewIdent("_uuid")
-			if sel.Sel.Name == "Time" {
+			if helpers.IsTime(sel) {
 				bufVar = asthlp.NewIdent("_time")
 			}
 			return fn.AppendStmt(
-- 
2.43.0


From 617da15a63ad36a755378499a70883b2e633ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 18/26] fix: encode the elements of lists and maps of UUIDs and
 of pointers to times

---
 generator/codegen/field/fields.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 98bde6d..045c945 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -349,7 +349,32 @@ func GetValueExtractor(t, errExpr ast.Expr, initDecorSrc DecorSrc) ValueExtracto
 				return decorStmt(src, []ast.Stmt{
 					// writeTime(result, s.DateBegin, time.RFC3339Nano)
 					asthlp.CallStmt(
-						asthlp.Call(names.WriteTimeFunc, asthlp.NewIdent(names.VarNameWriter), src, names.TimeDefaultLayout),
+						asthlp.Call(names.WriteTimeFunc, asthlp.NewIdent(names.VarNameWriter), decorSrc(src), names.TimeDefaultLayout),
+					),
+				})
+			}
+		}
+		if helpers.IsUUID(tt) {
+			return func(src ast.Expr) []ast.Stmt {
+				bufVar := asthlp.NewIdent("buf")
+				return decorStmt(src, []ast.Stmt{
+					// if buf, err := _v.MarshalText(); err != nil {
+					asthlp.IfInitElse(
+						asthlp.Assign(
+							asthlp.VarNames{bufVar, asthlp.NewIdent(names.VarNameError)},
+							asthlp.Definition, // must shadow the buf variable
+							asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, "MarshalText"))),
+						),
+						asthlp.NotNil(asthlp.NewIdent(names.VarNameError)),
+						asthlp.Block(asthlp.Return(errExpr)),
+						asthlp.Block(
+							// result.RawByte('"')
+							asthlp.CallStmt(asthlp.Call(RawByteFn, asthlp.RuneConstant('"').Expr())),
+							// result.Buffer.AppendBytes(buf)
+							asthlp.CallStmt(asthlp.Call(BytesAppendFn, bufVar)),
+							// result.RawByte('"')
+							asthlp.CallStmt(asthlp.Call(RawByteFn, asthlp.RuneConstant('"').Expr())),
+						),
 					),
 				})
 			}
-- 
2.43.0


From 31f26105797b9b5ef0b160ff99cb50b0451be0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 19/26] fix: decode maps of times and of UUIDs

---
 generator/codegen/field/fields.go | 7 ++++++-
 generator/codegen/field/fill.go   | 1 +
 generator/codegen/map.go          | 1 +
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 045c945..e5792af 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -33,7 +33,7 @@ type (
 		dontCheckErr bool
 		// filled if already filled this field (by reference for example)
 		filled bool
-		// isElem the value is an element of a list, its error is handled by the code of the list
+		// isElem the value is an element of a list or map, its error is handled by the code of the list or map
 		isElem bool
 		// level counts code hierarchy
 		level int
@@ -94,6 +94,11 @@ func (f *Field) DontCheckErr() {
 	f.dontCheckErr = true
 }
 
+// IsElem leaves the error of the value to the code that stores the value
+func (f *Field) IsElem() {
+	f.isElem = true
+}
+
 // FillStatements makes statements processed data-filling for struct field
 //
 //		if offset := v.Get("offset"); offset != nil {
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 8bc9163..b346189 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -381,6 +381,7 @@ func (f *Field) mapExtraction(dst *ast.Ident, t *ast.MapType, v, json string) []
 		"json": {f.tags.JsonName()},
 	}), t.Value))
 	valFactory.DontCheckErr()
+	valFactory.IsElem()
 	var (
 		declareObject = asthlp.EmptyStmt()
 		assignObject  = asthlp.Definition
diff --git a/generator/codegen/map.go b/generator/codegen/map.go
index 05598d2..12106d9 100644
--- a/generator/codegen/map.go
+++ b/generator/codegen/map.go
@@ -80,6 +80,7 @@ func (m *Map) FillFromFunc() ast.Decl {
 
 	valFactory := field.New(asthlp.Field("", asthlp.MakeTagsForField(map[string][]string{}), m.spec.Value))
 	valFactory.DontCheckErr()
+	valFactory.IsElem()
 
 	fn := asthlp.DeclareFunction(asthlp.NewIdent(names.MethodNameFill))
 	fn.Comments("// " + names.MethodNameFill + " recursively fills the keys with fastjson.Value")
-- 
2.43.0


From ac4cb5c7559f49cec6e13170d08e992316a7efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 20/26] fix: recognise omitempty, required and inline wherever
 they stand among the options of the tag

---
 generator/analyse.go               |  2 +-
 generator/codegen/field/fields.go  | 14 +++++++-------
 generator/codegen/field/fill.go    |  2 +-
 generator/codegen/field/marshal.go | 14 +++++++-------
 generator/codegen/struct.go        |  2 +-
 generator/codegen/tags/tags.go     | 10 ++++------
 6 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 25e0cfc..c65dd6e 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -231,7 +231,7 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 		if v.over != nil {
 			fld.Type = v.qualify(fld.Type)
 		}
-		if tag.JsonAppendix() == "inline" {
+		if tag.JsonOption("inline") {
 			inlinedFields, canInline := v.exploreInlined(fld)
 			if canInline {
 				flds = append(flds, inlinedFields...)
diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index e5792af..9d74eb7 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -168,17 +168,17 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 
 	case *ast.SelectorExpr:
 		if helpers.IsTime(tt) {
-			block := timeMarshal(src, f.tags.JsonName(), f.tags.Layout(), f.tags.JsonAppendix() == "omitempty", f.isStar)
+			block := timeMarshal(src, f.tags.JsonName(), f.tags.Layout(), f.tags.JsonOption("omitempty"), f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
 		if helpers.IsUUID(tt) {
-			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar)
+			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
-		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
+		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), f.isStar).Render(putCommaFirstIf)
 
 	case *ast.StructType:
-		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
+		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), f.isStar).Render(putCommaFirstIf)
 
 	case *ast.MapType:
 		var isString bool
@@ -188,18 +188,18 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 		dec := GetDecorExpr(tt.Value)
 		valType := helpers.DenotedType(tt.Value)
 		errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
-		block := mapMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", isString, GetValueExtractor(valType, errExpr, dec))
+		block := mapMarshal(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), isString, GetValueExtractor(valType, errExpr, dec))
 		return block.Render(putCommaFirstIf)
 
 	case *ast.ArrayType:
 		var block WriteBlock
 		if helpers.IsIdent(tt.Elt, "byte") {
-			block = byteSliceMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", tt)
+			block = byteSliceMarshal(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), tt)
 		} else {
 			dec := GetDecorExpr(tt.Elt)
 			valType := helpers.DenotedType(tt.Elt)
 			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
-			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
+			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
 		}
 		return block.Render(putCommaFirstIf)
 
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index b346189..badd262 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -739,7 +739,7 @@ func (f *Field) typedRefFillIn(rhs, dst ast.Expr, t string) []ast.Stmt {
 //	}
 func (f *Field) ifDefault(varName, name string) []ast.Stmt {
 	if f.tags.DefaultValue() == "" {
-		if f.tags.JsonAppendix() == "required" {
+		if f.tags.JsonOption("required") {
 			// return fmt.Errorf("required element '{json}' is missing", objPath)
 			return []ast.Stmt{
 				asthlp.Return(
diff --git a/generator/codegen/field/marshal.go b/generator/codegen/field/marshal.go
index 4265b0e..08fe52c 100644
--- a/generator/codegen/field/marshal.go
+++ b/generator/codegen/field/marshal.go
@@ -60,23 +60,23 @@ func (f *Field) typeMarshal(src ast.Expr, t string) []ast.Stmt {
 	switch t {
 
 	case "int", "int8", "int16", "int32", "int64":
-		wb = intMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc || t != "int64")
+		wb = intMarshal(ur, f.tags.JsonName(), f.tags.JsonOption("omitempty"), nc || t != "int64")
 
 	case "uint", "uint8", "uint16", "uint32", "uint64":
-		wb = uintMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc || t != "uint64")
+		wb = uintMarshal(ur, f.tags.JsonName(), f.tags.JsonOption("omitempty"), nc || t != "uint64")
 
 	case "float32", "float64":
-		wb = floatMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc || t != "float64")
+		wb = floatMarshal(ur, f.tags.JsonName(), f.tags.JsonOption("omitempty"), nc || t != "float64")
 
 	case "bool":
 		if f.isStar {
-			wb = refBoolMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			wb = refBoolMarshal(ur, f.tags.JsonName(), f.tags.JsonOption("omitempty"))
 		} else {
-			wb = boolMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			wb = boolMarshal(ur, f.tags.JsonName(), f.tags.JsonOption("omitempty"))
 		}
 
 	case "string":
-		wb = stringMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc)
+		wb = stringMarshal(ur, f.tags.JsonName(), f.tags.JsonOption("omitempty"), nc)
 
 	default:
 		panic(fmt.Errorf("unknown base type %q", t))
@@ -87,7 +87,7 @@ func (f *Field) typeMarshal(src ast.Expr, t string) []ast.Stmt {
 		if s, ok := src.(*ast.StarExpr); ok {
 			wb.NotZero = asthlp.And(asthlp.NotNil(s.X), wb.NotZero)
 		}
-		if f.tags.JsonAppendix() != "omitempty" {
+		if !f.tags.JsonOption("omitempty") {
 			wb.IfZero = []ast.Stmt{
 				asthlp.CallStmt(asthlp.Call(
 					RawStringFn,
diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 8d93770..c3a3f1b 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -75,7 +75,7 @@ func fillFieldStmts(fld *ast.Field) []ast.Stmt {
 		if fld.Tag != nil {
 			tag = tags.Parse(fld.Tag.Value)
 		}
-		if tag.JsonAppendix() == "inline" {
+		if tag.JsonOption("inline") {
 			// panic("dfs")
 		}
 		switch i := fld.Type.(type) {
diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 4df1125..9ee9e02 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -29,14 +29,12 @@ func (t Tags) JsonName() string {
 	return ""
 }
 
-func (t Tags) JsonAppendix() string {
-	if t == nil {
-		return ""
-	}
+// JsonOption says whether the option is among those that follow the name of the member
+func (t Tags) JsonOption(option string) bool {
 	if v := t["json"]; len(v) > 1 {
-		return v[1]
+		return StructTags(v[1:]).Has(option)
 	}
-	return ""
+	return false
 }
 
 func (t Tags) JsonTags() StructTags {
-- 
2.43.0


From b6b5c2d680fbdcabf025ddc67e35f813ce05b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 21/26] fix: encode the elements of a type defined by a time or
 UUID with the methods of that type

---
 generator/codegen/array.go           | 2 +-
 generator/codegen/field/fields.go    | 4 ++--
 generator/codegen/helpers/gotypes.go | 9 +++++++++
 generator/codegen/map.go             | 2 +-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/generator/codegen/array.go b/generator/codegen/array.go
index 29012e1..130d601 100644
--- a/generator/codegen/array.go
+++ b/generator/codegen/array.go
@@ -211,7 +211,7 @@ func (a *Array) MarshalToFunc() ast.Decl {
 		)),
 	)
 
-	dt := helpers.DenotedType(a.spec.Elt)
+	dt := helpers.ElementType(a.spec.Elt)
 	var dec field.DecorSrc
 	if dt != a.spec.Elt {
 		dec = func(e ast.Expr) ast.Expr {
diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 9d74eb7..982f006 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -186,7 +186,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			isString = i.Name == "string"
 		}
 		dec := GetDecorExpr(tt.Value)
-		valType := helpers.DenotedType(tt.Value)
+		valType := helpers.ElementType(tt.Value)
 		errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
 		block := mapMarshal(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), isString, GetValueExtractor(valType, errExpr, dec))
 		return block.Render(putCommaFirstIf)
@@ -197,7 +197,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			block = byteSliceMarshal(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), tt)
 		} else {
 			dec := GetDecorExpr(tt.Elt)
-			valType := helpers.DenotedType(tt.Elt)
+			valType := helpers.ElementType(tt.Elt)
 			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
 			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonOption("omitempty"), GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
 		}
diff --git a/generator/codegen/helpers/gotypes.go b/generator/codegen/helpers/gotypes.go
index c77ff88..9456a03 100644
--- a/generator/codegen/helpers/gotypes.go
+++ b/generator/codegen/helpers/gotypes.go
@@ -15,6 +15,15 @@ func DenotedType(expr ast.Expr) ast.Expr {
 	return expr
 }
 
+// ElementType is DenotedType, but a type defined by a time or UUID has methods of its own
+func ElementType(expr ast.Expr) ast.Expr {
+	dt := DenotedType(expr)
+	if sel, ok := dt.(*ast.SelectorExpr); ok && (IsTime(sel) || IsUUID(sel)) {
+		return expr
+	}
+	return dt
+}
+
 // IsTime tells time.Time from a type of the same name that is declared in the project
 func IsTime(sel *ast.SelectorExpr) bool {
 	return sel.Sel.Name == "Time" && sel.Sel.Obj == nil
diff --git a/generator/codegen/map.go b/generator/codegen/map.go
index 12106d9..230ebbf 100644
--- a/generator/codegen/map.go
+++ b/generator/codegen/map.go
@@ -220,7 +220,7 @@ func (m *Map) MarshalToFunc() ast.Decl {
 
 	var valType = m.spec.Value
 	dec := field.GetDecorExpr(valType)
-	valType = helpers.DenotedType(valType)
+	valType = helpers.ElementType(valType)
 	errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+m.name+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
 	ve := field.GetValueExtractor(valType, errExpr, dec)
 
-- 
2.43.0


From 05856960ae73e5e154411ad17b2d43ca81ae10ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 22/26] fix: encode and test for emptiness the members of a
 type defined by a time or UUID

---
 generator/codegen/field/fields.go    |  3 +++
 generator/codegen/helpers/gotypes.go | 24 +++++++++++++++++++++++-
 generator/codegen/struct.go          | 11 ++++++++---
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 982f006..e93f9bb 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -167,6 +167,9 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 		return f.typeMarshal(src, tt.Name)
 
 	case *ast.SelectorExpr:
+		if _, named := f.expr.(*ast.Ident); named && !f.isStarType {
+			src = helpers.TimeOrUUID(src, tt, f.isStar)
+		}
 		if helpers.IsTime(tt) {
 			block := timeMarshal(src, f.tags.JsonName(), f.tags.Layout(), f.tags.JsonOption("omitempty"), f.isStar)
 			return block.Render(putCommaFirstIf)
diff --git a/generator/codegen/helpers/gotypes.go b/generator/codegen/helpers/gotypes.go
index 9456a03..5183e85 100644
--- a/generator/codegen/helpers/gotypes.go
+++ b/generator/codegen/helpers/gotypes.go
@@ -1,6 +1,10 @@
 package helpers
 
-import "go/ast"
+import (
+	"go/ast"
+
+	asthlp "github.com/iv-menshenin/go-ast"
+)
 
 func DenotedType(expr ast.Expr) ast.Expr {
 	switch typed := expr.(type) {
@@ -34,6 +38,24 @@ func IsUUID(sel *ast.SelectorExpr) bool {
 	return sel.Sel.Name == "UUID" && sel.Sel.Obj == nil
 }
 
+// TimeOrUUID converts the value of a type defined by a time or UUID to it
+func TimeOrUUID(value ast.Expr, denoted ast.Expr, isStar bool) ast.Expr {
+	var t ast.Expr
+	sel, ok := denoted.(*ast.SelectorExpr)
+	switch {
+	case ok && IsTime(sel):
+		t = asthlp.SimpleSelector("time", "Time")
+	case ok && IsUUID(sel):
+		t = asthlp.SimpleSelector("uuid", "UUID")
+	default:
+		return value
+	}
+	if isStar {
+		t = asthlp.ParenExpr(asthlp.Star(t))
+	}
+	return asthlp.ExpressionTypeConvert(value, t)
+}
+
 func DenotedIdent(t *ast.Ident) ast.Expr {
 	if t.Obj != nil {
 		ts, ok := t.Obj.Decl.(*ast.TypeSpec)
diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index c3a3f1b..815489d 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -316,11 +316,16 @@ func (s *Struct) ZeroFunc() ast.Decl {
 	}
 
 	for _, fld := range s.spec.Fields.List {
-		zero := helpers.ZeroValueOfT(helpers.DenotedType(fld.Type))
+		denoted := helpers.DenotedType(fld.Type)
+		zero := helpers.ZeroValueOfT(denoted)
 		for _, name := range fld.Names {
-			var isNotZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(asthlp.SimpleSelector(names.VarNameReceiver, name.Name), names.MethodNameZero))))
+			var value ast.Expr = asthlp.SimpleSelector(names.VarNameReceiver, name.Name)
+			if denoted != fld.Type {
+				value = helpers.TimeOrUUID(value, denoted, false)
+			}
+			var isNotZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(value, names.MethodNameZero))))
 			if zero != nil {
-				isNotZero = asthlp.NotEqual(asthlp.SimpleSelector(names.VarNameReceiver, name.Name), zero)
+				isNotZero = asthlp.NotEqual(value, zero)
 			}
 			fn.AppendStmt(asthlp.If(isNotZero, asthlp.Return(asthlp.False)))
 		}
-- 
2.43.0


From 8e36dca236f81452ab2378dfc5d59783fd4dbe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 23/26] fix: resolve the packages that the package of an
 inlined struct imports

---
 generator/analyse.go | 46 +++++++++++++++++++++++++++++---------------
 generator/parser.go  | 39 +++++++++++++++++++++++++++++++++----
 2 files changed, 66 insertions(+), 19 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index c65dd6e..a355d66 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -15,9 +15,10 @@ import (
 
 type (
 	visitor struct {
-		g     *Gen
-		over  *ast.Ident
-		decls []taggedDecl
+		g       *Gen
+		over    *ast.Ident
+		imports map[string][]explorer.Package // what the inlined package imports
+		decls   []taggedDecl
 	}
 	taggedDecl struct {
 		spec *ast.TypeSpec
@@ -245,9 +246,22 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 }
 
 // qualify adds the name of the inlined package to the types declared in it
+// and names the packages it imports as the generated file knows them
 func (v *visitor) qualify(expr ast.Expr) ast.Expr {
 	switch t := expr.(type) {
 
+	case *ast.SelectorExpr:
+		pack, ok := t.X.(*ast.Ident)
+		if !ok {
+			break
+		}
+		for _, p := range v.imports[pack.Name] {
+			if v.g.ExploreType(p, t.Sel.Name) != nil {
+				t.X = ast.NewIdent(v.g.importName(pack.Name, p))
+				break
+			}
+		}
+
 	case *ast.Ident:
 		if unicode.IsUpper([]rune(t.Name)[0]) {
 			return &ast.SelectorExpr{
@@ -314,7 +328,11 @@ func (v *visitor) resolveInternal(ident *ast.Ident) *ast.Object {
 }
 
 func (v *visitor) resolveExternal(sel *ast.SelectorExpr) *ast.Object {
-	packages, ok := v.g.packages[sel.X.(*ast.Ident).String()]
+	name := sel.X.(*ast.Ident).String()
+	packages, ok := v.imports[name]
+	if !ok {
+		packages, ok = v.g.packages[name]
+	}
 	if ok {
 		for _, p := range packages {
 			if p.Kind == explorer.PkgKindSystem {
@@ -371,7 +389,7 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	if err != nil {
 		panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
 	}
-	var v1 = visitor{g: v.g, over: packIdent}
+	var v1 = visitor{g: v.g, over: packIdent, imports: v.g.importsOf(pkg)}
 	ast.Walk(&v1, pkg)
 	decl := v1.getDeclByName(inlined.Sel.Name)
 	if decl == nil {
@@ -389,16 +407,14 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 
 // importedPackage finds the package the file knows under the name
 func (v *visitor) importedPackage(name, typeName string) (ast.Node, error) {
-	if v.over == nil || v.over.Name == name {
-		for _, p := range v.g.packages[name] {
-			parsed, err := parsePackage(v.g.discovery.PackagePathFromPath(p.Path))
-			if err != nil {
-				return nil, err
-			}
-			for pkgName, pkg := range parsed {
-				if !strings.HasSuffix(pkgName, "_test") {
-					return pkg, nil
-				}
+	for _, p := range v.g.packages[name] {
+		parsed, err := parsePackage(v.g.discovery.PackagePathFromPath(p.Path))
+		if err != nil {
+			return nil, err
+		}
+		for pkgName, pkg := range parsed {
+			if !strings.HasSuffix(pkgName, "_test") {
+				return pkg, nil
 			}
 		}
 	}
diff --git a/generator/parser.go b/generator/parser.go
index 10d0345..92c7d1b 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -40,7 +40,13 @@ func (g *Gen) Parse() (err error) {
 	if err == nil {
 		g.result.Name = g.parsed.(*ast.File).Name
 	}
-	for _, imp := range g.parsed.(*ast.File).Imports {
+	g.collectImports(g.packages, g.parsed.(*ast.File))
+	return
+}
+
+// collectImports adds the packages of the module that the file imports, under the names the file knows them by
+func (g *Gen) collectImports(packages map[string][]explorer.Package, file *ast.File) {
+	for _, imp := range file.Imports {
 		var name string
 		if imp.Name != nil {
 			name = imp.Name.Name
@@ -54,15 +60,40 @@ func (g *Gen) Parse() (err error) {
 			split := strings.Split(pkgPath, "/")
 			name = split[len(split)-1]
 		}
-		g.packages[name] = append(
-			g.packages[name],
+		packages[name] = append(
+			packages[name],
 			explorer.Package{
 				Path: pkgPath,
 				Kind: explorer.PkgKindInternal,
 			},
 		)
 	}
-	return
+}
+
+// importsOf collects the packages of the module that the files of the package import
+func (g *Gen) importsOf(pkg ast.Node) map[string][]explorer.Package {
+	var imports = make(map[string][]explorer.Package)
+	if pack, ok := pkg.(*ast.Package); ok {
+		for _, file := range pack.Files {
+			g.collectImports(imports, file)
+		}
+	}
+	return imports
+}
+
+// importName is the name under which the generated file imports the package
+func (g *Gen) importName(wanted string, pkg explorer.Package) string {
+	for name, packages := range g.packages {
+		if len(packages) == 1 && packages[0].Path == pkg.Path && token.IsIdentifier(name) {
+			return name
+		}
+	}
+	name := wanted
+	for i := 1; len(g.packages[name]) > 0; i++ {
+		name = fmt.Sprintf("%s%d", wanted, i)
+	}
+	g.packages[name] = []explorer.Package{pkg}
+	return name
 }
 
 func (g *Gen) FixImports(internals ...string) {
-- 
2.43.0


From 13d170a879ece668bdecdcf767dcabc689f90615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 24/26] fix: write null-safe code for a reference to a named
 reference to a time

---
 generator/codegen/field/marshalers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 1755f8e..829d29b 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -64,6 +64,10 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
 	if isStar {
 		notZero = asthlp.NotNil(src)
+		if s, ok := src.(*ast.StarExpr); ok {
+			// the reference to the reference can be nil as well
+			notZero = asthlp.And(asthlp.NotNil(s.X), notZero)
+		}
 		src = asthlp.Star(src)
 	}
 	var w = WriteBlock{
-- 
2.43.0


From 646bb370b45db08e09cb8746f28a9b719d1f8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 25/26] fix: qualify the lengths of the arrays of an inlined
 struct of another package

---
 generator/analyse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator/analyse.go b/generator/analyse.go
index a355d66..2c2c07f 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -274,8 +274,15 @@ func (v *visitor) qualify(expr ast.Expr) ast.Expr {
 		t.X = v.qualify(t.X)
 
 	case *ast.ArrayType:
+		if t.Len != nil {
+			t.Len = v.qualify(t.Len)
+		}
 		t.Elt = v.qualify(t.Elt)
 
+	case *ast.BinaryExpr:
+		t.X = v.qualify(t.X)
+		t.Y = v.qualify(t.Y)
+
 	case *ast.MapType:
 		t.Key = v.qualify(t.Key)
 		t.Value = v.qualify(t.Value)
-- 
2.43.0


From 85894bb5b02ca412d92bf95170e719aaeaa1976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 26/26] fix: compare embedded types of other packages that are
 no structs with their zero value

---
 generator/codegen/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 815489d..3d74000 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -342,7 +342,7 @@ func (s *Struct) ZeroFunc() ast.Decl {
 			case *ast.SelectorExpr:
 				var isNotZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(asthlp.SimpleSelector(names.VarNameReceiver, t.Sel.Name), names.MethodNameZero))))
 				if zero != nil {
-					isNotZero = asthlp.NotEqual(asthlp.SimpleSelector(names.VarNameReceiver, t.Sel.Name), helpers.ZeroValueOfT(fld.Type))
+					isNotZero = asthlp.NotEqual(asthlp.SimpleSelector(names.VarNameReceiver, t.Sel.Name), zero)
 				}
 				fn.AppendStmt(asthlp.If(isNotZero, asthlp.Return(asthlp.False)))
 			}
-- 
2.43.0

