package generator

import (
	"fmt"
	"go/ast"
	"path"
	"strings"
	"unicode"

	"github.com/iv-menshenin/go-ast/explorer"
	"github.com/iv-menshenin/valyjson/generator/codegen"
	"github.com/iv-menshenin/valyjson/generator/codegen/helpers"
	"github.com/iv-menshenin/valyjson/generator/codegen/tags"
)

type (
	visitor struct {
		g       *Gen
		over    *ast.Ident
		imports map[string][]explorer.Package // what the inlined package imports
		decls   []taggedDecl
	}
	taggedDecl struct {
		spec *ast.TypeSpec
		tags []string
	}
	renderer interface {
		Name() string
		Tags() tags.StructTags
		UnmarshalFunc() []ast.Decl
		FillFromFunc() ast.Decl
		ValidatorFunc() ast.Decl
		MarshalFunc() []ast.Decl
		MarshalToFunc() ast.Decl
		ZeroFunc() ast.Decl
		ResetFunc() ast.Decl
	}
)

func (g *Gen) BuildDecoders() {
	var v = visitor{g: g}
	ast.Walk(&v, g.parsed)
	for _, structDecl := range v.getNormalized() {
		if structDecl.Tags().Custom() {
			continue
		}
		if structDecl.Tags().EncodersOnly() {
			continue
		}
		if unm := structDecl.UnmarshalFunc(); len(unm) > 0 {
			g.result.Decls = append(g.result.Decls, unm...)
		}
		if fil := structDecl.FillFromFunc(); fil != nil {
			g.result.Decls = append(g.result.Decls, fil)
		}
		if val := structDecl.ValidatorFunc(); val != nil {
			g.result.Decls = append(g.result.Decls, val)
		}
	}
}

func (g *Gen) BuildEncoders() {
	var v = visitor{g: g}
	ast.Walk(&v, g.parsed)
	for _, structDecl := range v.getNormalized() {
		if structDecl.Tags().Custom() {
			continue
		}
		if structDecl.Tags().DecodersOnly() {
			continue
		}
		if marshalFn := structDecl.MarshalFunc(); marshalFn != nil {
			g.result.Decls = append(g.result.Decls, marshalFn...)
		}
		if appendFn := structDecl.MarshalToFunc(); appendFn != nil {
			g.result.Decls = append(g.result.Decls, appendFn)
		}
		if appendFn := structDecl.ZeroFunc(); appendFn != nil {
			g.result.Decls = append(g.result.Decls, appendFn)
		}
		if appendFn := structDecl.ResetFunc(); appendFn != nil {
			g.result.Decls = append(g.result.Decls, appendFn)
		}
	}
}

func (v *visitor) Visit(node ast.Node) (w ast.Visitor) {
	switch currNode := node.(type) {

	case *ast.GenDecl:
		for _, declSpec := range currNode.Specs {
			switch spec := declSpec.(type) {
			case *ast.TypeSpec:
				v.decls = append(v.decls, taggedDecl{
					spec: spec,
					tags: extractTags(currNode.Doc),
				})
			}
		}

	case *ast.TypeSpec:
		v.decls = append(v.decls, taggedDecl{
			spec: currNode,
			tags: extractTags(currNode.Doc),
		})
	}
	return v
}

var jsonTag = "json:"

func extractTags(comment *ast.CommentGroup) []string {
	if comment == nil {
		return nil
	}
	var commentTags []string
	for _, text := range comment.List {
		if text == nil {
			continue
		}
		if commentLine := strings.TrimLeft(text.Text, "/ \t"); strings.HasPrefix(commentLine, jsonTag) {
			splitPostfix := strings.Split(commentLine[len(jsonTag):], ",")
			for _, tagRaw := range splitPostfix {
				if tag := strings.ToLower(strings.TrimSpace(tagRaw)); tag != "" {
					commentTags = append(commentTags, tag)
				}
			}
		}
	}
	return commentTags
}

func (v *visitor) getNormalized() []renderer {
	var result []renderer
	var declProcessed taggedDecl
	defer func() {
		r := recover()
		if r != nil {
			panic(fmt.Errorf("processing error in file %q, processed structure %q raised error: %+v", v.g.fileName, declProcessed.spec.Name.Name, r))
		}
	}()
	for _, decl := range v.decls {
		declProcessed = decl
		if len(decl.tags) == 0 {
			// only tagged structures
			continue
		}
		result = v.processDecl(decl, result)
	}
	return result
}

func (v *visitor) processDecl(decl taggedDecl, result []renderer) []renderer {
	put := func(r renderer) {
		for _, ex := range result {
			if ex.Name() == r.Name() {
				return
			}
		}
		result = append(result, r)
	}
	switch typed := decl.spec.Type.(type) {

	case *ast.StructType:
		if tags.StructTags(decl.tags).Has(tags.TransitHandlers) {
			put(codegen.NewTransitive(decl.spec.Name.Name, decl.tags, typed))
			break
		}
		stct := &ast.StructType{
			Fields: &ast.FieldList{List: v.collectFields(typed.Fields.List)}, // uninline
		}
		put(codegen.NewStruct(decl.spec.Name.Name, decl.tags, stct))

	case *ast.MapType:
		v.resolveTypes(typed)
		put(codegen.NewMap(decl.spec.Name.Name, decl.tags, typed))

	case *ast.ArrayType:
		if helpers.IsIdent(helpers.DenotedType(typed.Elt), "byte") {
			put(codegen.NewByteSlice(decl.spec.Name.Name, decl.tags, typed))
			break
		}
		if el, ok := typed.Elt.(*ast.Ident); ok {
			// elements of the array have no tags, so we will consider the tags of the child structure
			elDecl := v.getDeclByName(el.Name)
			if elDecl != nil && len(elDecl.tags) == 0 {
				var elDeclT = *elDecl
				elDeclT.tags = decl.tags // inherits tags from an heir
				result = v.processDecl(elDeclT, result)
			}
		}
		v.resolveTypes(typed.Elt)

		put(codegen.NewArray(decl.spec.Name.Name, decl.tags, typed))

	case *ast.Ident:
		v.resolveTypes(typed)
		put(codegen.NewTransitive(decl.spec.Name.Name, decl.tags, typed))

	case *ast.SelectorExpr:
		v.resolveTypes(typed)
		put(codegen.NewTransitive(decl.spec.Name.Name, decl.tags, typed))

	default:
		panic("unsupported")
	}
	return result
}

func (v *visitor) getDeclByName(name string) *taggedDecl {
	for i, decl := range v.decls {
		if decl.spec.Name.Name == name {
			return &v.decls[i]
		}
	}
	return nil
}

func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
	var flds = make([]*ast.Field, 0, len(src))
	for _, fld := range src {
		var tag tags.Tags
		if fld.Tag != nil {
			tag = tags.Parse(fld.Tag.Value)
		} else {
			if len(fld.Names) > 0 {
				panic(fmt.Errorf("all fields should have tags, but %q haven't", fld.Names[0].Name))
			}
		}
		// try to resolve external types
		v.resolveTypes(fld.Type)
		if v.over != nil {
			fld.Type = v.qualify(fld.Type)
		}
		if tag.JsonOption("inline") {
			inlinedFields, canInline := v.exploreInlined(fld)
			if canInline {
				flds = append(flds, inlinedFields...)
				continue
			}
			// cant inline? try to process as a field
		}
		flds = append(flds, fld)
	}
	return flds
}

// qualify adds the name of the inlined package to the types declared in it
// and names the packages it imports as the generated file knows them
func (v *visitor) qualify(expr ast.Expr) ast.Expr {
	switch t := expr.(type) {

	case *ast.SelectorExpr:
		pack, ok := t.X.(*ast.Ident)
		if !ok {
			break
		}
		for _, p := range v.imports[pack.Name] {
			if v.g.ExploreType(p, t.Sel.Name) != nil {
				t.X = ast.NewIdent(v.g.importName(pack.Name, p))
				break
			}
		}

	case *ast.Ident:
		if unicode.IsUpper([]rune(t.Name)[0]) {
			return &ast.SelectorExpr{
				X:   v.over,
				Sel: t,
			}
		}

	case *ast.StarExpr:
		t.X = v.qualify(t.X)

	case *ast.ArrayType:
		if t.Len != nil {
			t.Len = v.qualify(t.Len)
		}
		t.Elt = v.qualify(t.Elt)

	case *ast.BinaryExpr:
		t.X = v.qualify(t.X)
		t.Y = v.qualify(t.Y)

	case *ast.MapType:
		t.Key = v.qualify(t.Key)
		t.Value = v.qualify(t.Value)
	}
	return expr
}

// resolveTypes resolves the external types the expression is made of: the type itself, its element and its key.
func (v *visitor) resolveTypes(expr ast.Expr) {
	switch t := expr.(type) {

	case *ast.Ident:
		if t.Obj == nil && !helpers.Ordinal(t.Name) {
			t.Obj = v.resolveInternal(t)
		}

	case *ast.SelectorExpr:
		if t.Sel.Obj == nil {
			t.Sel.Obj = v.resolveExternal(t)
		}

	case *ast.StarExpr:
		v.resolveTypes(t.X)

	case *ast.ArrayType:
		v.resolveTypes(t.Elt)

	case *ast.MapType:
		v.resolveTypes(t.Key)
		v.resolveTypes(t.Value)
	}
}

// resolveInternal finds the type in the other files of the package
func (v *visitor) resolveInternal(ident *ast.Ident) *ast.Object {
	var spec *ast.TypeSpec
	if decl := v.getDeclByName(ident.Name); decl != nil {
		spec = decl.spec
	} else if v.over == nil {
		spec = exploreDir(path.Dir(v.g.fileName), ident.Name)
	}
	if spec == nil {
		return nil
	}
	return &ast.Object{
		Kind: ast.Typ,
		Name: ident.Name,
		Decl: spec,
	}
}

func (v *visitor) resolveExternal(sel *ast.SelectorExpr) *ast.Object {
	name := sel.X.(*ast.Ident).String()
	packages, ok := v.imports[name]
	if !ok {
		packages, ok = v.g.packages[name]
	}
	if ok {
		for _, p := range packages {
			if p.Kind == explorer.PkgKindSystem {
				continue
			}
			if decl := v.g.ExploreType(p, sel.Sel.Name); decl != nil {
				return &ast.Object{
					Kind: ast.Typ,
					Name: sel.Sel.Name,
					Decl: decl,
				}
			}
		}
	}
	return nil
}

func (v *visitor) exploreInlined(fld *ast.Field) ([]*ast.Field, bool) {
	switch inlined := fld.Type.(type) {
	case *ast.Ident:
		return v.exploreInlinedIdent(inlined)

	case *ast.SelectorExpr:
		if len(fld.Names) == 0 {
			return v.exploreInlinedSelector(inlined)
		}
		if len(fld.Names) > 1 {
			panic("can't inline named fields")
		}
		return []*ast.Field{fld}, true

	default:
		panic(fmt.Errorf("can't inline struct kind %+v", fld.Type))
	}
}

func (v *visitor) exploreInlinedIdent(ident *ast.Ident) (fields []*ast.Field, canInline bool) {
	stct, ok := helpers.DenotedIdent(ident).(*ast.StructType)
	if !ok {
		panic("can't inline")
	}
	fields = v.collectFields(stct.Fields.List)
	// you can't inline if there is the same name field as the inlined structure
	canInline = findFieldWithName(fields, ident.Name) == nil
	return
}

func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*ast.Field, canInline bool) {
	packIdent, ok := inlined.X.(*ast.Ident)
	if !ok {
		panic(fmt.Errorf("can't inline struct %q; can't recognize %+v expression", inlined.Sel.Name, inlined.X))
	}
	pkg, err := v.importedPackage(packIdent.Name, inlined.Sel.Name)
	if err != nil {
		panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
	}
	var v1 = visitor{g: v.g, over: packIdent, imports: v.g.importsOf(pkg)}
	ast.Walk(&v1, pkg)
	decl := v1.getDeclByName(inlined.Sel.Name)
	if decl == nil {
		panic("can't resolve inlined field by name")
	}
	stct, ok := decl.spec.Type.(*ast.StructType)
	if !ok {
		panic("can't inline")
	}
	fields = v1.collectFields(stct.Fields.List)
	// you can't inline if there is the same name field as the inlined structure
	canInline = findFieldWithName(fields, inlined.Sel.Name) == nil
	return
}

// importedPackage finds the package the file knows under the name
func (v *visitor) importedPackage(name, typeName string) (ast.Node, error) {
	for _, p := range v.g.packages[name] {
		parsed, err := parsePackage(v.g.discovery.PackagePathFromPath(p.Path))
		if err != nil {
			return nil, err
		}
		for pkgName, pkg := range parsed {
			if !strings.HasSuffix(pkgName, "_test") {
				return pkg, nil
			}
		}
	}
	return v.g.discovery.GetPackage(name, typeName)
}

func findFieldWithName(fields []*ast.Field, name string) *ast.Field {
	for _, field := range fields {
		for _, fldName := range field.Names {
			if fldName.Name != name {
				continue
			}
			return field
		}
	}
	return nil
}
