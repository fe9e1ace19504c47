package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// Pkg is one loaded and type-checked package.
type Pkg struct {
	path    string
	fset    *token.FileSet
	types   *types.Package
	info    *types.Info
	files   []*ast.File
	funcs   map[string]*ast.FuncDecl
	methods map[string]*ast.FuncDecl
	src     map[string]string // file name -> path
	errs    []error
	dir     string
	strict  map[string]bool     // types declared with //json:strict
	annot   map[string][]string // words of the //json: annotation of each type
	decls   map[string]*ast.TypeSpec
}

var rangeCache = map[string][2]*big.Int{}

func init() {
	for _, b := range types.Typ {
		if lo, hi, ok := intRange(b); ok {
			rangeCache[b.Name()] = [2]*big.Int{lo, hi}
		}
	}
	lo, hi, _ := intRange(types.Typ[types.Uint8])
	rangeCache["byte"] = [2]*big.Int{lo, hi}
	lo, hi, _ = intRange(types.Typ[types.Int32])
	rangeCache["rune"] = [2]*big.Int{lo, hi}
}

// rangeOfKey: names of integer projections carry the Go type: "i:<type>:...".
func rangeOfKey(name string) (lo, hi *big.Int) {
	if !strings.HasPrefix(name, "i:") {
		return nil, nil
	}
	r := name[2:]
	i := strings.IndexByte(r, ':')
	if i < 0 {
		return nil, nil
	}
	x := rangeCache[r[:i]]
	return x[0], x[1]
}
