package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// The corpus is finite, and what a generator does may depend on a particular number or text (a struct with more than
// so many members, a name with a given suffix). The constants that occur in the generator's source are where such
// numbers and texts come from, so declarations are derived from them: for every constant that occurs more often than
// in the generator for which the corpus was written (literals.json), groups "x_..." whose sizes, lengths, names,
// defaults and layouts are that constant and its neighbours. They are verified like the rest of the corpus. They use only
// member types for which the generator has no known defect.

type literals struct {
	Ints map[string]int `json:"ints"`
	Strs map[string]int `json:"strs"`
}

// constants counts the constants of the generator's source.
func constants(repo string) literals {
	l := literals{map[string]int{}, map[string]int{}}
	filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			rel, _ := filepath.Rel(repo, p)
			if b := d.Name(); b != "." && strings.HasPrefix(b, ".") || rel == "test" || rel == "benchmark" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			x, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			v := folded(x)
			if v == nil {
				return true
			}
			switch v.Kind() {
			case constant.Int:
				l.Ints[v.ExactString()]++
			case constant.String:
				l.Strs[constant.StringVal(v)]++
			}
			return true
		})
		return nil
	})
	return l
}

// folded is the value of an expression made of literals (a rune counts as a text).
func folded(x ast.Expr) constant.Value {
	defer func() { recover() }()
	switch x := x.(type) {
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		if x.Kind == token.CHAR && v.Kind() == constant.Int {
			r, _ := constant.Int64Val(v)
			return constant.MakeString(string(rune(r)))
		}
		return v
	case *ast.ParenExpr:
		return folded(x.X)
	case *ast.BinaryExpr:
		a, b := folded(x.X), folded(x.Y)
		if a == nil || b == nil || a.Kind() != b.Kind() {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			n, ok := constant.Uint64Val(b)
			if !ok || n > 200 {
				return nil
			}
			return constant.Shift(a, x.Op, uint(n))
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(a, x.Op, b)
		}
	}
	return nil
}

// thorough: declarations are derived from a range of numbers and from every text constant of the generator.
var thorough bool

// seed selects among the texts.
var seed int

// novel lists the constants that occur more often in the generator than in the one the corpus was written for.
func novel(home, repo string) (ints []int64, strs []string) {
	if v, ok := os.LookupEnv("VGO_ADAPT"); ok { // development: i:NUMBER and s:TEXT, separated by |
		for _, w := range strings.Split(v, "|") {
			var n int64
			if _, err := fmt.Sscanf(w, "i:%d", &n); err == nil {
				ints = append(ints, n)
			} else if s, ok := strings.CutPrefix(w, "s:"); ok {
				strs = append(strs, s)
			}
		}
		return
	}
	if thorough {
		for _, n := range []int64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 100, 1000, 65535, 65536, 1 << 31, 1<<53 + 1} {
			ints = append(ints, n)
		}
		for s := range constants(repo).Strs {
			strs = append(strs, s)
		}
		sort.Strings(strs)
		// a part of them, another one for another seed
		if per := 40; len(strs) > per {
			k := seed * per % len(strs)
			strs = append(strs[k:], strs[:k]...)[:per]
		}
		return
	}
	var base literals
	b, err := os.ReadFile(filepath.Join(home, "vgo/literals.json"))
	if err != nil || json.Unmarshal(b, &base) != nil {
		return
	}
	cur := constants(repo)
	for s, n := range cur.Ints {
		if n > base.Ints[s] {
			var i int64
			if _, err := fmt.Sscan(s, &i); err == nil {
				ints = append(ints, i)
			}
		}
	}
	for s, n := range cur.Strs {
		if n > base.Strs[s] {
			strs = append(strs, s)
		}
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	sort.Strings(strs)
	if len(ints) > 12 {
		ints = ints[:12]
	}
	if len(strs) > 24 {
		strs = strs[:24]
	}
	return
}

// adaptive writes the groups for the new constants to dir, and returns their names.
func (c *Corpus) adaptive(dir string) (groups []string) {
	ints, strs := novel(c.home, c.repo)
	put := func(group, file, text string) {
		p := filepath.Join(dir, group, file)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(text), 0o644)
		if !has(groups, group) {
			groups = append(groups, group)
		}
	}
	done := map[int64]bool{}
	for _, n := range ints {
		if n < 0 {
			n = -n
		}
		if done[n] {
			continue
		}
		done[n] = true
		adaptInt(n, put)
	}
	for i, s := range strs {
		adaptStr(i, s, put)
	}
	return
}

// Lists are left out: decoding and resetting them has known defects.
var safeTypes = []string{"string", "int", "bool", "*string", "map[string]string", "*int64", "uint64", "time.Time"}

func adaptInt(n int64, put func(group, file, text string)) {
	g := fmt.Sprintf("x_i%d", n)
	var b strings.Builder
	fmt.Fprintf(&b, "package xi\n")
	wide := func(name, tag, opt string, k int64, types []string) {
		fmt.Fprintf(&b, "\n//json:%s\ntype %s struct {\n", tag, name)
		for i := int64(0); i < k; i++ {
			fmt.Fprintf(&b, "\tM%d %s `json:\"m%d%s\"`\n", i, types[i%int64(len(types))], i, opt)
		}
		b.WriteString("}\n")
	}
	if n >= 1 && n <= 70 {
		wide("W1", "strict", "", n, safeTypes)
		wide("W2", "json", ",omitempty", n+1, safeTypes)
		wide("W3", "json", "", n+1, []string{"string"})
		wide("W4", "json", ",required", n+1, []string{"int"})
		wide("W5", "encode", ",omitempty", n+1, safeTypes)
	} else if n > 70 && n <= 300 {
		wide("W1", "encode", "", n, safeTypes)
		wide("W2", "encode", ",omitempty", n+1, []string{"string", "int"})
	}
	if n > 70 && n <= 130 {
		wide("W3", "strict,decode", "", n+1, []string{"string"})
	}
	if n >= 2 && n <= 70 {
		// several of one kind
		for i, t := range []string{"*int", "map[string]int", "time.Time"} {
			wide(fmt.Sprintf("V%d", i), "json", ",omitempty", n+1, []string{t})
			if n > 20 {
				break
			}
		}
		// many nested ones
		b.WriteString("\n//json:json\ntype Leaf struct {\n\tA string `json:\"a\"`\n}\n")
		wide("U1", "json", ",omitempty", min(n+1, 30), []string{"Leaf", "*Leaf"})
	}
	if n >= 2 && n <= 1200 {
		// names and defaults of that length
		b.WriteString("\n//json:json\ntype N1 struct {\n")
		for _, k := range []int64{n - 1, n, n + 1} {
			s := strings.Repeat("a", int(k))
			fmt.Fprintf(&b, "\tF%d string `json:\"%s\"`\n", k, s)
			if k > 2 {
				fmt.Fprintf(&b, "\tG%s int `json:\"g%d\"`\n", strings.Repeat("x", int(k)-1), k)
			}
		}
		b.WriteString("}\n\n//json:json\ntype N2 struct {\n\tB bool `json:\"b,omitempty\"`\n")
		for _, k := range []int64{n - 1, n, n + 1} {
			fmt.Fprintf(&b, "\tF%d string `json:\"f%d\" default:\"%s\"`\n", k, k, strings.Repeat("d", int(k)))
			fmt.Fprintf(&b, "\tG%d *string `json:\"g%d,omitempty\" default:\"%s\"`\n", k, k, strings.Repeat("e", int(k)))
		}
		b.WriteString("}\n")
		fmt.Fprintf(&b, "\n//json:json\ntype T%s struct {\n\tA string `json:\"a\"`\n\tB int `json:\"b\"`\n}\n", strings.Repeat("t", int(n)-1))
	}
	// defaults of that value
	b.WriteString("\n//json:json\ntype D1 struct {\n")
	for i, k := range []int64{n - 1, n, n + 1, -n, -n - 1} {
		fmt.Fprintf(&b, "\tA%d int64 `json:\"a%d\" default:\"%d\"`\n", i, i, k)
		fmt.Fprintf(&b, "\tB%d *int `json:\"b%d,omitempty\" default:\"%d\"`\n", i, i, k)
		if k >= 0 {
			fmt.Fprintf(&b, "\tC%d uint64 `json:\"c%d\" default:\"%d\"`\n", i, i, k)
			fmt.Fprintf(&b, "\tD%d string `json:\"d%d\" default:\"%d\"`\n", i, i, k)
		}
	}
	b.WriteString("}\n")
	if n >= 2 && n <= 1<<16 {
		b.WriteString("\n//json:decode\ntype A1 struct {\n")
		for _, k := range []int64{n - 1, n, n + 1} {
			fmt.Fprintf(&b, "\tA%d [%d]int `json:\"a%d\"`\n", k, k, k)
		}
		b.WriteString("}\n")
	}
	if n >= 1 && n <= 12 {
		// structs within structs
		fmt.Fprintf(&b, "\ntype I%d struct {\n\tX%d string `json:\"x%d\"`\n}\n", n+1, n+1, n+1)
		for i := n; i >= 1; i-- {
			fmt.Fprintf(&b, "\ntype I%d struct {\n\tI%d `json:\",inline\"`\n\tX%d string `json:\"x%d,omitempty\"`\n}\n", i, i+1, i, i)
		}
		b.WriteString("\n//json:json\ntype I0 struct {\n\tA string `json:\"a\"`\n\tI1 `json:\",inline\"`\n\tB string `json:\"b\"`\n}\n")
		// next to each other
		b.WriteString("\n//json:json\ntype J0 struct {\n")
		for i := int64(0); i <= n; i++ {
			fmt.Fprintf(&b, "\tJ%d `json:\",inline\"`\n\tY%d int `json:\"y%d\"`\n", i+1, i, i)
		}
		b.WriteString("}\n")
		for i := int64(0); i <= n; i++ {
			fmt.Fprintf(&b, "\ntype J%d struct {\n\tP%d string `json:\"p%d\"`\n\tQ%d bool `json:\"q%d,omitempty\"`\n}\n", i+1, i, i, i, i)
		}
	}
	if n >= 2 && n <= 60 {
		for i := int64(0); i <= n; i++ {
			fmt.Fprintf(&b, "\n//json:json\ntype K%d struct {\n\tK%d string `json:\"k%d\"`\n}\n", i, i, i)
		}
	}
	text := b.String()
	if strings.Contains(text, "time.Time") {
		text = strings.Replace(text, "package xi\n", "package xi\n\nimport \"time\"\n", 1)
	}
	put(g, "t.go", text)
}

func adaptStr(no int, s string, put func(group, file, text string)) {
	// what is safe in a tag and needs no escaping
	safe := strings.Map(func(r rune) rune {
		if r < 0x20 || r == 0x7f || strings.ContainsRune("\"`\\,'", r) || r == unicode.ReplacementChar {
			return -1
		}
		return r
	}, s)
	if safe == "" || len(safe) > 200 {
		return
	}
	ident := strings.Map(func(r rune) rune {
		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
			return r
		}
		return -1
	}, safe)
	g := fmt.Sprintf("x_s%d", no)
	var b strings.Builder
	b.WriteString("package xs\n\nimport \"time\"\n\nvar _ time.Time\n")
	variants := func(s string) (out []string) {
		for _, v := range []string{s, "x" + s, s + "x", "X" + s + "X", s + s, strings.ToUpper(s), strings.ToLower(s), strings.Title(s), "a." + s + ".b", "a_" + s + "_b", "a " + s} {
			if !has(out, v) && strings.TrimSpace(v) != "" && v != "-" {
				out = append(out, v)
			}
		}
		return
	}
	for _, kind := range []struct{ tag, opt string }{{"strict", ""}, {"json", ",omitempty"}, {"json", ",required"}} {
		fmt.Fprintf(&b, "\n//json:%s\ntype N%d struct {\n", kind.tag, len(kind.opt))
		for i, v := range variants(safe) {
			fmt.Fprintf(&b, "\tF%d %s `json:\"%s%s\"`\n", i, safeTypes[i%len(safeTypes)], v, kind.opt)
		}
		b.WriteString("}\n")
	}
	b.WriteString("\n//json:json\ntype D struct {\n")
	for i, v := range variants(safe) {
		fmt.Fprintf(&b, "\tF%d string `json:\"f%d\" default:\"%s\"`\n", i, i, v)
		fmt.Fprintf(&b, "\tG%d *string `json:\"g%d,omitempty\" default:\"%s\"`\n", i, i, v)
	}
	b.WriteString("}\n")
	if strings.IndexFunc(safe, unicode.IsDigit) < 0 {
		b.WriteString("\n//json:json\ntype L struct {\n")
		for i, v := range []string{"2006-01-02" + safe, safe + "2006-01-02", "2006" + safe + "01" + safe + "02", "15:04:05 " + safe} {
			if strings.ContainsAny(v, "<>&") || strings.HasPrefix(v, "time.") {
				continue
			}
			fmt.Fprintf(&b, "\tF%d time.Time `json:\"f%d\" layout:\"%s\"`\n", i, i, v)
		}
		b.WriteString("}\n")
	}
	if ident != "" {
		b.WriteString("\n//json:json\ntype I struct {\n")
		for i, v := range variants("F" + ident) {
			if v[0] == 'F' || v[0] == 'X' {
				if token.IsIdentifier(v) && !method(v) {
					fmt.Fprintf(&b, "\t%s %s `json:\"i%d\"`\n", v, safeTypes[i%len(safeTypes)], i)
				}
			}
		}
		for i, v := range []string{strings.Title(ident), strings.ToUpper(ident), ident} {
			if token.IsIdentifier(v) && token.IsExported(v) && !method(v) && i < 1+btoi(v != strings.Title(ident)) {
				fmt.Fprintf(&b, "\t%s string `json:\"j%d\" %s:\"x\"`\n", v, i, "other")
			}
		}
		b.WriteString("}\n")
		seen := map[string]bool{"N0": true, "N10": true, "N9": true, "D": true, "L": true, "I": true}
		for _, v := range []string{ident, strings.Title(ident), "My" + ident, "my" + ident, "My" + strings.Title(ident), ident + "T", strings.Title(ident) + "Type"} {
			if !token.IsIdentifier(v) || seen[v] || reserved(v) {
				continue
			}
			seen[v] = true
			fmt.Fprintf(&b, "\n//json:json\ntype %s struct {\n\tA string `json:\"a\"`\n\tB *int `json:\"b,omitempty\"`\n}\n", v)
			fmt.Fprintf(&b, "\n//json:json\ntype Use%s struct {\n\tA %s `json:\"a\"`\n\tB *%s `json:\"b,omitempty\"`\n}\n", v, v, v)
		}
		if p := strings.ToLower(ident); token.IsIdentifier(p) && !reserved(p) && !reserved("x"+p) {
			h := g + "p"
			put(h, p+"/types.go", "package "+p+"\n\ntype Str string\n\ntype In struct {\n\tP string `json:\"p\"`\n}\n\n//json:json\ntype St struct {\n\tA string `json:\"a\"`\n}\n")
			put(h, "t.go", fmt.Sprintf("package xp\n\nimport (\n\t\"fill/%s/%s\"\n\tother \"fill/%s/x%s\"\n)\n\n//json:json\ntype T struct {\n\tA %s.Str `json:\"a\"`\n\tB %s.St `json:\"b\"`\n\t%s.In `json:\",inline\"`\n\tC other.Str `json:\"c\"`\n\tD other.St `json:\"d\"`\n}\n", h, p, h, p, p, p, p))
			put(h, "x"+p+"/types.go", "package x"+p+"\n\ntype Str int64\n\n//json:json\ntype St struct {\n\tB int `json:\"b\"`\n}\n")
		}
	}
	put(g, "t.go", b.String())
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// reserved names are predeclared, or what the generated code uses for itself.
func reserved(s string) bool {
	if token.IsKeyword(s) || types.Universe.Lookup(s) != nil || strings.HasPrefix(s, "_") || strings.HasPrefix(s, "val") || strings.HasPrefix(s, "offset") || strings.HasPrefix(s, "jsonParser") || strings.HasPrefix(s, "var") {
		return true
	}
	return has([]string{"a", "b", "buf", "checkFields", "data", "err", "i", "j", "k", "key", "l", "list", "listA", "n", "newElem", "o", "parser", "result", "s", "tmp", "v", "wantComma", "unpackObject", "elem", "item", "parseDate", "parseDateTime", "writeTime", "newParsingError", "validationError",
		"time", "bytes", "fmt", "strconv", "uuid", "fastjson", "jwriter", "errors", "math", "unsafe", "base64", "strings", "main", "init", "json", "sync"}, s)
}

// method: a field cannot have the name of a generated method.
func method(s string) bool {
	return has([]string{"UnmarshalJSON", "FillFromJSON", "MarshalJSON", "MarshalTo", "IsZero", "Reset"}, s)
}
