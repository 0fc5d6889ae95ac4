package genc

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"pgregory.net/rapid"
)

// oddDocs are paragraphs that must not be taken for anything but text.
var oddDocs = []string{
	"*/ func init() {} /*", "ends in a backslash \\", "`quoted` \"text\" 'x'", "{{.Name}} {{end}}", "100% %s %d %!v(MISSING)",
	"one\ntwo\nthree", "first\n\nsecond", "\ttabs\tand  blanks ", "if x < 1 && y > 2 { return }", "// a comment", "// Output:\nnone",
	"package main", "import \"C\"", "ünï ☃ 日本 \U0001F600", "Deprecated: use another.", "line one\n}\ntype X int", "TODO(x): y", "- a\n- b",
	"Code generated by hand.", "\u2028separated\u2029", "a\u00a0b", "_", "0", "</a>", "go generate", "cgo CFLAGS: -g", "export Foo",
}

// eachDocs visits the documentation of everything below a value.
func eachDocs(v reflect.Value, f func(*[]string)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			eachDocs(v.Elem(), f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			eachDocs(v.Index(i), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if d, ok := v.Field(i).Addr().Interface().(*[]string); ok && v.Type().Field(i).Name == "Docs" {
				f(d)
				continue
			}
			eachDocs(v.Field(i), f)
		}
	}
}

func document(t *rapid.T, x interface{}) {
	eachDocs(reflect.ValueOf(x), func(d *[]string) {
		if !prop.Chance(t, 5) {
			return
		}
		*d = nil
		for k := prop.Range(t, 1, 2); k > 0; k-- {
			s := prop.Pick(t, oddDocs...)
			if prop.Chance(t, 3) {
				s += " " + prop.Pick(t, oddDocs...)
			}
			if prop.Int(t, 400) == 1 {
				s = strings.Repeat("long ", 15000) + "end\n" + s
			}
			*d = append(*d, s)
		}
	})
}

// bare is a copy without documentation.
func bare[T any](x T) T {
	var out T
	b, err := json.Marshal(x)
	if err == nil {
		err = json.Unmarshal(b, &out)
	}
	if err != nil {
		panic(err)
	}
	eachDocs(reflect.ValueOf(&out), func(d *[]string) { *d = nil })
	return out
}

// tokens gives the tokens of source but for its comments.
func tokens(src []byte) ([]string, error) {
	var sc scanner.Scanner
	fs := token.NewFileSet()
	var errs scanner.ErrorList
	sc.Init(fs.AddFile("x.go", -1, len(src)), src, errs.Add, 0)
	var out []string
	for {
		_, tok, lit := sc.Scan()
		if tok == token.EOF {
			return out, errs.Err()
		}
		if lit == "" || lit == "\n" {
			lit = tok.String()
		}
		out = append(out, lit)
	}
}

// comments gives the words of the comment of each type and method, and of
// what is above the package clause.
func comments(src []byte) (map[string]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	text := func(gs ...*ast.CommentGroup) string {
		var out []string
		for _, g := range gs {
			if g == nil {
				continue
			}
			for _, c := range g.List {
				out = append(out, strings.Fields(strings.TrimPrefix(c.Text, "//"))...)
			}
		}
		return strings.Join(out, " ")
	}
	out := map[string]string{}
	var top []*ast.CommentGroup
	for _, g := range f.Comments {
		if g.End() < f.Package {
			top = append(top, g)
		}
	}
	out[""] = text(top...)
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil {
				out["."+d.Name.Name] = text(d.Doc)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if s, ok := s.(*ast.TypeSpec); ok {
					out[s.Name.Name] = text(d.Doc, s.Doc)
				}
			}
		}
	}
	return out, nil
}

func words(docs ...[]string) string {
	var out []string
	for _, ds := range docs {
		for _, d := range ds {
			out = append(out, strings.Fields(d)...)
		}
	}
	return strings.Join(out, " ")
}

func plain(st smodel.Style) smodel.Style {
	st.Shuffle, st.Split, st.Reorder, st.Wrap = false, false, false, false
	return st
}

func genDocumented(t *rapid.T) codeCase {
	o := GenOpts()
	o.AllFacets = prop.Chance(t, 4)
	o.SimpleHeavy = o.AllFacets
	c := codeCase{Set: smodel.Gen(t, o), Style: plain(smodel.GenStyle(t)), Opt: genOptions(t)}
	document(t, c.Set)
	return c
}

func checkDocumented(c codeCase, r *prop.Rec) error {
	docs := smodel.Render(c.Set, c.Style).Docs
	code, src, err := source(c.Opt.config(), docs)
	_, src0, err0 := source(c.Opt.config(), smodel.Render(bare(c.Set), c.Style).Docs)
	fail := func(f string, a ...interface{}) error {
		return fmt.Errorf("%s\noptions %+v\n%s--- generated\n%s", fmt.Sprintf(f, a...), c.Opt, show(docs), src)
	}
	if err != nil || err0 != nil {
		if (err == nil) != (err0 == nil) {
			return fail("error with documentation: %v; without: %v", err, err0)
		}
		r.Label("refused")
		return nil
	}
	if err := sameCode(src, src0); err != nil {
		return fail("%v", err)
	}
	have, err := comments(src)
	if err != nil {
		return fail("%v", err)
	}
	// Complex types that add nothing to a simple one share its Go type.
	shared := map[string]int{}
	for i := range c.Set.Schemas {
		for _, t := range c.Set.Schemas[i].Types {
			shared[code.NameOf(QN{Space: c.Set.Schemas[i].NS, Local: t.Name})]++
		}
	}
	// Names that are used once can be told from the types they stand for.
	count := map[string]int{}
	for i := range c.Set.Schemas {
		sc := &c.Set.Schemas[i]
		for _, t := range sc.Types {
			count[c.Opt.ident(t.Name)]++
		}
		sc.Visit(smodel.Visit{Elem: func(e *smodel.Elem, _ bool) {
			if e.Type.Inline != nil {
				count[c.Opt.ident(e.Name)]++
			}
		}, Attr: func(a *smodel.Attr, _ bool) {
			if a.Type.Inline != nil {
				count[c.Opt.ident(a.Name)]++
			}
		}})
	}
	for i := range c.Set.Schemas {
		sc := &c.Set.Schemas[i]
		for _, t := range sc.Types {
			if count[c.Opt.ident(t.Name)] > 1 {
				continue
			}
			name := code.NameOf(QN{Space: sc.NS, Local: t.Name})
			got, ok := have[name]
			if !ok || shared[name] > 1 {
				continue
			}
			var want string
			if t.Complex != nil {
				want = words(t.Docs, t.Complex.Docs)
			} else if t.Simple.Derive == "list" || c.Set.IsList(smodel.Res{Def: t, NS: sc.NS}) {
				continue // without a comment
			} else {
				want = words(t.Docs)
				w, known := c.note(smodel.Res{Def: t, NS: sc.NS})
				if known && note(got) {
					r.Work++
					r.Label("note of a restriction: " + strings.Join(append(strings.Fields(w), "", "", "", "")[:4], " "))
					if got != w {
						return fail("type {%s}%s: the comment is %q, want %q", sc.NS, t.Name, got, w)
					}
					continue
				}
				if note(got) && c.Set.AnyFacet(smodel.Res{Def: t, NS: sc.NS}) {
					r.Label("note of a restriction")
					continue
				}
			}
			r.Work++
			r.Nontrivial(want != "")
			if got != want {
				return fail("type {%s}%s: the comment is %q, want %q", sc.NS, t.Name, got, want)
			}
		}
	}
	return nil
}

// note is what is said of the restrictions of a type whose base has none.
func (c codeCase) note(t smodel.Res) (string, bool) {
	facets := map[string][]string{}
	for _, f := range t.Def.Simple.Facets {
		facets[f.Name] = append(facets[f.Name], strings.TrimSpace(f.Value))
		if f.Name == "enumeration" {
			facets["raw"] = append(facets["raw"], f.Value)
		}
	}
	if v := facets["raw"]; v != nil {
		return words([]string{"May be one of " + strings.Join(v, ", ")}), true
	}
	if c.Set.AnyFacet(c.Set.Base(t)) || facets["length"] != nil {
		return "", false
	}
	if v := facets["pattern"]; v != nil {
		for _, p := range v {
			if _, err := regexp.Compile(p); err != nil {
				return "", false
			}
		}
		return words([]string{"Must match the pattern " + strings.Join(v, "|")}), true
	}
	number := func(f string) int {
		if len(facets[f]) != 1 {
			return 0
		}
		n, _ := strconv.Atoi(facets[f][0])
		return n
	}
	if n := number("maxLength"); n != 0 {
		return fmt.Sprintf("May be no more than %d items long", n), true
	}
	if n := number("minLength"); n != 0 {
		return fmt.Sprintf("Must be at least %d items long", n), true
	}
	return "", false
}

// note says whether a comment tells of a restriction.
func note(s string) bool {
	for _, p := range []string{"May be one of", "Must match the pattern ", "May be no more than ", "Must be at least "} {
		if strings.HasPrefix(s+" ", p) {
			return true
		}
	}
	return false
}

func sameCode(a, b []byte) error {
	x, err := tokens(a)
	if err != nil {
		return fmt.Errorf("generated source does not parse: %v", err)
	}
	y, err := tokens(b)
	if err != nil {
		return fmt.Errorf("source generated without documentation does not parse: %v", err)
	}
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return fmt.Errorf("without documentation, the code differs from %q on: %q", x[max(0, i-10):min(i+5, len(x))], y[min(max(0, i-10), len(y)):min(i+5, len(y))])
		}
	}
	if len(x) < len(y) {
		return fmt.Errorf("without documentation, there is more code")
	}
	return nil
}

func genDocumentedClient(t *rapid.T) clientCase {
	c := genClient(t)
	document(t, &c.Service)
	return c
}

func checkDocumentedClient(c clientCase, r *prop.Rec) error {
	doc := c.Service.RenderMutated(nil)
	src, err := clientSource(c.config(), append([]byte(nil), doc...))
	if _, ok := err.(prop.InfraError); ok {
		return err
	}
	c0 := bare(c)
	src0, err0 := clientSource(c0.config(), c0.Service.RenderMutated(nil))
	fail := func(f string, a ...interface{}) error {
		return fmt.Errorf("%s\noptions %+v\n%s\n--- generated\n%s", fmt.Sprintf(f, a...), c.Opt, doc, src)
	}
	if err != nil || err0 != nil {
		if (err == nil) != (err0 == nil) {
			return fail("error with documentation: %v; without: %v", err, err0)
		}
		r.Label("refused")
		return nil
	}
	if err := sameCode(src, src0); err != nil {
		return fail("%v", err)
	}
	have, err := comments(src)
	if err != nil {
		return fail("%v", err)
	}
	var all [][]string
	for _, s := range c.Service.Services {
		all = append(all, s.Docs)
	}
	if w := words(all...); !strings.Contains(have[""], w) {
		return fail("the comment of the package is %q, want %q in it", have[""], w)
	}
	if w := words([]string{c.Comment}); !strings.Contains(have[""], w) {
		return fail("the comment of the package is %q, want %q in it", have[""], w)
	}
	ops, _ := c.operations()
	count := map[string]int{}
	for _, op := range ops {
		count[c.Opt.ident(op.info.Name)]++
	}
	for _, op := range ops {
		n := c.Opt.ident(op.info.Name)
		got, ok := have["."+n]
		renamed := false
		for m, k := range count {
			renamed = renamed || k > 1 && strings.HasPrefix(n, m)
		}
		if !ok || renamed {
			continue
		}
		want := words(op.info.Docs)
		r.Work++
		r.Nontrivial(want != "")
		if got != want {
			return fail("method %s: the comment is %q, want %q", n, got, want)
		}
	}
	return nil
}

func init() {
	prop.Register("C29", "types", "a declared type has documentation", genDocumented, checkDocumented, prop.Counts(1500, 40000))
	prop.Register("C29", "clients", "an operation with a method has documentation", genDocumentedClient, checkDocumentedClient, prop.Counts(500, 12000))
}
