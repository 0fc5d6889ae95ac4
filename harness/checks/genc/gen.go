// Package genc checks the code generators.
package genc

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"unicode"

	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsdgen"
	"pgregory.net/rapid"
)

// Options are the generator options of a case.
type Options struct {
	Defaults    bool        `json:",omitempty"` // start from xsdgen.DefaultOptions
	FieldNames  bool        `json:",omitempty"` // UseFieldNames
	Replace     [][2]string `json:",omitempty"`
	IgnoreAttrs []string    `json:",omitempty"`
	IgnoreElems []string    `json:",omitempty"`
	Pkg         string      `json:",omitempty"`
	NS          []string    `json:",omitempty"` // Namespaces
	Only        []string    `json:",omitempty"` // OnlyTypes, exact names
	OnlyPat     []string    `json:",omitempty"` // OnlyTypes, patterns
	Allow       []xml.Name  `json:",omitempty"` // AllowType
}

var replacements = [][2]string{{`[._ \s-]`, ""}, {"^a$", "Alpha"}, {"(.)o", "${1}u"}, {"ar", "AR"}, {"^", "x"}, {"b|c", "bc"}}

// collapse gives most names one Go name.
var collapse = [2]string{"^[A-Za-z].*$", "same"}

func genOptions(t *rapid.T) Options {
	o := Options{Defaults: prop.Chance(t, 6)}
	if !o.Defaults {
		o.FieldNames = prop.Chance(t, 6)
		if prop.Chance(t, 8) {
			o.Replace = append(o.Replace, replacements[0])
		}
	}
	if prop.Chance(t, 3) {
		o.Replace = append(o.Replace, replacements[prop.Int(t, len(replacements))])
	}
	if prop.Chance(t, 1) {
		o.Replace = append(o.Replace, collapse)
	}
	if prop.Chance(t, 3) {
		o.IgnoreAttrs = []string{prop.Pick(t, "a", "b", "Foo"), "item"}
	}
	if prop.Chance(t, 2) {
		o.IgnoreElems = []string{prop.Pick(t, "a", "b", "Foo"), "item"}
	}
	o.Pkg = prop.Pick(t, "", "", "ws", "main", "foo")
	return o
}

func (o Options) list() []xsdgen.Option {
	var out []xsdgen.Option
	if o.Defaults {
		out = append(out, xsdgen.DefaultOptions...)
	}
	if o.FieldNames {
		out = append(out, xsdgen.UseFieldNames())
	}
	for _, r := range o.Replace {
		out = append(out, xsdgen.Replace(r[0], r[1]))
	}
	if o.IgnoreAttrs != nil {
		out = append(out, xsdgen.IgnoreAttributes(o.IgnoreAttrs...))
	}
	if o.IgnoreElems != nil {
		out = append(out, xsdgen.IgnoreElements(o.IgnoreElems...))
	}
	if o.Pkg != "" {
		out = append(out, xsdgen.PackageName(o.Pkg))
	}
	if o.NS != nil {
		out = append(out, xsdgen.Namespaces(o.NS...))
	}
	if o.Only != nil {
		var pats []string
		for _, s := range o.Only {
			pats = append(pats, "^"+regexp.QuoteMeta(s)+"$")
		}
		out = append(out, xsdgen.OnlyTypes(pats...))
	}
	if o.OnlyPat != nil {
		out = append(out, xsdgen.OnlyTypes(o.OnlyPat...))
	}
	for _, n := range o.Allow {
		out = append(out, xsdgen.AllowType(n))
	}
	return out
}

func (o Options) config() *xsdgen.Config {
	cfg := new(xsdgen.Config)
	cfg.Option(o.list()...)
	return cfg
}

func (o Options) ignoredAttrs() []string {
	if o.IgnoreAttrs == nil && o.Defaults {
		return []string{"id", "href", "ref", "offset"}
	}
	return o.IgnoreAttrs
}

// ident is the identifier the options make of a name.
func (o Options) ident(local string) string {
	if o.Defaults {
		local = regexp.MustCompile(replacements[0][0]).ReplaceAllString(local, "")
	}
	for _, r := range o.Replace {
		local = regexp.MustCompile(r[0]).ReplaceAllString(local, r[1])
	}
	return strings.Title(local)
}

func validIdent(s string) bool {
	for i, r := range s {
		if !(unicode.IsLetter(r) || r == '_' || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return s != "" && s != "_" && !token.IsKeyword(s)
}

// source generates code the way GenSource does, from documents in memory.
func source(cfg *xsdgen.Config, docs [][]byte) (*xsdgen.Code, []byte, error) {
	code, err := cfg.GenCode(clone(docs)...)
	if err != nil {
		return nil, nil, err
	}
	file, err := code.GenAST()
	if err != nil {
		return nil, nil, err
	}
	src, err := gen.FormattedSource(file, "out.go")
	return code, src, err
}

func clone(docs [][]byte) [][]byte {
	out := make([][]byte, len(docs))
	for i, d := range docs {
		out[i] = append([]byte(nil), d...)
	}
	return out
}

func show(docs [][]byte) string {
	var b strings.Builder
	for i, d := range docs {
		fmt.Fprintf(&b, "--- document %d\n%s\n", i, d)
	}
	return b.String()
}

var (
	exportOnce sync.Once
	exports    map[string]string
	exportErr  error
	impMu      sync.Mutex
	imp        types.Importer
	fset       = token.NewFileSet()
)

// stdlib gives an importer of the standard library from export data.
func stdlib() (types.Importer, error) {
	exportOnce.Do(func() {
		cmd := exec.Command("go", "list", "-export", "-f", "{{.ImportPath}}={{.Export}}", "-deps", "encoding/xml", "time", "net/http", "encoding/hex", "encoding/base64", "strconv", "bytes", "strings", "context", "fmt", "errors", "io", "io/ioutil", "encoding/json", "reflect", "bufio", "os")
		cmd.Dir = "/"
		cmd.Env = append(os.Environ(), "GO111MODULE=off")
		out, err := cmd.Output()
		if err != nil {
			exportErr = prop.Infra("go list: %v", err)
			return
		}
		exports = map[string]string{}
		for _, l := range strings.Split(string(out), "\n") {
			if i := strings.Index(l, "="); i > 0 {
				exports[l[:i]] = l[i+1:]
			}
		}
		imp = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			f, ok := exports[path]
			if !ok || f == "" {
				return nil, fmt.Errorf("no package %q in the standard library", path)
			}
			return os.Open(f)
		})
	})
	return imp, exportErr
}

// compile type-checks generated source.
func compile(src []byte) (*ast.File, *types.Package, error) {
	imp, err := stdlib()
	if err != nil {
		return nil, nil, err
	}
	impMu.Lock()
	defer impMu.Unlock()
	fs := fset
	f, err := parser.ParseFile(fs, "out.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, fmt.Errorf("generated source does not parse: %v", err)
	}
	var first error
	conf := types.Config{Importer: imp, Error: func(err error) {
		if first == nil {
			first = err
		}
	}}
	pkg, err := conf.Check("gen", fs, []*ast.File{f}, nil)
	if first != nil {
		err = first
	}
	if err != nil {
		return f, nil, fmt.Errorf("generated source does not compile: %v", err)
	}
	return f, pkg, nil
}

func formatted(src []byte) error {
	out, err := format.Source(src)
	if err != nil {
		return fmt.Errorf("generated source cannot be formatted: %v", err)
	}
	if !bytes.Equal(out, src) {
		return fmt.Errorf("generated source is not formatted")
	}
	return nil
}

// names lists every name of the set that becomes an identifier.
func names(set *smodel.Set) map[string]bool {
	out := map[string]bool{}
	for i := range set.Schemas {
		sc := &set.Schemas[i]
		for _, t := range sc.Types {
			out[t.Name] = true
		}
		sc.Visit(smodel.Visit{
			Elem: func(e *smodel.Elem, _ bool) { out[e.Name] = true },
			Attr: func(a *smodel.Attr, _ bool) { out[a.Name] = true },
		})
	}
	return out
}
