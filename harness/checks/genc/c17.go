package genc

import (
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"pgregory.net/rapid"
)

// GoNames become identifiers in interesting ways.
var GoNames = []string{"a", "b", "c", "d", "Foo", "bar", "item", "A", "foo", "x-y", "v.1", "xy", "t", "T", "type", "string", "Value", "Items", "func", "öl", "_u", "Item", "v1", "UnmarshalXML"}

// GenOpts are the schemas the generators are asked for.
func GenOpts() smodel.Opts {
	o := smodel.Full()
	o.Names = GoNames
	o.NoQuirk, o.SomeFacets = true, true
	o.Foreign = false
	return o
}

type codeCase struct {
	Set   *smodel.Set
	Style smodel.Style
	Opt   Options

	Strict bool `json:",omitempty"` // no allowance for known findings
}

func genCode(t *rapid.T) codeCase {
	return codeCase{Set: smodel.Gen(t, GenOpts()), Style: smodel.GenStyle(t), Opt: genOptions(t)}
}

// allValid says whether every name makes an identifier.
func allValid(set *smodel.Set, o Options) bool {
	for n := range names(set) {
		if !validIdent(o.ident(n)) {
			return false
		}
	}
	return true
}

func labelSet(set *smodel.Set, r *prop.Rec) {
	for i := range set.Schemas {
		set.Schemas[i].Visit(smodel.Visit{
			Type: func(t *smodel.Type) {
				switch {
				case t.Simple != nil:
					r.Label(t.Simple.Derive)
				case t.Complex.Simple:
					r.Label("simple content")
				case t.Complex.Base.Name.Local != "" && t.Complex.Extends:
					r.Label("extension")
				case t.Complex.Base.Name.Local != "":
					r.Label("complex restriction")
				default:
					r.Label("complex type")
				}
			},
			Elem: func(e *smodel.Elem, _ bool) {
				if e.Type.Name.Space == smodel.XSD {
					r.Label("element of " + e.Type.Name.Local)
				}
			},
		})
	}
	r.Labelf("%d namespaces", len(set.Schemas))
}

func checkCode(c codeCase, r *prop.Rec) error {
	x := smodel.Render(c.Set, c.Style)
	labelSet(c.Set, r)
	code, src, err := source(c.Opt.config(), x.Docs)
	if err != nil {
		if !allValid(c.Set, c.Opt) {
			r.Label("error: a name that is no identifier")
			return nil
		}
		if qnameList(c.Set) && strings.Contains(err.Error(), "don't know how to marshal/unmarshal <list> of QName") {
			r.Label("error: a list of QNames")
			return nil
		}
		return fmt.Errorf("generation failed: %v\n%s", cut(err.Error()), show(x.Docs))
	}
	r.Nontrivial(strings.Count(string(src), "\n") > 12)
	if err := judge(c, code.NameOf, src); err != nil {
		return fmt.Errorf("%v\n%s--- generated\n%s", err, show(x.Docs), src)
	}
	return nil
}

// qnameList says whether there is a list of qualified names.
func qnameList(set *smodel.Set) bool {
	found := false
	for i := range set.Schemas {
		ns := set.Schemas[i].NS
		set.Schemas[i].Visit(smodel.Visit{Type: func(t *smodel.Type) {
			if t.Simple != nil && t.Simple.Derive == "list" && smodel.Family(set.AtomRoot(set.Resolve(t.Simple.Base, ns, ""))) == "qname" {
				found = true
			}
		}})
	}
	return found
}

func cut(s string) string {
	if len(s) > 600 {
		return s[:600] + " ..."
	}
	return s
}

func judge(c codeCase, nameOf func(smodel.QN) string, src []byte) error {
	f, pkg, err := compile(src)
	if err != nil {
		return err
	}
	want := c.Opt.Pkg
	if want == "" {
		want = "ws"
	}
	if f.Name.Name != want {
		return fmt.Errorf("package %s, want %s", f.Name.Name, want)
	}
	if err := formatted(src); err != nil {
		return err
	}
	e := newExpect(c.Set, c.Opt, pkg)
	e.strict = c.Strict
	return e.check(nameOf)
}

// limits are fixed cases decided without the allowance the oracle of the
// generated ones makes for known finding K02: fields for references to global
// attributes are tagged without the attribute's namespace.
var limits = []codeCase{
	{Set: limitSet(smodel.AttrUse{Kind: "attr", Attr: &smodel.Attr{Name: "x", Type: builtin("string")}}), Strict: true},
	{Set: limitSet(smodel.AttrUse{Kind: "attr", Attr: &smodel.Attr{Name: "x", Type: builtin("string"), Qualified: true}}), Strict: true},
	{Set: limitSet(smodel.AttrUse{Kind: "ref", Ref: QN{Space: "urn:a", Local: "x"}}), Strict: true},
}

func builtin(name string) smodel.Ref { return smodel.Ref{Name: QN{Space: smodel.XSD, Local: name}} }

func limitSet(use smodel.AttrUse) *smodel.Set {
	return &smodel.Set{Schemas: []smodel.Schema{{
		NS:    "urn:a",
		Attrs: []*smodel.Attr{{Name: "x", Type: builtin("string")}},
		Types: []*smodel.Type{{Name: "t", Complex: &smodel.Complex{Attrs: []smodel.AttrUse{use}}}},
	}}}
}

func init() {
	prop.Register("C17", "declarations", "the generated file has more than a dozen lines", genCode, checkCode, prop.Counts(4000, 60000))
	prop.Enumerate("C17", "attribute tags", "always", func() int { return len(limits) }, func(i int) codeCase { return limits[i] }, func(c codeCase, r *prop.Rec) error {
		err := checkCode(c, r)
		r.Nontrivial(true)
		return err
	})
}
