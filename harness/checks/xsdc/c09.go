// Package xsdc checks package xsd and package wsdl.
package xsdc

import (
	"encoding/xml"
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
	"pgregory.net/rapid"
)

type schemaCase struct {
	Set   *smodel.Set
	Style smodel.Style
}

func genSchema(t *rapid.T) schemaCase {
	return schemaCase{Set: smodel.Gen(t, smodel.Full()), Style: smodel.GenStyle(t)}
}

// show prints the documents of a case.
func show(docs [][]byte) string {
	var b strings.Builder
	for i, d := range docs {
		fmt.Fprintf(&b, "--- document %d\n%s\n", i, d)
	}
	return b.String()
}

func clone(docs [][]byte) [][]byte {
	out := make([][]byte, len(docs))
	for i, d := range docs {
		out[i] = append([]byte(nil), d...)
	}
	return out
}

func unchanged(a, b [][]byte) error {
	for i := range a {
		if string(a[i]) != string(b[i]) {
			return fmt.Errorf("document %d was modified", i)
		}
	}
	return nil
}

// extraSchemas is how many schemas Parse adds: the standard ones and the
// built-in types.
var extraSchemas = len(xsd.StandardSchema) + 1

// checkParsed compares what Parse returned with the model.
func checkParsed(set *smodel.Set, x *smodel.Rendered, got []xsd.Schema, transparent map[xml.Name]bool) error {
	d := &smodel.Dumper{Set: set, Transparent: transparent}
	if len(got) != len(x.Parts)+extraSchemas {
		return fmt.Errorf("%d schemas, want %d", len(got), len(x.Parts)+extraSchemas)
	}
	anons := map[string]map[xsd.Type]bool{} // namespace → anonymous types
	for i, p := range x.Parts {
		s := got[i]
		if s.TargetNS != p.NS {
			return fmt.Errorf("schema %d has target namespace %q, want %q", i, s.TargetNS, p.NS)
		}
		if anons[p.NS] == nil {
			anons[p.NS] = map[xsd.Type]bool{}
		}
		known := map[xml.Name]bool{}
		for _, n := range p.Types {
			key := xml.Name{Space: p.NS, Local: n}
			known[key] = true
			t := s.Types[key]
			if t == nil {
				return fmt.Errorf("schema %d: no type %v", i, key)
			}
			if xsd.XMLName(t) != key {
				return fmt.Errorf("type %v is named %v", key, xsd.XMLName(t))
			}
			if anonymous(t) {
				return fmt.Errorf("type %v is marked anonymous", key)
			}
			def := smodel.Res{Def: set.Type(key), NS: p.NS}
			if err := smodel.SameDump(d.Exp(def, nil), d.Act(t, nil)); err != nil {
				return fmt.Errorf("type %v: %v", key, err)
			}
		}
		// the document type
		key := xml.Name{Space: p.NS, Local: "_self"}
		known[key] = true
		self, ok := s.Types[key].(*xsd.ComplexType)
		if !ok {
			return fmt.Errorf("schema %d: no document type", i)
		}
		want := d.ExpSelf(p.NS, p.Elems)
		if len(self.Elements) != len(want) {
			return fmt.Errorf("schema %d: document type has %d elements, want %d", i, len(self.Elements), len(want))
		}
		for j, e := range self.Elements {
			if err := smodel.SameDump(want[j], d.ActElem(e, nil)); err != nil {
				return fmt.Errorf("document type of schema %d: %v", i, err)
			}
		}
		// element aliases
		owners := map[string]bool{}
		for _, a := range set.Schema(p.NS).Anons() {
			owners[a.Owner] = true
		}
		for _, n := range p.Elems {
			key := xml.Name{Space: p.NS, Local: n}
			e := set.Elem(key)
			t := s.Types[key]
			if set.Type(key) != nil {
				if !known[key] && t != nil {
					return fmt.Errorf("element %v shadows the type of that name", key)
				}
				continue
			}
			if e.Type.Inline != nil {
				continue // the anonymous type may have taken the name
			}
			if t == nil {
				return fmt.Errorf("element %v is not reachable as a type", key)
			}
			if known[key] {
				continue
			}
			want, g := d.ExpRef(set.Resolve(e.Type, p.NS, "anyType"), nil), d.ActRef(t, nil)
			if err := smodel.SameDump(want, g); err != nil {
				return fmt.Errorf("alias of element %v: %v", key, err)
			}
			known[key] = true
		}
		for key, t := range s.Types {
			if known[key] {
				continue
			}
			if key.Space != p.NS {
				return fmt.Errorf("schema %d (%q) has a type %v", i, p.NS, key)
			}
			n := xsd.XMLName(t)
			if n != key {
				// only an element whose name an anonymous type might have
				if !owners[key.Local] || set.Elem(key) == nil {
					return fmt.Errorf("schema %d: type %v filed under %v", i, n, key)
				}
				continue
			}
			if _, ok := t.(xsd.Builtin); ok {
				return fmt.Errorf("schema %d has a built-in under %v", i, key)
			}
			anons[p.NS][t] = true
		}
	}
	for i := range set.Schemas {
		sc := &set.Schemas[i]
		want := sc.Anons()
		have := anons[sc.NS]
		if len(have) != len(want) {
			return fmt.Errorf("namespace %q: %d anonymous types (%s), want %d", sc.NS, len(have), names(have), len(want))
		}
		owners := map[string]int{}
		for _, a := range want {
			owners[a.Owner]++
		}
		seen := map[string]bool{}
		for t := range have {
			n := xsd.XMLName(t).Local
			if seen[n] {
				return fmt.Errorf("namespace %q: two types named %q", sc.NS, n)
			}
			seen[n] = true
			if !anonymous(t) && owners[n] == 0 {
				return fmt.Errorf("namespace %q: type %q is not declared and not marked anonymous", sc.NS, n)
			}
			if anonymous(t) && set.Type(xml.Name{Space: sc.NS, Local: n}) != nil {
				return fmt.Errorf("namespace %q: generated name %q is that of a declared type", sc.NS, n)
			}
		}
	}
	return nil
}

func names(m map[xsd.Type]bool) string {
	var out []string
	for t := range m {
		out = append(out, xsd.XMLName(t).Local)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func anonymous(t xsd.Type) bool {
	switch t := t.(type) {
	case *xsd.ComplexType:
		return t.Anonymous
	case *xsd.SimpleType:
		return t.Anonymous
	}
	return false
}

// classify labels a case by what its schemas contain and says whether that is
// enough to call the case non-trivial.
func classify(set *smodel.Set, r *prop.Rec) bool {
	ext, elems, attrs := 0, 0, 0
	for i := range set.Schemas {
		sc := &set.Schemas[i]
		r.LabelIf(sc.NS == "", "no target namespace")
		for _, t := range sc.Types {
			if c := t.Complex; c != nil {
				switch {
				case c.Simple:
					r.Label("simple content")
				case !c.Base.Zero():
					r.Label("derived complex type")
					ext++
				}
				for _, f := range set.Fields(c.Content, sc.NS) {
					elems++
					r.LabelIf(f.Choice, "element below a choice")
					r.LabelIf(f.Wild, "wildcard")
					r.LabelIf(f.Max < 0 || f.Max > 1, "plural element")
					r.LabelIf(len(f.Elems) > 1, "element declared twice")
					r.LabelIf(f.NS != sc.NS, "element of another namespace")
				}
				for _, a := range set.AttrFields(c.Attrs, sc.NS) {
					attrs++
					r.LabelIf(a.Name.Space != "", "qualified attribute")
				}
			} else {
				r.Label("simple type: " + t.Simple.Derive)
			}
		}
		for _, a := range sc.Anons() {
			r.LabelIf(a.Owner == "", "anonymous type in a type")
			r.LabelIf(a.Owner != "", "anonymous type in an element or attribute")
		}
	}
	return ext+elems+attrs > 2
}

func checkSchema(c schemaCase, r *prop.Rec) error {
	x := smodel.Render(c.Set, c.Style)
	docs := clone(x.Docs)
	got, err := xsd.Parse(docs...)
	if err != nil {
		return fmt.Errorf("Parse: %v\n%s", err, show(x.Docs))
	}
	if err := unchanged(x.Docs, docs); err != nil {
		return err
	}
	if err := checkParsed(c.Set, x, got, nil); err != nil {
		return fmt.Errorf("%v\n%s", err, show(x.Docs))
	}
	r.Nontrivial(classify(c.Set, r))
	r.Labelf("%d namespaces", len(c.Set.Schemas))
	return nil
}

func init() {
	prop.Register("C09", "model", "the schemas declare more than two elements, attributes or derivations", genSchema, checkSchema, prop.Counts(4000, 150000))
}

// A limitCase asks for the name of one element of one type.
type limitCase struct {
	Docs []string
	Type string // "namespace local"
	Elem string // local name
	NS   string // namespace wanted
}

// checkLimit decides the fixed cases behind known findings K01 and K03, which
// the generator leaves out or the oracle of C09/model accepts either way.
func checkLimit(c limitCase, r *prop.Rec) error {
	var docs [][]byte
	for _, d := range c.Docs {
		docs = append(docs, []byte(d))
	}
	got, err := xsd.Parse(docs...)
	if err != nil {
		return err
	}
	f := strings.Fields(c.Type)
	for _, s := range got {
		t, ok := s.Types[xml.Name{Space: f[0], Local: f[1]}].(*xsd.ComplexType)
		if !ok {
			continue
		}
		for _, e := range t.Elements {
			if e.Name.Local == c.Elem {
				if e.Name.Space != c.NS {
					return fmt.Errorf("element %s of type %s is in namespace %q, want %q", c.Elem, c.Type, e.Name.Space, c.NS)
				}
				r.Nontrivial(true)
				return nil
			}
		}
	}
	return fmt.Errorf("no element %s", c.Elem)
}

func limitSchema(tns, form, elemType, more string) string {
	return fmt.Sprintf(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:a="urn:a" xmlns:b="urn:b" targetNamespace="%s"%s>%s<xs:complexType name="T"><xs:sequence><xs:element name="e" type="%s"/></xs:sequence></xs:complexType></xs:schema>`,
		tns, form, more, elemType)
}

// limits holds when the elements are of built-in types and qualified.
var limits = []limitCase{
	{Docs: []string{limitSchema("urn:a", ` elementFormDefault="qualified"`, "xs:int", "")}, Type: "urn:a T", Elem: "e", NS: "urn:a"},
	{Docs: []string{limitSchema("urn:a", ` elementFormDefault="qualified"`, "a:S", `<xs:simpleType name="S"><xs:restriction base="xs:int"/></xs:simpleType>`)}, Type: "urn:a T", Elem: "e", NS: "urn:a"},
}

func init() {
	prop.Enumerate("C09", "element namespace", "the element was found", func() int { return len(limits) }, func(i int) limitCase { return limits[i] }, checkLimit)
}
