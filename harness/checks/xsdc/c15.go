package xsdc

import (
	"encoding/xml"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
	"pgregory.net/rapid"
)

func genFacets(t *rapid.T) schemaCase {
	o := smodel.Full()
	o.MaxNS, o.MaxTypes = 2, 6
	o.AllFacets, o.SimpleHeavy = true, true
	o.Recursive, o.Wild = false, false
	return schemaCase{Set: smodel.Gen(t, o), Style: smodel.GenStyle(t)}
}

func checkFacets(c schemaCase, r *prop.Rec) error {
	nontrivial := false
	for i := range c.Set.Schemas {
		for _, t := range c.Set.Schemas[i].Types {
			if t.Simple == nil {
				continue
			}
			r.Label(t.Simple.Derive)
			for _, f := range t.Simple.Facets {
				r.Label(f.Name)
			}
			if len(t.Simple.Facets) > 0 {
				nontrivial = true
				root := c.Set.AtomRoot(smodel.Res{Def: t, NS: c.Set.Schemas[i].NS})
				r.Labelf("facets of %s", root)
			}
		}
	}
	r.Nontrivial(nontrivial)
	x := smodel.Render(c.Set, c.Style)
	got, err := xsd.Parse(clone(x.Docs)...)
	if err != nil {
		return fmt.Errorf("Parse: %v\n%s", err, show(x.Docs))
	}
	if err := checkParsed(c.Set, x, got, nil); err != nil {
		return fmt.Errorf("%v\n%s", err, show(x.Docs))
	}
	return nil
}

// A restriction with patterns that RE2 may not know.
type patternCase struct {
	Base     string
	Patterns []string
	Doc      string
	Max      int
}

func genPatterns(t *rapid.T) patternCase {
	c := patternCase{Base: prop.Pick(t, "string", "token", "int", "date", "anyURI"), Doc: prop.Pick(t, "", "Some text."), Max: prop.Int(t, 3)}
	for k := prop.Range(t, 1, 5); k > 0; k-- {
		if prop.Chance(t, 4) {
			c.Patterns = append(c.Patterns, prop.Pick(t, smodel.BadPatterns...))
		} else {
			c.Patterns = append(c.Patterns, prop.Pick(t, smodel.GoodPatterns...))
		}
	}
	return c
}

func esc(s string) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func checkPatterns(c patternCase, r *prop.Rec) error {
	var b strings.Builder
	fmt.Fprintf(&b, "<xs:schema xmlns:xs='%s' targetNamespace='urn:a'><xs:simpleType name='a'><xs:restriction base='xs:%s'>", smodel.XSD, c.Base)
	if c.Doc != "" {
		fmt.Fprintf(&b, "<xs:annotation><xs:documentation>%s</xs:documentation></xs:annotation>", c.Doc)
	}
	var bad []string
	for i, p := range c.Patterns {
		fmt.Fprintf(&b, "<xs:pattern value='%s'/>", esc(p))
		if _, err := regexp.Compile(p); err != nil {
			bad = append(bad, p)
		}
		if i == 0 && c.Max > 0 && c.Base != "int" && c.Base != "date" {
			fmt.Fprintf(&b, "<xs:maxLength value='%d'/>", c.Max)
		}
	}
	b.WriteString("</xs:restriction></xs:simpleType></xs:schema>")
	r.Nontrivial(len(bad) > 0)
	r.LabelIf(len(bad) > 0 && len(bad) < len(c.Patterns), "supported and unsupported alternatives")
	got, err := xsd.Parse([]byte(b.String()))
	if err != nil {
		return fmt.Errorf("Parse: %v\n%s", err, b.String())
	}
	t, ok := got[0].Types[xml.Name{Space: "urn:a", Local: "a"}].(*xsd.SimpleType)
	if !ok {
		return fmt.Errorf("no type\n%s", b.String())
	}
	re := t.Restriction.Pattern
	if len(bad) == 0 {
		if re == nil || re.String() != strings.Join(c.Patterns, "|") {
			return fmt.Errorf("pattern %v, want %q\n%s", re, strings.Join(c.Patterns, "|"), b.String())
		}
		if t.Restriction.Doc != c.Doc {
			return fmt.Errorf("documentation %q, want %q\n%s", t.Restriction.Doc, c.Doc, b.String())
		}
		return nil
	}
	// A pattern that leaves out an alternative would refuse what conforms.
	if re != nil {
		return fmt.Errorf("recorded pattern %q without the alternatives %q\n%s", re, bad, b.String())
	}
	doc := t.Restriction.Doc
	if !strings.HasPrefix(doc, c.Doc) {
		return fmt.Errorf("documentation %q does not begin with %q\n%s", doc, c.Doc, b.String())
	}
	for _, p := range bad {
		q := strconv.Quote(p)
		if !strings.Contains(doc, p) && !strings.Contains(doc, q[1:len(q)-1]) {
			return fmt.Errorf("documentation %q does not mention the unsupported pattern %q\n%s", doc, p, b.String())
		}
	}
	return nil
}

// Documentation at the top level of schemas.
type schemaDocs struct {
	Schemas [][][]string // annotations with documentation blocks, per schema
	Before  []int        // where annotations stand among the declarations
	Wrap    bool
}

func genSchemaDocs(t *rapid.T) schemaDocs {
	var c schemaDocs
	for k := prop.Range(t, 1, 3); k > 0; k-- {
		var s [][]string
		for n := prop.Int(t, 4); n > 0; n-- {
			var a []string
			for m := prop.Int(t, 3); m > 0; m-- {
				a = append(a, prop.Pick(t, "One.", "Two & more", "a\n b", " padded ", "", "x <y>"))
			}
			s = append(s, a)
		}
		c.Schemas = append(c.Schemas, s)
		c.Before = append(c.Before, prop.Int(t, 3))
	}
	c.Wrap = prop.Chance(t, 3)
	return c
}

func lines(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "|")
}

func checkSchemaDocs(c schemaDocs, r *prop.Rec) error {
	var docs [][]byte
	var want []string
	n := 0
	var all strings.Builder
	for i, s := range c.Schemas {
		var b strings.Builder
		var text []string
		fmt.Fprintf(&b, "<xs:schema xmlns:xs='%s' targetNamespace='urn:%d'>", smodel.XSD, i)
		if c.Before[i] > 0 {
			b.WriteString("<xs:element name='e' type='xs:string'><xs:annotation><xs:documentation>no</xs:documentation></xs:annotation></xs:element>")
		}
		for _, a := range s {
			b.WriteString("<xs:annotation>")
			for _, d := range a {
				fmt.Fprintf(&b, "<xs:appinfo>no</xs:appinfo><xs:documentation>%s</xs:documentation>", esc(d))
				text = append(text, d)
				n++
			}
			b.WriteString("</xs:annotation>")
			if c.Before[i] > 1 {
				b.WriteString("<!-- no -->")
			}
		}
		b.WriteString("<xs:simpleType name='t'><xs:annotation><xs:documentation>no</xs:documentation></xs:annotation><xs:restriction base='xs:int'/></xs:simpleType></xs:schema>")
		want = append(want, lines(strings.Join(text, "\n")))
		docs = append(docs, []byte(b.String()))
		all.WriteString(b.String())
	}
	if c.Wrap {
		docs = [][]byte{[]byte("<w>" + all.String() + "</w>")}
	}
	r.Nontrivial(n > 0)
	got, err := xsd.Parse(docs...)
	if err != nil {
		return fmt.Errorf("Parse: %v\n%s", err, all.String())
	}
	for i, w := range want {
		if g := lines(got[i].Doc); g != w {
			return fmt.Errorf("schema %d: documentation %q, want %q\n%s", i, g, w, all.String())
		}
	}
	return nil
}

func init() {
	prop.Register("C15", "declared types", "a declared simple type has facets", genFacets, checkFacets, prop.Counts(8000, 250000))
	prop.Register("C15", "unsupported patterns", "a pattern is not supported by package regexp", genPatterns, checkPatterns, prop.Counts(8000, 200000))
	prop.Register("C15", "schema documentation", "there is documentation at the top of a schema", genSchemaDocs, checkSchemaDocs, prop.Counts(3000, 60000))
}
