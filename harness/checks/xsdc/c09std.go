package xsdc

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
)

func checkStd(c smodel.StdCase, r *prop.Rec) error {
	doc := c.Doc()
	got, err := xsd.Parse(doc)
	if err != nil {
		return fmt.Errorf("%v\n%s", err, doc)
	}
	if err := checkStdType(c, got); err != nil {
		return fmt.Errorf("%v\n%s", err, doc)
	}
	r.Nontrivial(len(c.Uses)+len(c.Elems) > 1)
	for _, u := range c.Uses {
		r.LabelIf(u.Group, "attribute group of a bundled schema")
	}
	r.Label("in a " + c.Where)
	return nil
}

func checkStdType(c smodel.StdCase, got []xsd.Schema) error {
	var t *xsd.ComplexType
	for _, s := range got {
		if s.TargetNS == "urn:a" {
			t, _ = s.Types[xml.Name{Space: "urn:a", Local: "T"}].(*xsd.ComplexType)
		}
	}
	if t == nil {
		return fmt.Errorf("no complex type T")
	}
	wants := c.Wants()
	have := map[xml.Name]xsd.Attribute{}
	for _, a := range t.Attributes {
		if _, ok := have[a.Name]; ok {
			return fmt.Errorf("two attributes %v", a.Name)
		}
		have[a.Name] = a
	}
	if len(have) != len(wants) {
		return fmt.Errorf("%d attributes, want %d: %v", len(have), len(wants), have)
	}
	for _, w := range wants {
		a, ok := have[xml.Name{Space: w.NS, Local: w.Name}]
		if !ok {
			return fmt.Errorf("no attribute {%s}%s", w.NS, w.Name)
		}
		if a.Optional == w.Required {
			return fmt.Errorf("attribute {%s}%s: optional is %v", w.NS, w.Name, a.Optional)
		}
		if a.Plural || a.Default != "" {
			return fmt.Errorf("attribute {%s}%s: plural %v, default %q", w.NS, w.Name, a.Plural, a.Default)
		}
		if strings.HasPrefix(w.Type, "xs:") {
			if n := xsd.XMLName(a.Type); n != (xml.Name{Space: smodel.XSD, Local: w.Type[3:]}) {
				return fmt.Errorf("attribute {%s}%s has type %v, want %s", w.NS, w.Name, n, w.Type)
			}
			continue
		}
		s, ok := a.Type.(*xsd.SimpleType)
		if !ok {
			return fmt.Errorf("attribute {%s}%s has type %T", w.NS, w.Name, a.Type)
		}
		if s.Name.Space != w.NS || w.Type != "" && s.Name.Local != w.Type {
			return fmt.Errorf("attribute {%s}%s has type %v, want %s", w.NS, w.Name, s.Name, w.Type)
		}
		if w.Root == "union" {
			if len(s.Union) != 2 {
				return fmt.Errorf("attribute {%s}%s: union of %v", w.NS, w.Name, s.Union)
			}
			continue
		}
		var enum []string
		var root xsd.Type = s
		for {
			d, ok := root.(*xsd.SimpleType)
			if !ok {
				break
			}
			if enum == nil {
				enum = d.Restriction.Enum
			}
			root = d.Base
		}
		if n := xsd.XMLName(root); n != (xml.Name{Space: smodel.XSD, Local: w.Root}) {
			return fmt.Errorf("attribute {%s}%s derives from %v, want %s", w.NS, w.Name, n, w.Root)
		}
		if strings.Join(enum, " ") != w.Enum {
			return fmt.Errorf("attribute {%s}%s: values %q, want %q", w.NS, w.Name, enum, w.Enum)
		}
	}
	if len(t.Elements) != len(c.Elems) {
		return fmt.Errorf("%d elements, want %d", len(t.Elements), len(c.Elems))
	}
	for i, e := range t.Elements {
		if e.Name != (xml.Name{Space: smodel.NSEnc, Local: c.Elems[i]}) && (c.Order || e.Name != xml.Name{Space: "urn:a", Local: c.Elems[i]}) { // K01
			return fmt.Errorf("element %d is %v, want %s", i, e.Name, c.Elems[i])
		}
		ct, ok := e.Type.(*xsd.ComplexType)
		if !ok || ct.Name != (xml.Name{Space: smodel.NSEnc, Local: c.Elems[i]}) {
			return fmt.Errorf("element %v has type %v", e.Name, xsd.XMLName(e.Type))
		}
		if e.Plural == c.Order {
			return fmt.Errorf("element %v: plural is %v", e.Name, e.Plural)
		}
		base := c.Elems[i]
		if base == "NOTATION" {
			base = "QName" // says the SOAP encoding schema
		}
		if n := xsd.XMLName(ct.Base); n != (xml.Name{Space: smodel.XSD, Local: base}) || !ct.Extends || !ct.Mixed {
			return fmt.Errorf("type %v: base %v, extends %v, mixed %v", ct.Name, n, ct.Extends, ct.Mixed)
		}
		names := map[string]bool{}
		for _, a := range ct.Attributes {
			names[a.Name.Space+" "+a.Name.Local] = true
		}
		if len(ct.Attributes) != 2 || !names[" id"] || !names[" href"] {
			return fmt.Errorf("type %v: attributes %v", ct.Name, names)
		}
	}
	return nil
}

func init() {
	prop.Register("C09", "bundled schemas", "more than one reference to a bundled schema", smodel.GenStd, checkStd, prop.Counts(1500, 30000))
}
