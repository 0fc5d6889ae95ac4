package smodel

import (
	"fmt"

	"aqwari.net/xml/verif/prop"
	"pgregory.net/rapid"
)

// ImportDoc is a document with schema elements that import and include others.
type ImportDoc struct {
	Wrapped bool // schemas are inside another document
	Schemas []ImportSchema
	Style   Style
}

type ImportSchema struct {
	NS    string
	Depth int // of the elements around it, when wrapped
	Items []ImportItem
}

// ImportItem is a child of a schema element. Kind is import, include, foreign
// (an element of another namespace with such a name), annotation (an import
// inside an annotation) or other (a declaration).
type ImportItem struct {
	Kind, NS, Loc string
	NoLoc         bool
}

// ImportRef is what Imports must report.
type ImportRef struct{ NS, Loc string }

func GenImports(t *rapid.T) ImportDoc {
	d := ImportDoc{Wrapped: prop.Chance(t, 8), Style: GenStyle(t)}
	n := 1
	if d.Wrapped {
		n = prop.Int(t, 4)
	}
	nss := []string{"urn:a", "", "http://example.com/b?x=1&y=2", "urn:c", XSD, "http://schemas.xmlsoap.org/wsdl/"}
	locs := []string{"a.xsd", "", "../b/c.xsd?q=1&r=2", "http://example.com/d.xsd", "ö b.xsd", "a.xsd", "<>\"'"}
	for i := 0; i < n; i++ {
		s := ImportSchema{NS: nss[prop.Int(t, 4)], Depth: prop.Int(t, 3)}
		for k := prop.Int(t, 6); k > 0; k-- {
			s.Items = append(s.Items, ImportItem{
				Kind:  prop.Pick(t, "import", "include", "import", "include", "foreign", "annotation", "other"),
				NS:    nss[prop.Int(t, len(nss))],
				Loc:   locs[prop.Int(t, len(locs))],
				NoLoc: prop.Chance(t, 3),
			})
		}
		d.Schemas = append(d.Schemas, s)
	}
	return d
}

// Want lists the references of the document.
func (d ImportDoc) Want() (imports, includes []ImportRef) {
	for _, s := range d.Schemas {
		for _, it := range s.Items {
			loc := it.Loc
			if it.NoLoc {
				loc = ""
			}
			switch it.Kind {
			case "import":
				imports = append(imports, ImportRef{it.NS, loc})
			case "include":
				includes = append(includes, ImportRef{s.NS, loc})
			}
		}
	}
	return imports, includes
}

// Render writes the document.
func (d ImportDoc) Render() []byte {
	const wsdl = "http://schemas.xmlsoap.org/wsdl/"
	set := &Set{}
	for _, s := range d.Schemas {
		if set.Schema(s.NS) == nil {
			set.Schemas = append(set.Schemas, Schema{NS: s.NS})
		}
	}
	x := newRenderer(set, d.Style)
	item := func(it ImportItem) *node {
		ref := func(n *node) *node {
			if it.NS != "" || x.r.Intn(2) == 0 {
				n.set("namespace", it.NS)
			}
			if !it.NoLoc {
				n.set("schemaLocation", it.Loc)
			}
			return n
		}
		switch it.Kind {
		case "import", "include":
			n := xs(it.Kind)
			if it.Kind == "import" {
				ref(n)
			} else if !it.NoLoc {
				n.set("schemaLocation", it.Loc)
			}
			if x.r.Intn(4) == 0 {
				n.add(x.docs([]string{"why"}))
			}
			return n
		case "foreign":
			return ref(&node{name: q([]string{wsdl, Ext, "http://www.w3.org/2001/XMLSchema-instance"}[x.r.Intn(3)], []string{"import", "include", "schema"}[x.r.Intn(3)])})
		case "annotation":
			a := xs([]string{"appinfo", "documentation"}[x.r.Intn(2)])
			if x.r.Intn(2) == 0 {
				a.add(ref(xs([]string{"import", "include"}[x.r.Intn(2)])))
			} else {
				a.add(xs("schema").set("targetNamespace", "urn:nothing").add(ref(xs([]string{"import", "include"}[x.r.Intn(2)]))))
			}
			return xs("annotation").add(a)
		}
		return xs([]string{"element", "complexType", "attributeGroup"}[x.r.Intn(3)]).set("name", []string{"import", "include", "schema"}[x.r.Intn(3)])
	}
	var roots []*node
	for _, s := range d.Schemas {
		n := xs("schema")
		if s.NS != "" {
			n.set("targetNamespace", s.NS)
		}
		for _, it := range s.Items {
			n.add(item(it))
		}
		if d.Wrapped {
			for i := 0; i < s.Depth; i++ {
				w := &node{name: q([]string{wsdl, Ext, ""}[x.r.Intn(3)], []string{"types", "schema", "w"}[x.r.Intn(3)])}
				w.set("targetNamespace", fmt.Sprintf("urn:w%d", i))
				if x.r.Intn(3) == 0 {
					w.add(item(ImportItem{Kind: "foreign", NS: "urn:w", Loc: "w.wsdl"}))
				}
				w.add(n)
				n = w
			}
		}
		roots = append(roots, n)
	}
	root := &node{name: q(wsdl, "definitions")}
	tns := ""
	if d.Wrapped {
		root.set("targetNamespace", "urn:wsdl")
		if x.r.Intn(2) == 0 {
			root.add((&node{name: q(wsdl, "import")}).set("namespace", "urn:other").set("location", "other.wsdl"))
		}
		root.add(roots...)
	} else {
		root = roots[0]
		tns = d.Schemas[0].NS
	}
	return x.document(root, tns)
}
