package xsdc

import (
	"encoding/xml"
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
)

// inSchema visits the elements of a schema tree outside of annotations.
func inSchema(el *xmltree.Element, depth int, f func(el *xmltree.Element, depth int) error) error {
	if el.Name == smodel.X("annotation") {
		return nil
	}
	if err := f(el, depth); err != nil {
		return err
	}
	for i := range el.Children {
		if err := inSchema(&el.Children[i], depth+1, f); err != nil {
			return err
		}
	}
	return nil
}

var qnameAttrs = map[string]bool{"type": true, "base": true, "itemType": true, "memberTypes": true}

// canon is a form of a normalised tree that does not depend on prefixes, nor
// on minOccurs below a choice, where everything is optional.
func canon(b *strings.Builder, el *xmltree.Element, depth int, choice bool) {
	var attrs []string
	for _, a := range el.StartElement.Attr {
		if choice && a.Name.Local == "minOccurs" {
			continue
		}
		v := a.Value
		if a.Name.Space == "" && qnameAttrs[a.Name.Local] {
			v = ""
			for _, s := range strings.Fields(a.Value) {
				v += fmt.Sprint(el.Resolve(s)) + " "
			}
		}
		attrs = append(attrs, fmt.Sprintf("{%s}%s=%q", a.Name.Space, a.Name.Local, v))
	}
	sort.Strings(attrs)
	fmt.Fprintf(b, "%*s{%s}%s %s", depth, "", el.Name.Space, el.Name.Local, strings.Join(attrs, " "))
	// What is in the documentation and appinfo of an annotation is opaque.
	leaf := len(el.Children) == 0 || el.Name == smodel.X("appinfo") || el.Name == smodel.X("documentation")
	if leaf {
		if s := strings.TrimSpace(string(el.Content)); s != "" && !strings.HasPrefix(s, "<!--") {
			fmt.Fprintf(b, " %q", s)
		}
	}
	b.WriteString("\n")
	for i := range el.Children {
		if leaf {
			break
		}
		canon(b, &el.Children[i], depth+1, choice || el.Name == smodel.X("choice"))
	}
}

func canonAll(trees []*xmltree.Element) string {
	var b strings.Builder
	for _, t := range trees {
		canon(&b, t, 0, false)
	}
	return b.String()
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return fmt.Sprintf("line %d\n  %s\n  %s", i+1, x[i], y[i])
		}
	}
	return fmt.Sprintf("%d and %d lines", len(x), len(y))
}

func checkNormal(c schemaCase, r *prop.Rec) error {
	x := smodel.Render(c.Set, c.Style)
	// The documents are the first ones of a longer list.
	n := len(x.Docs)
	list := clone(x.Docs)
	for i := 0; i < 2*len(xsd.StandardSchema); i++ {
		list = append(list, []byte(fmt.Sprintf("document %d of the caller", i)))
	}
	all := clone(list)
	docs := list[:n]
	std := clone(xsd.StandardSchema)
	trees, err := xsd.Normalize(docs...)
	if err != nil {
		return fmt.Errorf("Normalize: %v\n%s", err, show(x.Docs))
	}
	fail := func(format string, a ...interface{}) error {
		var out string
		for i := 0; i < len(trees) && i < len(x.Parts); i++ {
			out += string(xmltree.MarshalIndent(trees[i], "", " ")) + "\n"
		}
		return fmt.Errorf("%s\n%s=== normalised\n%s", fmt.Sprintf(format, a...), show(x.Docs), out)
	}
	if err := unchanged(list, all); err != nil {
		return fail("%v", err)
	}
	if _, err := xsd.Parse(docs...); err != nil {
		return fail("Parse: %v", err)
	}
	if err := unchanged(list, all); err != nil {
		return fail("after Parse: %v", err)
	}
	if err := unchanged(xsd.StandardSchema, std); err != nil {
		return fail("standard schema: %v", err)
	}
	if len(trees) != len(x.Parts)+len(xsd.StandardSchema) {
		return fail("%d trees for %d schema elements and %d standard schemas", len(trees), len(x.Parts), len(xsd.StandardSchema))
	}
	for i, data := range xsd.StandardSchema {
		want, err := xmltree.Parse(data)
		if err != nil {
			return prop.Infra("%v", err)
		}
		if got := trees[len(x.Parts)+i].Attr("", "targetNamespace"); got != want.Attr("", "targetNamespace") {
			return fail("tree %d is for %q, want the standard schema for %q", len(x.Parts)+i, got, want.Attr("", "targetNamespace"))
		}
	}
	taken := map[xml.Name]bool{} // all type names in the trees
	kinds := map[string]int{}
	for i, p := range x.Parts {
		root := trees[i]
		if root.Name != smodel.X("schema") || root.Attr("", "targetNamespace") != p.NS {
			return fail("tree %d is a %v for %q, want a schema for %q", i, root.Name, root.Attr("", "targetNamespace"), p.NS)
		}
		sc := c.Set.Schema(p.NS)
		owners := map[string]bool{}
		for _, a := range sc.Anons() {
			owners[a.Owner] = true
		}
		declared := map[string]bool{}
		for _, t := range p.Types {
			declared[t] = true
		}
		err := inSchema(root, 0, func(el *xmltree.Element, depth int) error {
			if el.Name.Space != smodel.XSD {
				return nil
			}
			if ref := el.Attr("", "ref"); ref != "" {
				return fail("tree %d: a reference to %s %s is left", i, el.Name.Local, ref)
			}
			switch el.Name.Local {
			case "group", "attributeGroup":
				if depth != 1 {
					return fail("tree %d: a group is left at depth %d", i, depth)
				}
			case "complexType", "simpleType":
				name := el.Attr("", "name")
				if name == "" {
					return fail("tree %d: a type has no name", i)
				}
				if depth != 1 {
					return fail("tree %d: type %s is at depth %d", i, name, depth)
				}
				key := xml.Name{Space: p.NS, Local: name}
				if taken[key] {
					return fail("two types are named %v", key)
				}
				taken[key] = true
				marked := el.Attr("", "_isAnonymous") == "true"
				switch {
				case declared[name]:
					if marked {
						return fail("type %v is marked anonymous", key)
					}
					kinds["declared"]++
				case marked:
					if c.Set.Type(key) != nil || c.Set.Elem(key) != nil {
						return fail("the generated name %v is that of a declaration", key)
					}
					kinds["generated"]++
				default:
					if !owners[name] {
						return fail("type %v is not declared, nor marked anonymous", key)
					}
					kinds["named after its owner"]++
				}
				if el.Name.Local == "complexType" {
					n, other := 0, ""
					for _, k := range el.Children {
						switch {
						case k.Name == smodel.X("simpleContent") || k.Name == smodel.X("complexContent"):
							n++
						case k.Name == smodel.X("annotation") || k.Name.Space != smodel.XSD:
						default:
							other = k.Name.Local
						}
					}
					if n != 1 || other != "" {
						return fail("complex type %v has %d content elements and %q", key, n, other)
					}
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
		for _, n := range p.Types {
			if !taken[xml.Name{Space: p.NS, Local: n}] {
				return fail("tree %d: type %s is gone", i, n)
			}
		}
	}
	for i := range x.Parts {
		err := inSchema(trees[i], 0, func(el *xmltree.Element, depth int) error {
			for _, a := range el.StartElement.Attr {
				if el.Name.Space != smodel.XSD || a.Name.Space != "" || !qnameAttrs[a.Name.Local] {
					continue
				}
				for _, s := range strings.Fields(a.Value) {
					n := el.Resolve(s)
					if n.Space != smodel.XSD && !taken[n] && n.Space != "http://www.w3.org/XML/1998/namespace" {
						return fail("tree %d: %s=%q names no type (%v)", i, a.Name.Local, s, n)
					}
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	// The same again, from what was written.
	first := canonAll(trees[:len(x.Parts)])
	var out [][]byte
	for i := range x.Parts {
		out = append(out, xmltree.Marshal(trees[i]))
	}
	for i, data := range clone(out) {
		root, err := xmltree.Parse(data)
		if err != nil {
			return fail("tree %d does not marshal to XML: %v", i, err)
		}
		var a, b strings.Builder
		canon(&a, trees[i], 0, false)
		canon(&b, root, 0, false)
		if a.String() != b.String() {
			return fail("tree %d marshals to something else: %s\n%s", i, firstDiff(a.String(), b.String()), out[i])
		}
	}
	again, err := xsd.Normalize(clone(out)...)
	if err != nil {
		return fail("normalising the result: %v", err)
	}
	if second := canonAll(again[:len(x.Parts)]); second != first {
		return fail("normalising the result changes it: %s", firstDiff(first, second))
	}
	parsed, err := xsd.Parse(clone(out)...)
	if err != nil {
		return fail("parsing the result: %v", err)
	}
	if err := checkParsed(c.Set, x, parsed, nil); err != nil {
		return fail("the result parses to something else: %v", err)
	}
	repeat, err := xsd.Normalize(clone(x.Docs)...)
	if err != nil {
		return fail("Normalize the second time: %v", err)
	}
	if second, first := canonAll(repeat), canonAll(trees); second != first {
		return fail("the second result differs: %s", firstDiff(first, second))
	}
	for k, n := range kinds {
		r.LabelIf(n > 0, "types "+k)
	}
	classify(c.Set, r)
	r.Nontrivial(len(taken) > 0 && kinds["generated"]+kinds["named after its owner"] > 0)
	return nil
}

func init() {
	prop.Register("C12", "normal form", "at least one anonymous type was given a name", genSchema, checkNormal, prop.Counts(2500, 80000))
}
