package smodel

import (
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/verif/prop"
	"pgregory.net/rapid"
)

// The schemas that come with the package may be referred to without being
// passed to Parse. What they declare is written down here from the standards.
const (
	NSXML   = "http://www.w3.org/XML/1998/namespace"
	NSXLink = "http://www.w3.org/1999/xlink"
	NSEnc   = "http://schemas.xmlsoap.org/soap/encoding/"
)

type StdAttr struct {
	Name     string
	Type     string // local name of the type in the namespace of the attribute, or xs: and a built-in
	Root     string // the built-in that is restricted
	Enum     string
	Required bool
}

var StdAttrs = map[string][]StdAttr{
	NSXML: {{Name: "lang", Root: "union"}, {Name: "space", Root: "NCName", Enum: "default preserve"}, {Name: "base", Type: "xs:anyURI", Root: "anyURI"}, {Name: "id", Type: "xs:ID", Root: "ID"}},
	NSXLink: {
		{Name: "type", Type: "typeType", Root: "token", Enum: "simple extended title resource locator arc"},
		{Name: "href", Type: "hrefType", Root: "anyURI"}, {Name: "role", Type: "roleType", Root: "anyURI"},
		{Name: "arcrole", Type: "arcroleType", Root: "anyURI"}, {Name: "title", Type: "titleAttrType", Root: "string"},
		{Name: "show", Type: "showType", Root: "token", Enum: "new replace embed other none"},
		{Name: "actuate", Type: "actuateType", Root: "token", Enum: "onLoad onRequest other none"},
		{Name: "label", Type: "labelType", Root: "NCName"}, {Name: "from", Type: "fromType", Root: "NCName"}, {Name: "to", Type: "toType", Root: "NCName"},
	},
	NSEnc: {
		{Name: "arrayType", Type: "xs:string", Root: "string"}, {Name: "offset", Type: "arrayCoordinate", Root: "string"},
		{Name: "position", Type: "arrayCoordinate", Root: "string"},
	},
}

// attributes of groups; "!" marks the required ones.
var StdGroups = map[string]map[string]string{
	NSXML: {"specialAttrs": "base lang space id"},
	NSXLink: {
		"simpleAttrs": "type href role arcrole title show actuate", "extendedAttrs": "type! role title",
		"resourceAttrs": "type! role title label", "locatorAttrs": "type! href! role title label",
		"arcAttrs": "type! arcrole title show actuate from to",
	},
	NSEnc: {"arrayAttributes": "arrayType offset", "arrayMemberAttributes": "position"},
}

type StdCase struct {
	Uses   []StdUse
	Elems  []string // elements of types soapenc:NAME
	Where  string   // type, group, extension, element
	Import bool
	Prefix int
	Order  bool // elements by reference
}

type StdUse struct {
	NS, Name string
	Group    bool
	Required bool
}

func GenStd(t *rapid.T) StdCase {
	c := StdCase{Where: prop.Pick(t, "type", "group", "extension", "element"), Import: prop.Chance(t, 8), Prefix: prop.Int(t, 3), Order: prop.Chance(t, 8)}
	taken := map[string]bool{}
	for k := prop.Range(t, 1, 4); k > 0; k-- {
		ns := prop.Pick(t, NSXML, NSXLink, NSEnc)
		if prop.Chance(t, 5) {
			var names []string
			for n := range StdGroups[ns] {
				names = append(names, n)
			}
			sort.Strings(names)
			n := names[prop.Int(t, len(names))]
			fs := strings.Fields(StdGroups[ns][n])
			ok := true
			for _, f := range fs {
				ok = ok && !taken[ns+" "+strings.TrimSuffix(f, "!")]
			}
			if !ok {
				continue
			}
			for _, f := range fs {
				taken[ns+" "+strings.TrimSuffix(f, "!")] = true
			}
			c.Uses = append(c.Uses, StdUse{NS: ns, Name: n, Group: true})
			continue
		}
		l := StdAttrs[ns]
		a := l[prop.Int(t, len(l))]
		if taken[ns+" "+a.Name] {
			continue
		}
		taken[ns+" "+a.Name] = true
		c.Uses = append(c.Uses, StdUse{NS: ns, Name: a.Name, Required: prop.Chance(t, 5)})
	}
	// Every built-in has a type of its name in the SOAP encoding schema.
	for k := prop.Int(t, 4); k > 0; k-- {
		b := Builtins[prop.Int(t, len(Builtins))]
		if !strings.HasPrefix(b, "any") && !taken["e "+b] {
			taken["e "+b] = true
			c.Elems = append(c.Elems, b)
		}
	}
	return c
}

func (c StdCase) Doc() []byte {
	var b strings.Builder
	p := [][]string{{"xs", "t", "xlink", "enc"}, {"a", "b", "xs", "c"}, {"xsd", "n1", "n2", "n3"}}[c.Prefix%3]
	xs, tns := p[0], p[1]
	prefix := map[string]string{NSXML: "xml", NSXLink: p[2], NSEnc: p[3]}
	fmt.Fprintf(&b, `<%s:schema xmlns:%s="%s" xmlns:%s="urn:a" xmlns:%s="%s" xmlns:%s="%s" targetNamespace="urn:a" elementFormDefault="qualified">`,
		xs, xs, XSD, tns, p[2], NSXLink, p[3], NSEnc)
	if c.Import {
		for _, ns := range []string{NSXML, NSXLink, NSEnc} {
			fmt.Fprintf(&b, `<%s:import namespace="%s" schemaLocation="http://example.com/x.xsd"/>`, xs, ns)
		}
	}
	var uses, content strings.Builder
	for _, u := range c.Uses {
		kind, more := "attribute", ""
		if u.Group {
			kind = "attributeGroup"
		}
		if u.Required {
			more = ` use="required"`
		}
		fmt.Fprintf(&uses, `<%s:%s ref="%s:%s"%s/>`, xs, kind, prefix[u.NS], u.Name, more)
	}
	if len(c.Elems) > 0 {
		fmt.Fprintf(&content, "<%s:sequence>", xs)
		for _, e := range c.Elems {
			if c.Order {
				fmt.Fprintf(&content, `<%s:element ref="%s:%s"/>`, xs, p[3], e)
			} else {
				fmt.Fprintf(&content, `<%s:element name="%s" type="%s:%s" maxOccurs="2"/>`, xs, e, p[3], e)
			}
		}
		fmt.Fprintf(&content, "</%s:sequence>", xs)
	}
	body := content.String() + uses.String()
	switch c.Where {
	case "type":
		fmt.Fprintf(&b, `<%s:complexType name="T">%s</%s:complexType>`, xs, body, xs)
	case "group":
		fmt.Fprintf(&b, `<%s:attributeGroup name="G">%s</%s:attributeGroup><%s:complexType name="T">%s<%s:attributeGroup ref="%s:G"/></%s:complexType>`,
			xs, uses.String(), xs, xs, content.String(), xs, tns, xs)
	case "extension":
		fmt.Fprintf(&b, `<%s:complexType name="B"/><%s:complexType name="T"><%s:complexContent><%s:extension base="%s:B">%s</%s:extension></%s:complexContent></%s:complexType>`,
			xs, xs, xs, xs, tns, body, xs, xs, xs)
	case "element":
		fmt.Fprintf(&b, `<%s:element name="T"><%s:complexType>%s</%s:complexType></%s:element>`, xs, xs, body, xs, xs)
	}
	fmt.Fprintf(&b, "</%s:schema>", xs)
	return []byte(b.String())
}

// StdWant is an attribute that the type must have.
type StdWant struct {
	StdAttr
	NS string
}

// Wants lists the attributes of the type T that the document declares.
func (c StdCase) Wants() []StdWant {
	var wants []StdWant
	find := func(ns, name string) StdAttr {
		for _, a := range StdAttrs[ns] {
			if a.Name == name {
				return a
			}
		}
		panic(name)
	}
	for _, u := range c.Uses {
		if !u.Group {
			a := find(u.NS, u.Name)
			a.Required = u.Required
			wants = append(wants, StdWant{a, u.NS})
			continue
		}
		for _, f := range strings.Fields(StdGroups[u.NS][u.Name]) {
			a := find(u.NS, strings.TrimSuffix(f, "!"))
			a.Required = strings.HasSuffix(f, "!")
			wants = append(wants, StdWant{a, u.NS})
		}
	}
	return wants
}
