package xsdc

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
	"pgregory.net/rapid"
)

// byConst says which constant of the package stands for which type of the
// standard.
var byConst = map[xsd.Builtin]string{
	xsd.AnyType: "anyType", xsd.AnySimpleType: "anySimpleType", xsd.ENTITIES: "ENTITIES", xsd.ENTITY: "ENTITY", xsd.ID: "ID",
	xsd.IDREF: "IDREF", xsd.IDREFS: "IDREFS", xsd.NCName: "NCName", xsd.NMTOKEN: "NMTOKEN", xsd.NMTOKENS: "NMTOKENS",
	xsd.NOTATION: "NOTATION", xsd.Name: "Name", xsd.QName: "QName", xsd.AnyURI: "anyURI", xsd.Base64Binary: "base64Binary",
	xsd.Boolean: "boolean", xsd.Byte: "byte", xsd.Date: "date", xsd.DateTime: "dateTime", xsd.Decimal: "decimal", xsd.Double: "double",
	xsd.Duration: "duration", xsd.Float: "float", xsd.GDay: "gDay", xsd.GMonth: "gMonth", xsd.GMonthDay: "gMonthDay", xsd.GYear: "gYear",
	xsd.GYearMonth: "gYearMonth", xsd.HexBinary: "hexBinary", xsd.Int: "int", xsd.Integer: "integer", xsd.Language: "language",
	xsd.Long: "long", xsd.NegativeInteger: "negativeInteger", xsd.NonNegativeInteger: "nonNegativeInteger",
	xsd.NonPositiveInteger: "nonPositiveInteger", xsd.NormalizedString: "normalizedString", xsd.PositiveInteger: "positiveInteger",
	xsd.Short: "short", xsd.String: "string", xsd.Time: "time", xsd.Token: "token", xsd.UnsignedByte: "unsignedByte",
	xsd.UnsignedInt: "unsignedInt", xsd.UnsignedLong: "unsignedLong", xsd.UnsignedShort: "unsignedShort",
}

var byName = func() map[string]xsd.Builtin {
	m := map[string]xsd.Builtin{}
	for b, n := range byConst {
		m[n] = b
	}
	if len(m) != len(smodel.Builtins) {
		panic("c16: tables differ")
	}
	return m
}()

const allBuiltins = int(xsd.AnySimpleType) + 1

type builtinCase struct{ I int }

func checkBuiltinName(c builtinCase, r *prop.Rec) error {
	b := xsd.Builtin(c.I)
	r.Nontrivial(true)
	n := b.Name()
	r.Label("{" + n.Space + "}" + n.Local)
	got, err := xsd.ParseBuiltin(n)
	if err != nil || got != b {
		return fmt.Errorf("built-in %d is named %v, which is parsed to %d, %v", b, n, got, err)
	}
	for o := xsd.AnyType; int(o) < allBuiltins; o++ {
		if o != b && o.Name() == n {
			return fmt.Errorf("built-ins %d and %d are both named %v", b, o, n)
		}
	}
	std, ok := byConst[b]
	if ok != (n.Space == smodel.XSD) || ok && n.Local != std {
		return fmt.Errorf("built-in %d is named %v, want %q", b, n, std)
	}
	if xsd.XMLName(b) != n || xsd.Base(b) != nil {
		return fmt.Errorf("built-in %v: name %v, base %v", n, xsd.XMLName(b), xsd.Base(b))
	}
	return nil
}

// Ways of bringing a type into a schema. %s is the type.
var positions = []struct {
	name, text string
	find       func(*xsd.Schema) xsd.Type
}{
	{"element", `<P:complexType name="t"><P:sequence><P:element name="e" D/></P:sequence></P:complexType>`, func(s *xsd.Schema) xsd.Type { return s.Types[tn].(*xsd.ComplexType).Elements[0].Type }},
	{"element in an all group", `<P:group name="g"><P:all><P:element name="e" D/></P:all></P:group><P:complexType name="t"><P:group ref="t:g"/></P:complexType>`, func(s *xsd.Schema) xsd.Type { return s.Types[tn].(*xsd.ComplexType).Elements[0].Type }},
	{"element reference", `<P:element name="e" D/><P:complexType name="t"><P:choice><P:element ref="t:e"/></P:choice></P:complexType>`, func(s *xsd.Schema) xsd.Type { return s.Types[tn].(*xsd.ComplexType).Elements[0].Type }},
	{"global element", `<P:element name="t" D/>`, func(s *xsd.Schema) xsd.Type { return s.Types[tn] }},
	{"document type", `<P:element name="t" D/>`, func(s *xsd.Schema) xsd.Type {
		return s.Types[xml.Name{Space: "urn:t", Local: "_self"}].(*xsd.ComplexType).Elements[0].Type
	}},
	{"attribute", `<P:complexType name="t"><P:attribute name="e" D/></P:complexType>`, func(s *xsd.Schema) xsd.Type { return s.Types[tn].(*xsd.ComplexType).Attributes[0].Type }},
	{"attribute reference", `<P:complexType name="t"><P:attribute ref="t:e"/></P:complexType><P:attribute name="e" D/>`, func(s *xsd.Schema) xsd.Type { return s.Types[tn].(*xsd.ComplexType).Attributes[0].Type }},
	{"attribute in a group", `<P:complexType name="t"><P:attributeGroup ref="t:g"/></P:complexType><P:attributeGroup name="g"><P:attribute name="e" D/></P:attributeGroup>`, func(s *xsd.Schema) xsd.Type { return s.Types[tn].(*xsd.ComplexType).Attributes[0].Type }},
	{"extension", `<P:complexType name="t"><P:simpleContent><P:extension B/></P:simpleContent></P:complexType>`, func(s *xsd.Schema) xsd.Type { return xsd.Base(s.Types[tn]) }},
	{"restriction", `<P:simpleType name="t"><P:restriction B/></P:simpleType>`, func(s *xsd.Schema) xsd.Type { return xsd.Base(s.Types[tn]) }},
	{"list", `<P:simpleType name="t"><P:list I/></P:simpleType>`, func(s *xsd.Schema) xsd.Type { return xsd.Base(s.Types[tn]) }},
	{"union", `<P:simpleType name="t"><P:union M/></P:simpleType>`, func(s *xsd.Schema) xsd.Type { return s.Types[tn].(*xsd.SimpleType).Union[0] }},
	{"second member", `<P:simpleType name="t"><P:union M2/></P:simpleType>`, func(s *xsd.Schema) xsd.Type { return s.Types[tn].(*xsd.SimpleType).Union[1] }},
	{"list in an attribute", `<P:complexType name="t"><P:attribute name="e"><P:simpleType><P:list I/></P:simpleType></P:attribute></P:complexType>`, func(s *xsd.Schema) xsd.Type {
		return xsd.Base(s.Types[tn].(*xsd.ComplexType).Attributes[0].Type)
	}},
	{"restriction in a union", `<P:simpleType name="t"><P:union><P:simpleType><P:restriction B/></P:simpleType></P:union></P:simpleType>`, func(s *xsd.Schema) xsd.Type {
		return xsd.Base(s.Types[tn].(*xsd.SimpleType).Union[0])
	}},
}

var tn = xml.Name{Space: "urn:t", Local: "t"}

// How the schema namespace gets its prefix.
var prefixStyles = []string{"xs", "xsd", "s-1", "", "shadowed", "local", "two"}

func schemaWith(pos, style int, local, ns string) []byte {
	p, decl, on := prefixStyles[style], "", ""
	tp := p // prefix of the type name
	switch p {
	case "":
		decl = ` xmlns="` + smodel.XSD + `"`
	case "shadowed": // the prefix means something else further out
		p = "x"
		decl = ` xmlns:x="` + smodel.XSD + `" xmlns:y="urn:other"`
		tp, on = "y", ` xmlns:y="`+smodel.XSD+`"`
	case "local":
		p = "x"
		decl = ` xmlns:x="` + smodel.XSD + `"`
		tp, on = "", ` xmlns="`+smodel.XSD+`"`
	case "two":
		p, tp = "a", "b"
		decl = ` xmlns:a="` + smodel.XSD + `" xmlns:b="` + smodel.XSD + `"`
	default:
		decl = ` xmlns:` + p + `="` + smodel.XSD + `"`
	}
	if ns != smodel.XSD {
		tp, on = "z", ` xmlns:z="`+ns+`"`
	}
	typ := local
	if tp != "" {
		typ = tp + ":" + local
	}
	str := "b2:string"
	s := positions[pos].text
	if p == "" {
		s = strings.ReplaceAll(s, "P:", "")
	} else {
		s = strings.ReplaceAll(s, "P:", p+":")
	}
	s = strings.NewReplacer(" D/", ` type="`+typ+`"`+on+`/`, " D>", ` type="`+typ+`"`+on+`>`, " B/", ` base="`+typ+`"`+on+`/`,
		" I/", ` itemType="`+typ+`"`+on+`/`, " M/", ` memberTypes=" `+typ+` "`+on+`/`, " M2/", ` memberTypes="`+str+" "+typ+`"`+on+`/`).Replace(s)
	el := "schema"
	if p != "" {
		el = p + ":schema"
	}
	return []byte("<" + el + decl + ` xmlns:t="urn:t" xmlns:b2="` + smodel.XSD + `" targetNamespace="urn:t">` + s + "</" + el + ">")
}

type posCase struct{ Name, Pos, Style int }

func posAt(i int) posCase {
	k := len(positions) * len(prefixStyles)
	return posCase{i / k, i / len(prefixStyles) % len(positions), i % len(prefixStyles)}
}

func checkPos(c posCase, r *prop.Rec) error {
	name := smodel.Builtins[c.Name]
	p := positions[c.Pos]
	r.Nontrivial(true)
	r.Label(p.name)
	r.Label("prefix " + prefixStyles[c.Style])
	doc := schemaWith(c.Pos, c.Style, name, smodel.XSD)
	got, err := xsd.Parse(doc)
	if err != nil {
		return fmt.Errorf("Parse: %v\n%s", err, doc)
	}
	if t := p.find(&got[0]); t != xsd.Type(byName[name]) {
		return fmt.Errorf("%s: type is %v, want %v\n%s", p.name, t, byName[name], doc)
	}
	return nil
}

// checkHeld verifies that the last schema of a result, that of the schema
// namespace, holds every built-in type.
func checkHeld(c posCase, r *prop.Rec) error {
	name := smodel.Builtins[c.Name]
	r.Nontrivial(true)
	r.Label(name)
	doc := schemaWith(c.Pos, c.Style, name, smodel.XSD)
	got, err := xsd.Parse(doc)
	if err != nil {
		return fmt.Errorf("Parse: %v\n%s", err, doc)
	}
	held := 0
	for _, s := range got {
		if s.TargetNS != smodel.XSD {
			continue
		}
		held++
		for n, t := range s.Types {
			b, ok := t.(xsd.Builtin)
			if std, is := byName[n.Local]; n.Space == smodel.XSD && (!ok || !is || std != b) {
				return fmt.Errorf("the schema of the standard has %v as %v", n, t)
			}
		}
		for _, local := range smodel.Builtins {
			n := xml.Name{Space: smodel.XSD, Local: local}
			if s.Types[n] != xsd.Type(byName[local]) || s.FindType(n) != xsd.Type(byName[local]) {
				return fmt.Errorf("the schema of the standard has %v as %v, and finds %v", n, s.Types[n], s.FindType(n))
			}
		}
	}
	if held != 1 {
		return fmt.Errorf("%d schemas for the schema namespace", held)
	}
	return nil
}

// Names that are not those of built-in types.
type nearMiss struct {
	Name       string
	NS         string
	Pos, Style int
}

var otherNS = []string{"http://www.w3.org/1999/XMLSchema", "http://www.w3.org/2001/XMLSchema-instance", "http://www.w3.org/2001/XMLSchema/", "http://www.w3.org/2001/xmlschema",
	"http://www.w3.org/2001/XMLSchema-datatypes", "urn:other", "http://www.w3.org/XML/1998/namespace/", "http://www.w3.org/2009/01/xml.xsd"}

func genNearMiss(t *rapid.T) nearMiss {
	c := nearMiss{NS: smodel.XSD, Pos: prop.Int(t, len(positions)), Style: prop.Int(t, len(prefixStyles))}
	n := prop.Pick(t, smodel.Builtins...)
	switch prop.Int(t, 8) {
	case 0, 1: // letter case
		b := []byte(n)
		for k := prop.Range(t, 1, 2); k > 0; k-- {
			i := prop.Int(t, len(b))
			if prop.Chance(t, 8) {
				i = 0
			}
			if b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z' {
				b[i] ^= 0x20
			}
		}
		n = string(b)
	case 2:
		n = prop.Pick(t, strings.ToUpper(n), strings.ToLower(n), n+"s", n[1:], n[:len(n)-1], "_"+n, n+"_", "xs."+n)
	case 3: // XML Schema 1.1, and others
		n = prop.Pick(t, "anyAtomicType", "dayTimeDuration", "yearMonthDuration", "dateTimeStamp", "error", "precisionDecimal", "untyped", "uri", "str", "bool", "number",
			"XMLLang", "xMLLang", "lang", "space", "base", "xmlLang", "Builtin", "element", "_self", "Builtin(0)")
	case 4: // swap letters
		b := []byte(n)
		i := prop.Int(t, len(b)-1)
		b[i], b[i+1] = b[i+1], b[i]
		n = string(b)
	case 5:
		n += prop.Pick(t, smodel.Builtins...)
	default:
		c.NS = prop.Pick(t, otherNS...)
	}
	c.Name = n
	return c
}

func checkNearMiss(c nearMiss, r *prop.Rec) error {
	_, builtin := byName[c.Name]
	builtin = builtin && c.NS == smodel.XSD
	r.Nontrivial(!builtin)
	n := xml.Name{Space: c.NS, Local: c.Name}
	if b, err := xsd.ParseBuiltin(n); (err == nil) != builtin || builtin && b != byName[c.Name] {
		return fmt.Errorf("ParseBuiltin(%v) = %v, %v", n, b, err)
	}
	if !builtin {
		// The same local name with no namespace is no built-in either.
		if b, err := xsd.ParseBuiltin(xml.Name{Local: c.Name}); err == nil {
			return fmt.Errorf("ParseBuiltin(%q) = %v", c.Name, b)
		}
	}
	if c.Name == "" || c.Name[0] >= '0' && c.Name[0] <= '9' || strings.ContainsAny(c.Name, "()") {
		return nil
	}
	doc := schemaWith(c.Pos, c.Style, c.Name, c.NS)
	got, err := xsd.Parse(doc)
	if builtin {
		if err != nil {
			return fmt.Errorf("Parse: %v\n%s", err, doc)
		}
		return nil
	}
	r.Label(positions[c.Pos].name)
	if err == nil {
		return fmt.Errorf("type %v of %s: no error; it is %v\n%s", n, positions[c.Pos].name, positions[c.Pos].find(&got[0]), doc)
	}
	return nil
}

func init() {
	prop.Enumerate("C16", "names", "always", func() int { return allBuiltins }, func(i int) builtinCase { return builtinCase{i} }, checkBuiltinName)
	prop.Enumerate("C16", "positions", "always", func() int { return len(smodel.Builtins) * len(positions) * len(prefixStyles) }, posAt, checkPos)
	prop.Enumerate("C16", "held", "always", func() int { return len(smodel.Builtins) * len(positions) }, func(i int) posCase {
		return posCase{i / len(positions), i % len(positions), i % len(prefixStyles)}
	}, checkHeld)
	prop.Register("C16", "near misses", "the name is not that of a built-in type", genNearMiss, checkNearMiss, prop.Counts(10000, 150000))
}
