package genc

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"go/types"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"pgregory.net/rapid"
)

const (
	encNS  = "http://schemas.xmlsoap.org/soap/encoding/"
	wsdlNS = "http://schemas.xmlsoap.org/wsdl/"
)

// arrayCase is a schema with types that restrict the SOAP array type.
type arrayCase struct {
	Set    *smodel.Set
	Style  smodel.Style
	Arrays []arrayType
	Base   bool // an element has the array type itself
	Extra  bool // a type with one plural wildcard that is no array
	Docs   []arrayDoc

	Strict bool `json:",omitempty"` // no allowance for known findings
}

// arrayType restricts the SOAP array type.
type arrayType struct {
	Name   string
	Item   QN       // built-in, type of the set or another array
	Prefix []string // for the schema, encoding, wsdl, item and target namespaces
	Where  bool     // prefixes are declared where they are used
	Pad    string   // white space around the type
	Elem   string   `json:",omitempty"` // declares its items, too
	Attrs  bool     `json:",omitempty"` // declares attributes that are ignored before arrayType
	From   int      `json:",omitempty"` // restricts the array type before it at this distance
	More   int      `json:",omitempty"` // declares an attribute before (1) or after (2) arrayType
	Any    int      `json:",omitempty"` // repeats the wildcard (1), the group (2) of the array type; 4: its attributes
}

// struc says whether the array needs a struct, being more than its items.
func (a arrayType) struc() bool { return a.More > 0 || a.Elem != "" }

// arrayDoc is an array, or a holder with several.
type arrayDoc struct {
	Array int
	Held  bool // in the holder
	Items []*smodel.Node
	Typed bool   // xsi:type on each item
	Space string // white space and comments between items
	Decl  bool   // arrayType attribute
	Bad   bool   `json:",omitempty"` // an item is no value of its type
}

func genArrays(t *rapid.T) arrayCase {
	o := GenOpts()
	o.Wild, o.Docs, o.Choice = false, false, false
	o.MaxNS, o.NoNS = 2, false
	o.MaxTypes = 3
	c := arrayCase{Set: smodel.Gen(t, o), Style: smodel.GenStyle(t), Base: prop.Chance(t, 4), Extra: prop.Chance(t, 4)}
	var named []QN
	for _, s := range c.Set.Schemas {
		for _, d := range s.Types {
			if !c.Set.UsesQName(smodel.Res{Def: d, NS: s.NS}) {
				named = append(named, QN{Space: s.NS, Local: d.Name})
			}
		}
	}
	ns := c.Set.Schemas[0].NS
	for n := prop.Range(t, 1, 4); n > 0; n-- {
		a := arrayType{Name: fmt.Sprintf("Arr%dOf", len(c.Arrays)), Where: prop.Chance(t, 5), Attrs: prop.Chance(t, 4)}
		switch k := prop.Uniform(t, 8); {
		case k == 0 && len(c.Arrays) > 0:
			a.Item = QN{Space: ns, Local: c.Arrays[prop.Int(t, len(c.Arrays))].Name}
		case k < 5 && len(named) > 0:
			a.Item = prop.Any(t, named...)
		default:
			b := prop.Any(t, smodel.Builtins...)
			if b == "QName" {
				b = "string"
			}
			a.Item = smodel.X(b)
		}
		all := [][]string{{"xs", "se", "wsdl", "it", "tns"}, {"", "soapenc", "w", "xs", "tns"}, {"s", "e", "arrayType", "ns1", ""}, {"ns1", "ns2", "ns3", "item", "self"}, {"x", "soapenc", "wsdl", "", "xsd"}}
		a.Prefix = all[prop.Int(t, len(all))]
		a.Pad = prop.Pick(t, "", "", "", " ", "\n")
		switch n := len(c.Arrays); {
		case n > 0 && prop.Chance(t, 6):
			a.From = prop.Range(t, 1, n)
			if c.Arrays[n-a.From].More > 0 || c.Arrays[n-a.From].Elem != "" {
				a.From = 0
			}
		case prop.Chance(t, 10):
			a.More = prop.Range(t, 1, 2)
		case prop.Chance(t, 10):
			a.Elem = prop.Pick(t, "item", "Item", "arrayType")
		}
		if a.Elem == "" && prop.Chance(t, 4) {
			a.Any = prop.Range(t, 1, 6)
		}
		c.Arrays = append(c.Arrays, a)
	}
	// encoding/xml takes xsi:type for an attribute named type.
	all, _ := json.Marshal(c.Set)
	typed := !bytes.Contains(all, []byte(`"type"`))
	for i := range c.Arrays {
		for k := prop.Pick(t, 2, 1, 3); k > 0; k-- {
			d := arrayDoc{Array: i, Held: prop.Chance(t, 6), Typed: typed && prop.Chance(t, 5), Decl: prop.Chance(t, 8)}
			d.Space = prop.Pick(t, "", "\n  ", "<!-- <item/> -->", "<?pi x?>")
			ok := true
			tag := QN{Space: prop.Pick(t, "", ns, "urn:items"), Local: prop.Pick(t, "item", "Item", "x", "arrayType")}
			for n := prop.Pick(t, 2, 0, 1, 3, 7, 40); n > 0 && ok; n-- {
				if prop.Chance(t, 4) {
					tag = QN{Space: prop.Pick(t, "", ns, "urn:items"), Local: prop.Pick(t, "item", "Item", "y", "Items")}
				}
				if c.Arrays[i].Elem != "" {
					tag = QN{Space: ns, Local: c.Arrays[i].Elem}
				}
				var it *smodel.Node
				it, ok = c.item(t, c.Arrays[i].Item, tag, 0)
				if ok {
					d.Items = append(d.Items, it)
				}
			}
			if ok {
				c.Docs = append(c.Docs, d)
			}
		}
	}
	return c
}

// array gives the array type of a name, if it is one.
func (c arrayCase) array(n QN) *arrayType {
	for i := range c.Arrays {
		if n.Space == c.Set.Schemas[0].NS && c.Arrays[i].Name == n.Local {
			return &c.Arrays[i]
		}
	}
	return nil
}

func (c arrayCase) res(n QN) Res {
	if n.Space == smodel.XSD {
		return Res{Builtin: n.Local}
	}
	return Res{Def: c.Set.Type(n), NS: n.Space}
}

// item draws an item.
func (c arrayCase) item(t *rapid.T, typ, name QN, depth int) (*smodel.Node, bool) {
	if a := c.array(typ); a != nil {
		n := &smodel.Node{Name: name}
		for k := prop.Int(t, 3); k > 0 && depth < 3; k-- {
			it, ok := c.item(t, a.Item, QN{Local: "item"}, depth+1)
			if !ok {
				return nil, false
			}
			n.Kids = append(n.Kids, it)
		}
		return n, true
	}
	n := c.Set.GenDoc(t, c.res(typ), name, smodel.DocOpts{MaxDepth: 3})
	return n, n != nil
}

// render adds the arrays to the schema documents.
func (c arrayCase) render() [][]byte {
	docs := smodel.Render(c.Set, c.Style).Docs
	ns := c.Set.Schemas[0].NS
	var b bytes.Buffer
	fmt.Fprintf(&b, `<xs:schema targetNamespace="%s" elementFormDefault="qualified" xmlns:xs="%s" xmlns:my="%s" xmlns:enc="%s"`, ns, smodel.XSD, ns, encNS)
	b.WriteString(`><xs:import namespace="` + encNS + `"/>`)
	for _, s := range c.Set.Schemas[1:] {
		fmt.Fprintf(&b, `<xs:import namespace="%s"/>`, s.NS)
	}
	for i, a := range c.Arrays {
		p := func(i int) string {
			if a.Prefix[i] == "" {
				return ""
			}
			return a.Prefix[i] + ":"
		}
		decl := func(i int, uri string) string {
			if a.Prefix[i] == "" {
				return fmt.Sprintf(` xmlns="%s"`, uri)
			}
			return fmt.Sprintf(` xmlns:%s="%s"`, a.Prefix[i], uri)
		}
		item := 3
		if a.Item.Space == smodel.XSD {
			item = 0
		} else if a.Item.Space == ns {
			item = 4
		}
		xs, all := p(0), decl(0, smodel.XSD)+decl(1, encNS)+decl(4, ns)
		inner := decl(2, wsdlNS)
		if item == 3 {
			inner += decl(3, a.Item.Space)
		}
		if !a.Where {
			all, inner = all+inner, ""
		}
		if item == 3 && a.Prefix[3] == a.Prefix[0] && !a.Where {
			// The prefix has two meanings, so both cannot be declared here.
			all = strings.Replace(all, decl(3, a.Item.Space), "", 1)
			inner = decl(3, a.Item.Space)
		}
		base := p(1) + "Array"
		if a.From > 0 {
			base = p(4) + c.Arrays[i-a.From].Name
		}
		fmt.Fprintf(&b, `<%scomplexType%s name="%s"><%scomplexContent><%srestriction base="%s">`, xs, all, a.Name, xs, xs, base)
		if a.Elem != "" {
			fmt.Fprintf(&b, `<%ssequence><%selement name="%s" type="%s" minOccurs="0" maxOccurs="unbounded"%s/></%ssequence>`, xs, xs, a.Elem, p(item)+a.Item.Local, inner, xs)
		}
		switch a.Any % 4 {
		case 1:
			fmt.Fprintf(&b, `<%ssequence><%sany namespace="##any" minOccurs="0" maxOccurs="unbounded" processContents="lax"/></%ssequence>`, xs, xs, xs)
		case 2:
			fmt.Fprintf(&b, `<%sgroup ref="%sArray" minOccurs="0"/>`, xs, p(1))
		}
		if a.Any&4 != 0 {
			fmt.Fprintf(&b, `<%sattributeGroup ref="%scommonAttributes"/>`, xs, p(1))
		}
		if a.Attrs && a.Any&4 == 0 {
			fmt.Fprintf(&b, `<%sattribute name="id" type="%sstring"/>`, xs, xs)
		}
		if a.More == 1 {
			fmt.Fprintf(&b, `<%sattribute name="more" type="%sstring"/>`, xs, xs)
		}
		if item == 3 && a.Prefix[3] == a.Prefix[0] {
			// The schema namespace needs another prefix on the attribute.
			fmt.Fprintf(&b, `<q:attribute xmlns:q="%s" ref="%sarrayType" %sarrayType="%s%s[]%s"%s/>`, smodel.XSD, p(1), p(2), a.Pad, p(item)+a.Item.Local, a.Pad, inner)
		} else {
			fmt.Fprintf(&b, `<%sattribute ref="%sarrayType" %sarrayType="%s%s[]%s"%s/>`, xs, p(1), p(2), a.Pad, p(item)+a.Item.Local, a.Pad, inner)
		}
		if a.More == 2 {
			fmt.Fprintf(&b, `<%sattribute name="more" type="%sstring"/>`, xs, xs)
		}
		fmt.Fprintf(&b, `</%srestriction></%scomplexContent></%scomplexType>`, xs, xs, xs)
	}
	b.WriteString(`<xs:complexType name="ArrHolder"><xs:sequence><xs:element name="before" type="xs:string"/>`)
	for i, a := range c.Arrays {
		fmt.Fprintf(&b, `<xs:element name="h%d" type="my:%s"/>`, i, a.Name)
	}
	if c.Base {
		b.WriteString(`<xs:element name="base" type="enc:Array" minOccurs="0"/>`)
	}
	b.WriteString(`<xs:element name="after" type="xs:string"/></xs:sequence></xs:complexType>`)
	if c.Extra {
		b.WriteString(`<xs:complexType name="ArrNot"><xs:sequence><xs:element name="x" type="xs:int" maxOccurs="unbounded"/></xs:sequence></xs:complexType>`)
	}
	b.WriteString(`</xs:schema>`)
	return append(docs, b.Bytes())
}

func (d arrayDoc) write(c arrayCase) (string, QN) {
	a := c.Arrays[d.Array]
	ns := c.Set.Schemas[0].NS
	var b strings.Builder
	name := QN{Local: "arr"}
	open, end := "<arr", "</arr>"
	if d.Held {
		name = QN{Space: ns, Local: "holder"}
		fmt.Fprintf(&b, `<hp:holder xmlns:hp="%s"><hp:before>b</hp:before>`, ns)
		for i := range c.Arrays {
			if i < d.Array {
				fmt.Fprintf(&b, `<hp:h%d></hp:h%d>`, i, i)
			}
		}
		open, end = fmt.Sprintf("<hp:h%d", d.Array), fmt.Sprintf("</hp:h%d>", d.Array)
	}
	b.WriteString(open)
	if a.More > 0 {
		b.WriteString(` more="M"`)
	}
	if d.Decl {
		fmt.Fprintf(&b, ` xmlns:enc="%s" xmlns:it="%s" enc:arrayType="it:%s[%d]"`, encNS, a.Item.Space, a.Item.Local, len(d.Items))
	}
	b.WriteString(">")
	b.WriteString(d.Space)
	for _, n := range d.Items {
		s := n.Write(0)
		if d.Typed {
			i := strings.IndexAny(s, " />")
			s = s[:i] + fmt.Sprintf(` xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:xt="%s" xsi:type="xt:%s"`, a.Item.Space, a.Item.Local) + s[i:]
		}
		b.WriteString(s)
		b.WriteString(d.Space)
	}
	b.WriteString(end)
	if d.Held {
		for i := range c.Arrays {
			if i > d.Array {
				fmt.Fprintf(&b, `<hp:h%d></hp:h%d>`, i, i)
			}
		}
		b.WriteString(`<hp:after>a</hp:after></hp:holder>`)
	}
	return b.String(), name
}

func checkArrays(cs []arrayCase, rs []*prop.Rec) []error {
	errs := make([]error, len(cs))
	var units []unit
	var reqs []request
	type from struct{ c, d int }
	var src []from
	srcs := make([][]byte, len(cs))
	for i, c := range cs {
		docs := c.render()
		opt := Options{Defaults: true}
		code, text, err := source(opt.config(), docs)
		srcs[i] = text
		if err != nil && qnameList(c.Set) && strings.Contains(err.Error(), "don't know how to marshal/unmarshal <list> of QName") {
			rs[i].Label("error: a list of QNames")
			continue
		}
		if err != nil {
			errs[i] = fmt.Errorf("%v\n%s", err, show(docs))
			continue
		}
		_, pkg, err := compile(text)
		if err != nil {
			errs[i] = fmt.Errorf("does not compile: %v\n%s%s", err, show(docs), text)
			continue
		}
		if err := c.declared(code.NameOf, pkg, opt); err != nil {
			errs[i] = fmt.Errorf("%v\n%s%s", err, show(docs), text)
			continue
		}
		u := unit{src: text, types: declaredTypes(pkg)}
		ns := c.Set.Schemas[0].NS
		for k, d := range c.Docs {
			n := QN{Space: ns, Local: c.Arrays[d.Array].Name}
			if d.Held {
				n.Local = "ArrHolder"
			}
			doc, name := d.write(c)
			reqs = append(reqs, request{Pkg: len(units), Type: code.NameOf(n), Name: name, Doc: doc})
			src = append(src, from{i, k})
		}
		units = append(units, u)
	}
	p, err := build(units)
	if err != nil {
		for i := range errs {
			errs[i] = err
		}
		return errs
	}
	defer p.close()
	var live []request
	var at []int
	for k, r := range reqs {
		if p.bad[r.Pkg] != nil {
			errs[src[k].c] = fmt.Errorf("generated source does not compile: %v\n%s", p.bad[r.Pkg], srcs[src[k].c])
			continue
		}
		live = append(live, r)
		at = append(at, k)
	}
	res, err := p.do(live)
	if err != nil {
		for i := range errs {
			errs[i] = err
		}
		return errs
	}
	for j, a := range res {
		f := src[at[j]]
		c := cs[f.c]
		d := c.Docs[f.d]
		rs[f.c].Nontrivial(len(d.Items) > 0)
		rs[f.c].Work++
		rs[f.c].Label(kindOf(c, c.Arrays[d.Array].Item))
		if err := c.judge(d, a); err != nil && errs[f.c] == nil {
			errs[f.c] = fmt.Errorf("%s of %v (Go %s): %v\n--- document\n%s\n--- encoded again\n%s\n%s--- generated\n%s",
				c.Arrays[d.Array].Name, c.Arrays[d.Array].Item, live[j].Type, err, live[j].Doc, a.Out, show(c.render()), srcs[f.c])
		}
	}
	return errs
}

func kindOf(c arrayCase, n QN) string {
	if c.array(n) != nil {
		return "of arrays"
	}
	r := c.res(n)
	switch {
	case r.Def == nil:
		return "of built-ins"
	case r.Def.Simple != nil:
		return "of simple types"
	}
	return "of complex types"
}

// declared checks the Go types.
func (c arrayCase) declared(nameOf func(xml.Name) string, pkg *types.Package, opt Options) error {
	e := newExpect(c.Set, opt, pkg)
	ns := c.Set.Schemas[0].NS
	elem := func(n QN) (types.Type, *types.Slice, error) {
		o := pkg.Scope().Lookup(nameOf(n))
		if o == nil {
			return nil, nil, fmt.Errorf("no type %s for %v", nameOf(n), n)
		}
		s, _ := o.Type().Underlying().(*types.Slice)
		return o.Type(), s, nil
	}
	for _, a := range c.Arrays {
		_, s, err := elem(QN{Space: ns, Local: a.Name})
		if err != nil {
			return err
		}
		if a.struc() {
			if s != nil {
				return fmt.Errorf("array type %s with further declarations is a slice", a.Name)
			}
			continue
		}
		if s == nil {
			return fmt.Errorf("array type %s is not a slice", a.Name)
		}
		if c.array(a.Item) != nil {
			if w, _, err := elem(a.Item); err != nil {
				return err
			} else if !types.Identical(w, s.Elem()) {
				return fmt.Errorf("array type %s has elements %v, want %v", a.Name, s.Elem(), w)
			}
			continue
		}
		if err := e.match(s.Elem(), c.res(a.Item), map[pair]bool{}); err != nil {
			return fmt.Errorf("array type %s of %v: %v", a.Name, a.Item, err)
		}
	}
	if c.Base {
		o, s, err := elem(QN{Space: encNS, Local: "Array"})
		if err != nil {
			return err
		}
		st, ok := o.Underlying().(*types.Struct)
		if s != nil || !ok {
			return fmt.Errorf("the array type itself is declared as %v", o.Underlying())
		}
		items, attr := false, false
		for i := 0; i < st.NumFields(); i++ {
			items = items || st.Field(i).Type().String() == "[]string"
			attr = attr || strings.Contains(st.Tag(i), "arrayType")
		}
		if !items || !attr {
			return fmt.Errorf("the array type itself is declared as %v", st)
		}
	}
	if c.Extra {
		o, s, err := elem(QN{Space: ns, Local: "ArrNot"})
		if err != nil {
			return err
		}
		if s != nil {
			return fmt.Errorf("ArrNot is no array, but declared as %v", o.Underlying())
		}
	}
	return nil
}

func (c arrayCase) judge(d arrayDoc, a response) error {
	switch {
	case a.Crash != "":
		return fmt.Errorf("crashed: %s", a.Crash)
	case d.Bad:
		if a.Err == "" && c.Strict { // K10
			return fmt.Errorf("an item is no value of its type, but there is no error")
		}
		return nil
	case a.Err != "":
		return fmt.Errorf("cannot be decoded: %s", a.Err)
	case a.EncErr != "":
		return fmt.Errorf("cannot be encoded again: %s", a.EncErr)
	}
	at := c.Arrays[d.Array]
	var value interface{}
	if err := json.Unmarshal(a.Value, &value); err != nil {
		return err
	}
	got, err := readTyped(a.Out)
	if err != nil {
		return fmt.Errorf("what was encoded does not parse: %v", err)
	}
	if d.Held {
		m, _ := value.(map[string]interface{})
		if m["Before"] != "b" || m["After"] != "a" {
			return fmt.Errorf("elements next to the array are %v and %v", m["Before"], m["After"])
		}
		value = m[fmt.Sprintf("H%d", d.Array)]
		var h *typedNode
		for _, k := range got.kids {
			if k.Name.Local == fmt.Sprintf("h%d", d.Array) {
				h = k
			}
		}
		if h == nil {
			return fmt.Errorf("no element for the array is encoded")
		}
		got = h
	}
	items, _ := value.([]interface{})
	if at.struc() {
		m, _ := value.(map[string]interface{})
		for k, v := range m {
			if v, ok := v.([]interface{}); ok && len(v) > 0 && k != "XMLName" {
				items = v
			}
		}
		if at.More > 0 && m["More"] != "M" {
			return fmt.Errorf("the attribute is decoded as %v", m["More"])
		}
	}
	if s, ok := value.(string); ok && strings.HasPrefix(s, "x") { // []byte
		return fmt.Errorf("the array is decoded as bytes: %s", s)
	}
	if len(items) != len(d.Items) {
		return fmt.Errorf("%d items were decoded, want %d", len(items), len(d.Items))
	}
	return c.same(at, d.Items, items, got)
}

// same compares the items of an array with their Go values, if given, and
// with what is encoded for them.
func (c arrayCase) same(at arrayType, want []*smodel.Node, items []interface{}, got *typedNode) error {
	if !at.struc() {
		if err := c.typed(at, got); err != nil {
			return err
		}
	}
	if len(got.kids) != len(want) {
		return fmt.Errorf("%d items were encoded, want %d", len(got.kids), len(want))
	}
	for i, w := range want {
		if a := c.array(at.Item); a != nil {
			if items != nil && !a.struc() {
				if v, _ := items[i].([]interface{}); len(v) != len(w.Kids) {
					return fmt.Errorf("item %d has %d items, want %d", i, len(v), len(w.Kids))
				}
			}
			if err := c.same(*a, w.Kids, nil, got.kids[i]); err != nil {
				return fmt.Errorf("item %d: %v", i, err)
			}
			continue
		}
		if w.Kind != "" && len(w.Attrs) == 0 && items != nil {
			if _, ok := items[i].(map[string]interface{}); !ok {
				if err := sameGo(w.Kind, w.Text, items[i]); err != nil {
					return fmt.Errorf("item %d: %v", i, err)
				}
			}
		}
		n := *w
		g := got.kids[i].plain()
		n.Name = g.Name
		if err := sameDoc(&n, g, ""); err != nil {
			return fmt.Errorf("item %d: %v", i, err)
		}
	}
	return nil
}

// typed checks that an encoded array declares its type.
func (c arrayCase) typed(at arrayType, got *typedNode) error {
	v, found := "", false
	for _, x := range got.Attrs {
		if x.Name.Local == "arrayType" && (x.Name.Space == encNS || x.Name.Space == wsdlNS) {
			v, found = x.Text, true
		}
	}
	if !found {
		return fmt.Errorf("no arrayType in %v", got.Attrs)
	}
	i := strings.IndexByte(v, '[')
	if i < 0 {
		return fmt.Errorf("arrayType is %q", v)
	}
	p := strings.SplitN(v[:i], ":", 2)
	if len(p) == 1 {
		p = []string{"", p[0]}
	}
	name := QN{Space: got.scope[p[0]], Local: p[1]}
	// A type that is no declaration of its own stands for its base.
	for n := at.Item; ; {
		if n == name {
			return nil
		}
		if n.Space == smodel.XSD || c.array(n) != nil {
			break
		}
		b := c.Set.Base(c.res(n))
		if b.Def == nil {
			n = smodel.X(b.Builtin)
			continue
		}
		if b.Def.Name == "" {
			return nil
		}
		n = QN{Space: b.NS, Local: b.Def.Name}
	}
	return fmt.Errorf("arrayType %q is %v, want %v", v, name, at.Item)
}

// typedNode is an element and the prefixes in scope.
type typedNode struct {
	smodel.Node
	kids  []*typedNode
	scope map[string]string
}

func (n *typedNode) plain() *smodel.Node {
	out := n.Node
	out.Kids = nil
	for _, k := range n.kids {
		out.Kids = append(out.Kids, k.plain())
	}
	return &out
}

func readTyped(s string) (*typedNode, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	root := &typedNode{}
	stack := []*typedNode{root}
	for {
		tok, err := d.Token()
		if err != nil {
			if len(root.kids) == 1 && len(stack) == 1 {
				return root.kids[0], nil
			}
			return nil, err
		}
		top := stack[len(stack)-1]
		switch t := tok.(type) {
		case xml.StartElement:
			n := &typedNode{Node: smodel.Node{Name: t.Name}, scope: map[string]string{}}
			for k, v := range top.scope {
				n.scope[k] = v
			}
			for _, a := range t.Attr {
				switch {
				case a.Name.Space == "xmlns":
					n.scope[a.Name.Local] = a.Value
				case a.Name.Space == "" && a.Name.Local == "xmlns":
					n.scope[""] = a.Value
				default:
					n.Attrs = append(n.Attrs, smodel.Val{Name: a.Name, Text: a.Value})
				}
			}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.Text += string(t)
		}
	}
}

func checkArray(c arrayCase, r *prop.Rec) error {
	return checkArrays([]arrayCase{c}, []*prop.Rec{r})[0]
}

func init() {
	prop.Register("C22", "arrays", "an array has items", genArrays, checkArray, prop.Counts(640, 20000), prop.Batch(40, checkArrays))
}
