package smodel

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"aqwari.net/xml/verif/prop"
	"pgregory.net/rapid"
)

// Style is one way of writing a Set down. The zero Style is the plainest.
type Style struct {
	Seed     int64
	Default  string // "", "xsd" or "tns": what the default namespace is
	Prefixes int    // which prefixes the root elements declare
	Local    bool   // declare prefixes close to where they are used
	Noise    bool   // comments, white space, foreign elements, appinfo
	Shuffle  bool   // permute top-level declarations
	Explicit bool   // spell out complexContent, default types and occurrences
	Split    bool   // several schema elements per namespace
	Wrap     bool   // schema elements inside WSDL documents
	Reorder  bool   // permute the documents
	Pretty   bool
	Annot    bool // markup and look-alike declarations in annotations
	Extra    bool `json:",omitempty"` // components and attributes that have no effect on types
	Form     bool `json:",omitempty"` // spell out the form of elements and attributes, and the default
}

func GenStyle(t *rapid.T) Style {
	b := func(k int) bool { return prop.Chance(t, k) }
	return Style{
		Seed:     int64(prop.Int(t, 1<<20)),
		Default:  prop.Pick(t, "", "xsd", "tns"),
		Prefixes: prop.Int(t, len(prefixSets)),
		Local:    b(4), Noise: b(5), Shuffle: b(6), Explicit: b(5), Split: b(5), Wrap: b(4), Reorder: b(6), Pretty: b(8), Annot: b(4), Extra: b(4), Form: b(4),
	}
}

var prefixSets = [][]string{
	{"xs", "t", "o", "p"},
	{"xsd", "tns", "b", "c"},
	{"a", "xs", "xsd", "b"}, // xs is not the schema namespace here
	{"s-1", "ns1", "ns2", "_x"},
}

// Part is one rendered schema element.
type Part struct {
	NS    string
	Types []string
	Elems []string
	Doc   int // index into Docs
}

type Rendered struct {
	Docs  [][]byte
	Parts []Part // in the order of the schema elements over all documents
}

type node struct {
	name  QN
	attrs []nattr
	kids  []*node
	text  string
	raw   string // written as it is after text
	cdata bool
}

type nattr struct {
	name   string
	ns     string // "" or Ext
	value  string
	qnames []QN // when set, the value is a list of QNames, then suffix
}

func (n *node) set(name, value string) *node {
	n.attrs = append(n.attrs, nattr{name: name, value: value})
	return n
}

func (n *node) qset(name string, v ...QN) *node {
	n.attrs = append(n.attrs, nattr{name: name, qnames: v})
	return n
}

func (n *node) add(k ...*node) *node {
	for _, c := range k {
		if c != nil {
			n.kids = append(n.kids, c)
		}
	}
	return n
}

func xs(local string) *node { return &node{name: X(local)} }

type renderer struct {
	set  *Set
	st   Style
	r    *rand.Rand
	r2   *rand.Rand // for what was added later: old cases stay as they are
	ns   string
	main string   // namespace that is the default one with Default "xsd"
	also []string // more namespaces to declare on root elements
}

func newRenderer(set *Set, st Style) *renderer {
	return &renderer{set: set, st: st, main: XSD,
		r: rand.New(rand.NewSource(st.Seed)), r2: rand.New(rand.NewSource(st.Seed + 1))}
}

func (x *renderer) flip(flag bool) bool { return flag && x.r.Intn(2) == 0 }

// Render writes the set in the given style.
func Render(set *Set, st Style) *Rendered { return RenderMutated(set, st, nil) }

// RenderMutated writes the set, with changes that may make no sense.
func RenderMutated(set *Set, st Style, muts []Mut) *Rendered {
	if len(muts) == 0 {
		return render(set, st, nil)
	}
	return render(set, st, func(roots []*node) { mutate(roots, muts) })
}

func render(set *Set, st Style, change func(roots []*node)) *Rendered {
	x := newRenderer(set, st)
	type part struct {
		Part
		root *node
	}
	var parts []part
	for i := range set.Schemas {
		sc := &set.Schemas[i]
		decls := x.decls(sc)
		if st.Shuffle {
			x.r.Shuffle(len(decls), func(i, j int) { decls[i], decls[j] = decls[j], decls[i] })
		}
		k := 1
		if st.Split {
			k = 1 + x.r.Intn(3)
		}
		ps := make([]part, k)
		for j := range ps {
			ps[j].NS = sc.NS
			root := xs("schema")
			if sc.NS != "" {
				root.set("targetNamespace", sc.NS)
			}
			root.set("elementFormDefault", "qualified")
			for m := range set.Schemas {
				if o := set.Schemas[m].NS; o != sc.NS {
					imp := xs("import")
					if o != "" {
						imp.set("namespace", o)
					}
					if x.r.Intn(2) == 0 {
						imp.set("schemaLocation", fmt.Sprintf("s%d.xsd", m))
					}
					root.add(imp)
				}
			}
			if k > 1 && x.r.Intn(2) == 0 {
				root.add(xs("include").set("schemaLocation", "other.xsd"))
			}
			if x.flip(st.Noise) {
				root.add(x.docs([]string{"About the schema."}))
			}
			ps[j].root = root
		}
		for _, d := range decls {
			p := &ps[x.r.Intn(k)]
			p.root.add(d)
			name := ""
			for _, a := range d.attrs {
				if a.name == "name" {
					name = a.value
				}
			}
			switch d.name.Local {
			case "complexType", "simpleType":
				p.Types = append(p.Types, name)
			case "element":
				p.Elems = append(p.Elems, name)
			}
		}
		parts = append(parts, ps...)
	}
	if st.Reorder {
		x.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	if st.Form {
		for _, p := range parts {
			forms(p.root, rand.New(rand.NewSource(st.Seed+3)))
		}
	}
	if st.Extra {
		x.extra(each(parts, func(p part) *node { return p.root }))
	}
	out := &Rendered{}
	var roots []*node
	var tns []string
	for i := 0; i < len(parts); {
		n := 1
		if x.flip(st.Wrap) {
			n = 1 + x.r.Intn(len(parts)-i)
			wsdl := func(l string) *node { return &node{name: q("http://schemas.xmlsoap.org/wsdl/", l)} }
			types := wsdl("types")
			for _, p := range parts[i : i+n] {
				types.add(p.root)
			}
			root := wsdl("definitions").set("targetNamespace", "urn:wsdl").add(types)
			if x.r.Intn(2) == 0 {
				root.add(wsdl("message").set("name", "schema"))
			}
			roots = append(roots, root)
		} else {
			roots = append(roots, parts[i].root)
		}
		tns = append(tns, parts[i].NS)
		if change == nil {
			out.Docs = append(out.Docs, x.document(roots[len(roots)-1], parts[i].NS))
		}
		for _, p := range parts[i : i+n] {
			p.Part.Doc = len(roots) - 1
			out.Parts = append(out.Parts, p.Part)
		}
		i += n
	}
	if change != nil {
		change(roots)
		for i, root := range roots {
			out.Docs = append(out.Docs, x.document(root, tns[i]))
		}
	}
	return out
}

func each[T any](parts []T, root func(T) *node) (out []*node) {
	for _, p := range parts {
		out = append(out, root(p))
	}
	return out
}

// extra adds what has no effect on the types: identifiers, constraints of
// identity, notations, and restrictions of how things may be derived or
// substituted.
func (x *renderer) extra(roots []*node) {
	count := 0
	r := rand.New(rand.NewSource(x.st.Seed + 2))
	var walk func(n *node, parent string, global bool)
	walk = func(n *node, parent string, global bool) {
		if n.name.Space != XSD || n.name.Local == "annotation" {
			return
		}
		kind := n.name.Local
		for _, k := range n.kids {
			walk(k, kind, kind == "schema")
		}
		has := map[string]bool{}
		for _, a := range n.attrs {
			has[a.name] = true
		}
		set := func(name string, values ...string) {
			if !has[name] && r.Intn(4) == 0 {
				has[name] = true
				n.set(name, values[r.Intn(len(values))])
			}
		}
		count++
		set("id", fmt.Sprintf("id%d", count))
		switch kind {
		case "schema":
			set("version", "1.0", "any type")
			set("xml:lang", "en")
			set("attributeFormDefault", "unqualified")
			set("blockDefault", "#all", "substitution")
			set("finalDefault", "#all", "extension restriction")
			if r.Intn(3) == 0 {
				n.add(xs("notation").set("name", []string{"a", "string", "T"}[r.Intn(3)]).set("public", "image/gif").set("system", "viewer.exe"))
			}
		case "complexType":
			if global {
				set("block", "#all", "extension")
				set("final", "#all", "restriction")
			}
		case "simpleType":
			if global {
				set("final", "#all", "list union")
			}
		case "any", "anyAttribute":
			set("namespace", "##any", "##other", "##local ##targetNamespace", "urn:a urn:other")
			set("processContents", "skip", "strict")
		case "length", "minLength", "maxLength", "minInclusive", "maxInclusive", "minExclusive", "maxExclusive", "totalDigits", "fractionDigits", "whiteSpace":
			set("fixed", "true", "false")
		case "element":
			if !has["ref"] {
				set("block", "#all", "substitution")
				if global {
					set("final", "#all", "extension")
				}
				if r.Intn(4) == 0 {
					for k := 1 + r.Intn(2); k > 0; k-- {
						count++
						c := xs([]string{"key", "unique"}[r.Intn(2)]).set("name", fmt.Sprintf("k%d", count))
						n.add(c.add(xs("selector").set("xpath", ".//a"), xs("field").set("xpath", "@item")))
					}
				}
			}
		}
	}
	for _, root := range roots {
		walk(root, "", false)
	}
}

// decls renders the declarations of a schema.
func (x *renderer) decls(sc *Schema) []*node {
	x.ns = sc.NS
	var decls []*node
	for _, t := range sc.Types {
		decls = append(decls, x.typ(t))
	}
	for _, e := range sc.Elems {
		decls = append(decls, x.elem(e))
	}
	for _, a := range sc.Attrs {
		decls = append(decls, x.attr(a))
	}
	for _, g := range sc.Groups {
		n := xs("group").set("name", g.Name)
		n.add(x.docs(g.Docs))
		n.add(x.particle(g.Content))
		decls = append(decls, n)
	}
	for _, g := range sc.AttrGroups {
		n := xs("attributeGroup").set("name", g.Name)
		for _, u := range g.Attrs {
			n.add(x.use(u))
		}
		decls = append(decls, n)
	}
	return decls
}

// schema renders a schema as one element.
func (x *renderer) schema(sc *Schema) *node {
	root := xs("schema")
	if sc.NS != "" {
		root.set("targetNamespace", sc.NS)
	}
	root.set("elementFormDefault", "qualified")
	for i := range x.set.Schemas {
		if o := x.set.Schemas[i].NS; o != sc.NS {
			imp := xs("import")
			if o != "" {
				imp.set("namespace", o)
			}
			root.add(imp)
		}
	}
	root.add(x.decls(sc)...)
	if x.st.Form {
		forms(root, rand.New(rand.NewSource(x.st.Seed+3)))
	}
	if x.st.Extra {
		x.extra([]*node{root})
	}
	return root
}

// forms spells out whether local elements and attributes are qualified, where
// that is the default, and where it is not.
func forms(root *node, r *rand.Rand) {
	def := ""
	switch r.Intn(3) {
	case 0:
		def = "qualified"
	case 1:
		def = "unqualified"
	}
	if def != "" {
		root.set("attributeFormDefault", def)
	}
	var walk func(n *node)
	walk = func(n *node) {
		if n.name.Space != XSD || n.name.Local == "annotation" {
			return
		}
		local := n != root && n.name.Local != "schema"
		for _, k := range n.kids {
			if local && k.name.Space == XSD && k.attr("name") != "" {
				switch k.name.Local {
				case "element":
					if r.Intn(3) == 0 {
						k.set("form", "qualified")
					}
				case "attribute":
					form := k.attr("form")
					if form == "" {
						form = "unqualified"
					}
					k.drop("form")
					if form != def && (def != "" || form == "qualified") || r.Intn(3) == 0 {
						k.set("form", form)
					}
				}
			}
			walk(k)
		}
	}
	walk(root)
}

func (n *node) attr(name string) string {
	for _, a := range n.attrs {
		if a.name == name && a.ns == "" {
			return a.value
		}
	}
	return ""
}

func (n *node) drop(name string) {
	for i, a := range n.attrs {
		if a.name == name && a.ns == "" {
			n.attrs = append(n.attrs[:i:i], n.attrs[i+1:]...)
			return
		}
	}
}

func (x *renderer) boolean() string { return []string{"true", "1"}[x.r.Intn(2)] }

// pad surrounds a value whose white space is collapsed.
func (x *renderer) pad(s string) string {
	if x.st.Noise && x.r.Intn(6) == 0 {
		return " " + s + " "
	}
	return s
}

func (x *renderer) docs(ds []string) *node {
	noise := x.st.Noise
	if len(ds) == 0 && !(noise && x.r.Intn(5) == 0) {
		return nil
	}
	a := xs("annotation")
	app := func() {
		if noise && x.r.Intn(3) == 0 {
			i := xs("appinfo")
			switch x.r.Intn(3) {
			case 0:
				i.text = "tool"
			case 1:
				i.add(&node{name: q(Ext, "element")})
			}
			a.add(i)
		}
	}
	app()
	for _, d := range ds {
		n := xs("documentation")
		if noise && x.r.Intn(4) == 0 {
			n.attrs = append(n.attrs, nattr{name: "xml:lang", value: "en"})
		}
		n.text = d
		if x.r.Intn(3) == 0 {
			n.text = "\n  " + d + "\n\t"
		}
		n.cdata = x.r.Intn(4) == 0
		if x.st.Annot && x.r2.Intn(2) == 0 {
			x.markup(n)
		}
		a.add(n)
		app()
	}
	if x.st.Annot && x.r2.Intn(2) == 0 {
		a.add(x.lookalikes())
	}
	return a
}

// markup puts a part of the text of n into an element.
func (x *renderer) markup(n *node) {
	rs := []rune(n.text)
	i := x.r2.Intn(len(rs) + 1)
	j := i + x.r2.Intn(len(rs)-i+1)
	tag := []string{"b", "element", "attribute", "complexType", "p"}[x.r2.Intn(5)]
	n.text, n.cdata = "", false
	n.raw = text(string(rs[:i])) + "<" + tag + " name=\"a\">" + text(string(rs[i:j])) + "</" + tag + ">" + text(string(rs[j:]))
}

func text(s string) string { return strings.ReplaceAll(esc(s), "&#10;", "\n") }

// lookalikes is an appinfo with declarations that are none.
func (x *renderer) lookalikes() *node {
	i := xs("appinfo")
	for k := 1 + x.r2.Intn(2); k > 0; k-- {
		var n *node
		switch x.r2.Intn(9) {
		case 0:
			n = xs("element").set("name", "a").qset("type", X("string"))
		case 1:
			n = xs("element").set("name", "zz").add(xs("complexType").add(xs("sequence")))
		case 2:
			n = xs("attribute").set("name", "zz").qset("type", X("int"))
		case 3:
			n = xs("attribute").qset("ref", X("nothing"))
		case 4:
			n = xs("complexType").set("name", "zz").add(xs("sequence"))
		case 5:
			n = xs("simpleType").add(xs("list").qset("itemType", X("int")))
		case 6:
			n = xs("group").qset("ref", X("nothing"))
		case 7:
			n = xs("import").set("namespace", "urn:nothing")
		case 8:
			n = xs("schema").set("targetNamespace", "urn:nothing").add(xs("include").set("schemaLocation", "nothing.xsd"))
		}
		i.add(n)
	}
	return i
}

func (x *renderer) foreign(n *node, fs []Foreign) {
	for _, f := range fs {
		a := nattr{name: f.Name, ns: Ext, value: f.Value}
		if f.QName.Local != "" {
			a.qnames = []QN{f.QName}
		}
		n.attrs = append(n.attrs, a)
	}
}

// ref writes a type reference as an attribute, or the type as a child.
func (x *renderer) ref(n *node, attr string, r Ref) {
	if r.Inline != nil {
		n.add(x.typ(r.Inline))
	} else if r.Name.Local != "" {
		n.qset(attr, r.Name)
	}
}

func (x *renderer) typ(t *Type) *node {
	var n *node
	if t.Simple != nil {
		n = xs("simpleType")
	} else {
		n = xs("complexType")
	}
	if t.Name != "" {
		n.set("name", t.Name)
	}
	if s := t.Simple; s != nil {
		n.add(x.docs(t.Docs))
		d := xs(s.Derive)
		switch s.Derive {
		case "restriction":
			d.add(x.docs(s.Docs))
			x.ref(d, "base", s.Base)
			for _, f := range s.Facets {
				d.add(xs(f.Name).set("value", f.Value).add(x.docs(f.Docs)))
			}
		case "list":
			x.ref(d, "itemType", s.Base)
		case "union":
			// Members given by name come before the ones given in place.
			var names []QN
			for _, m := range s.Members {
				if m.Inline == nil {
					names = append(names, m.Name)
				}
			}
			if len(names) > 0 {
				d.qset("memberTypes", names...)
			}
			for _, m := range s.Members {
				if m.Inline != nil {
					d.add(x.typ(m.Inline))
				}
			}
		}
		return n.add(d)
	}
	c := t.Complex
	if c.Abstract {
		n.set("abstract", x.pad(x.boolean()))
	} else if x.flip(x.st.Explicit) {
		n.set("abstract", "false")
	}
	n.add(x.docs(t.Docs))
	body := func(n *node) {
		if c.Narrow != nil {
			n.add(x.typ(c.Narrow))
		}
		for _, f := range c.Facets {
			n.add(xs(f.Name).set("value", f.Value))
		}
		n.add(x.particle(c.Content))
		for _, u := range c.Attrs {
			n.add(x.use(u))
		}
		if c.AnyAttr {
			n.add(xs("anyAttribute").set("processContents", "lax"))
		}
	}
	derive := "restriction"
	if c.Extends {
		derive = "extension"
	}
	anyBase := c.Base.Zero()
	if !c.Simple && anyBase && !c.Extends && len(c.Docs) == 0 && !x.flip(x.st.Explicit) {
		if c.Mixed {
			n.set("mixed", x.boolean())
		}
		body(n)
		return n
	}
	content := xs("complexContent")
	if c.Simple {
		content = xs("simpleContent")
	}
	if c.Mixed {
		if x.flip(x.st.Explicit) {
			content.set("mixed", x.boolean())
		} else {
			n.set("mixed", x.boolean())
		}
	}
	content.add(x.docs(c.Docs))
	d := xs(derive)
	if anyBase {
		d.qset("base", X("anyType"))
	} else {
		d.qset("base", c.Base.Name)
	}
	body(d)
	return n.add(content.add(d))
}

func (x *renderer) occurs(n *node, p *Particle) *node {
	if p.Min != 1 || x.flip(x.st.Explicit) {
		n.set("minOccurs", x.pad(fmt.Sprint(p.Min)))
	}
	if p.Max < 0 {
		n.set("maxOccurs", "unbounded")
	} else if p.Max != 1 || x.flip(x.st.Explicit) {
		n.set("maxOccurs", x.pad(fmt.Sprint(p.Max)))
	}
	return n
}

func (x *renderer) particle(p *Particle) *node {
	if p == nil {
		return nil
	}
	switch p.Kind {
	case "element":
		return x.occurs(x.elem(p.Elem), p)
	case "ref":
		return x.occurs(xs("element").qset("ref", p.Ref), p)
	case "group":
		return x.occurs(xs("group").qset("ref", p.Ref), p)
	case "any":
		return x.occurs(xs("any").set("processContents", "lax"), p)
	}
	n := x.occurs(xs(p.Kind), p)
	if x.st.Noise && x.r.Intn(6) == 0 {
		n.add(x.docs(nil))
	}
	for _, c := range p.Parts {
		n.add(x.particle(c))
	}
	return n
}

func (x *renderer) elem(e *Elem) *node {
	n := xs("element").set("name", e.Name)
	n.add(x.docs(e.Docs))
	x.ref(n, "type", e.Type)
	if e.Type.Zero() && x.flip(x.st.Explicit) {
		n.qset("type", X("anyType"))
	}
	if e.Default != "" {
		n.set("default", e.Default)
	}
	if e.Nillable {
		n.set("nillable", x.pad(x.boolean()))
	} else if x.flip(x.st.Explicit) {
		n.set("nillable", "0")
	}
	if e.Abstract {
		n.set("abstract", x.boolean())
	}
	x.foreign(n, e.Foreign)
	return n
}

func (x *renderer) attr(a *Attr) *node {
	n := xs("attribute").set("name", a.Name)
	n.add(x.docs(a.Docs))
	x.ref(n, "type", a.Type)
	if a.Type.Zero() && x.flip(x.st.Explicit) {
		n.qset("type", X("anySimpleType"))
	}
	if a.Default != "" {
		n.set("default", a.Default)
	}
	if a.Qualified {
		n.set("form", "qualified")
	}
	x.foreign(n, a.Foreign)
	return n
}

func (x *renderer) use(u AttrUse) *node {
	switch u.Kind {
	case "group":
		return xs("attributeGroup").qset("ref", u.Ref)
	case "ref":
		n := xs("attribute").qset("ref", u.Ref)
		if u.Default != "" {
			n.set("default", u.Default)
		}
		x.foreign(n, u.Foreign)
		x.required(n, u)
		return n
	}
	n := x.attr(u.Attr)
	x.required(n, u)
	return n
}

func (x *renderer) required(n *node, u AttrUse) {
	if u.Without {
		n.set("use", "prohibited")
	} else if u.Required {
		n.set("use", "required")
	} else if x.flip(x.st.Explicit) {
		n.set("use", "optional")
	}
}

// ---- serialisation ----

type scope map[string]string

func (x *renderer) document(root *node, tns string) []byte {
	var b strings.Builder
	if x.r.Intn(2) == 0 {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	if x.flip(x.st.Noise) {
		b.WriteString("<!-- schema & <co> -->\n")
	}
	x.write(&b, root, scope{}, 0, tns)
	return []byte(b.String())
}

func esc(s string) string {
	s = strings.ReplaceAll(s, "&", "&amp;")
	s = strings.ReplaceAll(s, "<", "&lt;")
	s = strings.ReplaceAll(s, ">", "&gt;")
	s = strings.ReplaceAll(s, "\"", "&quot;")
	s = strings.ReplaceAll(s, "\t", "&#9;")
	return strings.ReplaceAll(s, "\n", "&#10;")
}

func (x *renderer) write(b *strings.Builder, n *node, outer scope, depth int, tns string) {
	sc := scope{}
	for k, v := range outer {
		sc[k] = v
	}
	var decls []string
	declare := func(prefix, ns string) {
		sc[prefix] = ns
		if prefix == "" {
			decls = append(decls, fmt.Sprintf(`xmlns="%s"`, esc(ns)))
		} else {
			decls = append(decls, fmt.Sprintf(`xmlns:%s="%s"`, prefix, esc(ns)))
		}
	}
	if depth == 0 && !x.st.Local {
		set := prefixSets[x.st.Prefixes%len(prefixSets)]
		list := []string{XSD}
		for i := range x.set.Schemas {
			list = append(list, x.set.Schemas[i].NS)
		}
		list = append(append(list, Ext), x.also...)
		for i, ns := range list {
			if ns == "" {
				continue
			}
			if ns == x.main && x.st.Default == "xsd" || ns == tns && x.st.Default == "tns" {
				declare("", ns)
				if x.r.Intn(2) == 0 {
					continue
				}
			}
			p := fmt.Sprintf("n%d", i)
			if i < len(set) {
				p = set[i]
			}
			declare(p, ns)
		}
	}
	// What this element needs: namespaces of its name and of QName values,
	// and prefixed ones for attribute names.
	type need struct {
		ns     string
		prefix bool
	}
	var needs []need
	addNeed := func(ns string, prefixed bool) {
		for i := range needs {
			if needs[i].ns == ns {
				needs[i].prefix = needs[i].prefix || prefixed
				return
			}
		}
		needs = append(needs, need{ns, prefixed})
	}
	for _, a := range n.attrs {
		for _, v := range a.qnames {
			// QNames in foreign attributes always have a prefix: Normalize
			// cannot know that they depend on the default namespace.
			addNeed(v.Space, a.ns != "" && v.Space != "")
		}
		if a.ns != "" {
			addNeed(a.ns, true)
		}
	}
	addNeed(n.name.Space, false)
	sort.SliceStable(needs, func(i, j int) bool { return needs[i].ns < needs[j].ns }) // "" first
	use := map[string]string{}
	taken := map[string]bool{}
	for _, d := range needs {
		if d.ns == "" {
			if sc[""] != "" {
				declare("", "")
			}
			use[""] = ""
			taken[""] = true
		}
	}
	for _, d := range needs {
		if d.ns == "" {
			continue
		}
		var have []string
		for p, ns := range sc {
			if ns == d.ns && !(p == "" && d.prefix) && !taken[p] {
				have = append(have, p)
			}
		}
		sort.Strings(have)
		if len(have) > 0 && !(x.st.Local && x.r.Intn(3) == 0) {
			use[d.ns] = have[x.r.Intn(len(have))]
			taken[use[d.ns]] = true
			continue
		}
		pool := []string{"", "p", "q", "xs", "tns", "r"}
		off := x.r.Intn(len(pool))
		for k := range pool {
			p := pool[(off+k)%len(pool)]
			if taken[p] || p == "" && d.prefix {
				continue
			}
			if p == "" && !x.st.Local {
				continue
			}
			conflict := false
			for _, o := range decls {
				if strings.HasPrefix(o, "xmlns:"+p+"=") || p == "" && strings.HasPrefix(o, "xmlns=") {
					conflict = true
				}
			}
			if conflict {
				continue
			}
			declare(p, d.ns)
			use[d.ns] = p
			taken[p] = true
			break
		}
	}
	qn := func(v QN) string {
		p, ok := use[v.Space]
		if !ok {
			panic("smodel: no prefix for " + v.Space)
		}
		if p == "" {
			return v.Local
		}
		return p + ":" + v.Local
	}
	nl := func(d int) {
		if x.st.Pretty {
			b.WriteString("\n" + strings.Repeat("  ", d))
		}
	}
	if depth > 0 {
		nl(depth)
		if x.st.Noise && x.r.Intn(8) == 0 {
			b.WriteString("<!-- <element name='no'/> -->")
		}
	}
	b.WriteString("<" + qn(n.name))
	var attrs []string
	for _, a := range n.attrs {
		v := a.value
		if a.qnames != nil {
			var parts []string
			for _, m := range a.qnames {
				parts = append(parts, qn(m))
			}
			v = strings.Join(parts, " ") + a.value
			if x.st.Noise && len(parts) > 1 {
				v = strings.Join(parts, "  ") + a.value
			}
		}
		name := a.name
		if a.ns != "" {
			name = use[a.ns] + ":" + name
		}
		attrs = append(attrs, fmt.Sprintf(`%s="%s"`, name, esc(v)))
	}
	attrs = append(attrs, decls...)
	if x.st.Noise {
		x.r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	}
	for _, a := range attrs {
		if x.st.Noise && x.r.Intn(5) == 0 {
			b.WriteString("\n")
		}
		b.WriteString(" " + a)
	}
	if len(n.kids) == 0 && n.text == "" && n.raw == "" {
		if x.r.Intn(3) == 0 {
			b.WriteString("></" + qn(n.name) + ">")
		} else {
			b.WriteString("/>")
		}
		return
	}
	b.WriteString(">")
	if n.text != "" {
		if n.cdata && !strings.Contains(n.text, "]]>") {
			b.WriteString("<![CDATA[" + n.text + "]]>")
		} else {
			b.WriteString(text(n.text))
		}
	}
	b.WriteString(n.raw)
	for _, k := range n.kids {
		x.write(b, k, sc, depth+1, tns)
	}
	if len(n.kids) > 0 {
		nl(depth)
	}
	b.WriteString("</" + qn(n.name) + ">")
}
