package smodel

import (
	"fmt"
	"sort"

	"aqwari.net/xml/verif/prop"
	"pgregory.net/rapid"
)

// Opts bounds what the generator draws.
type Opts struct {
	MaxNS    int
	NoNS     bool // a schema without target namespace may occur
	MaxTypes int  // per namespace
	Names    []string
	Builtins []string // for elements, attributes and simple bases
	// Features, each switched on with some probability per set when true.
	Anon, Groups, Refs, Wild, Docs, Facets, Foreign, Choice, Dup, Recursive, Abstract, Mixed, Never bool
	NoList, NoUnion, NoSimpleRestriction                                                            bool
	NoDefaults, NoQualifiedAttrs, NoAnyAttr, NoComplexRestriction                                   bool
	OneElemPerName                                                                                  bool
	NoQuirk                                                                                         bool // no local elements with types of other namespaces (K01)
	SomeFacets                                                                                      bool // now and then any facets
	AllFacets, SimpleHeavy                                                                          bool // C15
}

// Full switches everything on.
func Full() Opts {
	return Opts{MaxNS: 3, NoNS: true, MaxTypes: 4, Names: DefaultNames, Builtins: Builtins,
		Anon: true, Groups: true, Refs: true, Wild: true, Docs: true, Facets: true, Foreign: true, Choice: true, Dup: true,
		Recursive: true, Abstract: true, Mixed: true, Never: true}
}

// DefaultNames has few names, so that the symbol spaces overlap.
var DefaultNames = []string{"a", "b", "c", "d", "e", "Foo", "bar", "item", "x-y", "v.1", "self", "Type", "_anon1", "schema", "öl"}

var Namespaces = []string{"urn:a", "http://example.com/b", "urn:c/#d", "http://www.w3.org/2001/XMLSchema-x"}

type planned struct {
	name   QN
	kind   string // simple, simpleContent, complex
	def    *Type
	isList bool // variety list, or a union with a list member
	qname  bool // derives from QName or NOTATION
	done   bool // complex: the content is drawn
	inst   bool // complex: has no abstract ...
}

type g struct {
	t     *rapid.T
	o     Opts
	set   *Set
	plan  []*planned
	cur   int // types below cur may be derived from
	ns    string
	depth int
	used  map[string]map[string]bool // symbol space → names, per schema
	nodes int
}

// Gen draws a set of schemas.
func Gen(t *rapid.T, o Opts) *Set {
	x := &g{t: t, o: o, set: &Set{}}
	// Switch features off per set, so that shrinking and small cases exist.
	for _, p := range []*bool{&x.o.Anon, &x.o.Groups, &x.o.Refs, &x.o.Wild, &x.o.Docs, &x.o.Facets, &x.o.Foreign, &x.o.Choice,
		&x.o.Dup, &x.o.Recursive, &x.o.Abstract, &x.o.Mixed, &x.o.Never} {
		if *p {
			*p = prop.Chance(t, 11)
		}
	}
	n := prop.Range(t, 1, o.MaxNS)
	spaces := append([]string(nil), Namespaces...)
	if o.NoNS && prop.Chance(t, 3) {
		spaces[prop.Int(t, n)] = ""
	}
	for i := 0; i < n; i++ {
		x.set.Schemas = append(x.set.Schemas, Schema{NS: spaces[i]})
		x.used = nil
	}
	used := make([]map[string]map[string]bool, n)
	for i := range used {
		used[i] = map[string]map[string]bool{}
	}
	for i := 0; i < n; i++ {
		for k := prop.Range(t, 1, o.MaxTypes); k > 0; k-- {
			p := &planned{kind: prop.Pick(t, "simple", "complex", "complex", "simpleContent")}
			if o.SimpleHeavy && prop.Chance(t, 8) {
				p.kind = "simple"
			}
			p.name = q(spaces[i], x.fresh(used[i], "type"))
			if p.name.Local != "" {
				x.plan = append(x.plan, p)
			}
		}
	}
	for i, j := range prop.Perm(t, len(x.plan)) {
		x.plan[i], x.plan[j] = x.plan[j], x.plan[i]
	}
	// Global attributes and attribute groups.
	if o.Refs || o.Groups {
		for i := range x.set.Schemas {
			sc := &x.set.Schemas[i]
			x.ns, x.cur = sc.NS, 0
			if x.o.Refs {
				for k := prop.Int(t, 3); k > 0; k-- {
					if name := x.fresh(used[i], "attribute"); name != "" {
						sc.Attrs = append(sc.Attrs, x.attr(name))
					}
				}
			}
		}
		for i := range x.set.Schemas {
			sc := &x.set.Schemas[i]
			x.ns, x.cur = sc.NS, 0
			if x.o.Groups {
				for k := prop.Int(t, 3); k > 0; k-- {
					if name := x.fresh(used[i], "attributeGroup"); name != "" {
						ag := &AttrGroup{Name: name}
						ag.Attrs = x.attrUses(map[QN]bool{}, 3)
						sc.AttrGroups = append(sc.AttrGroups, ag)
					}
				}
			}
		}
	}
	// Global elements and groups may refer to any planned type, so give the
	// types their identity first: simple types, then the rest.
	for i, p := range x.plan {
		x.cur, x.ns = i, p.name.Space
		switch p.kind {
		case "simple":
			p.def = &Type{Name: p.name.Local, Docs: x.docs()}
			p.def.Simple, p.isList, p.qname = x.simple(0)
		case "simpleContent":
			p.def = &Type{Name: p.name.Local, Docs: x.docs()}
			p.def.Complex = x.simpleContent()
		case "complex":
			p.def = &Type{Name: p.name.Local, Docs: x.docs(), Complex: &Complex{}}
		}
		sc := x.set.Schema(p.name.Space)
		sc.Types = append(sc.Types, p.def)
	}
	x.cur = len(x.plan)
	for i := range x.set.Schemas {
		sc := &x.set.Schemas[i]
		x.ns = sc.NS
		for k := prop.Int(t, 4); k > 0; k-- {
			if name := x.fresh(used[i], "element"); name != "" {
				sc.Elems = append(sc.Elems, x.elem(name, true))
			}
		}
	}
	if x.o.Groups {
		for i := range x.set.Schemas {
			sc := &x.set.Schemas[i]
			x.ns = sc.NS
			for k := prop.Int(t, 3); k > 0; k-- {
				if name := x.fresh(used[i], "group"); name != "" {
					gr := &Group{Name: name, Docs: x.docs()}
					gr.Content = x.model(map[QN]*Elem{}, 0, true)
					sc.Groups = append(sc.Groups, gr)
				}
			}
		}
	}
	for i, p := range x.plan {
		if p.kind == "complex" {
			x.cur, x.ns = i, p.name.Space
			*p.def.Complex = *x.complex(p)
			p.done = true
		}
	}
	if x.o.Recursive && x.o.Refs && prop.Chance(t, 6) {
		// A global element that may contain itself.
		for i := range x.set.Schemas {
			sc := &x.set.Schemas[i]
			for _, e := range sc.Elems {
				if in := e.Type.Inline; in != nil && in.Complex != nil && in.Complex.Base.Zero() {
					c := in.Complex.Content
					if c == nil || c.Kind != "sequence" {
						continue
					}
					dup := false
					for _, f := range x.set.Fields(c, sc.NS) {
						dup = dup || f.Name == q(sc.NS, e.Name)
					}
					if !dup {
						c.Parts = append(c.Parts, &Particle{Kind: "ref", Ref: q(sc.NS, e.Name), Min: 0, Max: prop.Pick(t, 1, -1)})
					}
				}
			}
		}
	}
	return x.set
}

func (x *g) fresh(used map[string]map[string]bool, space string) string {
	if used[space] == nil {
		used[space] = map[string]bool{}
	}
	for try := 0; try < 4; try++ {
		n := prop.Pick(x.t, x.o.Names...)
		if !used[space][n] {
			used[space][n] = true
			return n
		}
	}
	for _, n := range x.o.Names {
		if !used[space][n] {
			used[space][n] = true
			return n
		}
	}
	return ""
}

func (x *g) docs() []string {
	if !x.o.Docs || !prop.Chance(x.t, 5) {
		return nil
	}
	var out []string
	for k := prop.Range(x.t, 1, 3); k > 0; k-- {
		if x.o.AllFacets && prop.Chance(x.t, 4) {
			out = append(out, prop.Pick(x.t, " ", "", "one\n\ntwo", "one\n\n\n\n  two", "tab\there"))
			continue
		}
		out = append(out, prop.Pick(x.t, "Some text.", "more <b>", "two\n  lines", "ünï & co", "a"))
	}
	return out
}

func (x *g) foreign(qnames bool) []Foreign {
	if !x.o.Foreign || !prop.Chance(x.t, 4) {
		return nil
	}
	if qnames && prop.Chance(x.t, 8) {
		n := X(prop.Pick(x.t, "int", "string"))
		if len(x.plan) > 0 && prop.Chance(x.t, 8) {
			n = x.plan[prop.Int(x.t, len(x.plan))].name
		}
		return []Foreign{{Name: "arrayType", QName: n, Value: prop.Pick(x.t, "", "[]", "[,]")}}
	}
	return []Foreign{{Name: "note", Value: prop.Pick(x.t, "hi", "a<b", "x:y")}}
}

func (x *g) builtin() QN {
	return X(prop.Any(x.t, x.o.Builtins...))
}

// simpleBuiltin avoids anyType.
func (x *g) simpleBuiltin() QN {
	b := x.builtin()
	if b.Local == "anyType" || b.Local == "anySimpleType" || b.Local == "NOTATION" {
		return X("string")
	}
	return b
}

// simpleRef draws a reference to a simple type that may be derived from now.
func (x *g) simpleRef(depth int, notList, notAny bool) (r Ref, list, qname bool) {
	var cands []*planned
	for _, p := range x.plan[:x.cur] {
		if p.kind == "simple" && p.def != nil && !(notList && p.isList) {
			cands = append(cands, p)
		}
	}
	if x.o.Anon && depth < 2 && prop.Chance(x.t, 3) {
		s, list, qname := x.simple(depth + 1)
		if !(notList && list) {
			return Ref{Inline: &Type{Docs: x.docs(), Simple: s}}, list, qname
		}
	}
	if len(cands) > 0 && prop.Chance(x.t, 8) {
		p := cands[prop.Int(x.t, len(cands))]
		return Ref{Name: p.name}, p.isList, p.qname
	}
	b := x.simpleBuiltin()
	if notList && Family(b.Local) == "list" {
		b = X("string")
	}
	return Ref{Name: b}, Family(b.Local) == "list", Family(b.Local) == "qname"
}

func (x *g) simple(depth int) (s *Simple, list, qname bool) {
	s = &Simple{Derive: prop.Pick(x.t, "restriction", "restriction", "list", "union")}
	if s.Derive == "list" && x.o.NoList || s.Derive == "union" && x.o.NoUnion {
		s.Derive = "restriction"
	}
	switch s.Derive {
	case "restriction":
		s.Base, list, qname = x.simpleRef(depth, false, true)
		s.Docs = x.docs()
		if x.o.Facets {
			s.Facets = x.facets(s.Base, list)
		}
	case "list":
		s.Base, _, qname = x.simpleRef(depth, true, true)
		list = true
	case "union":
		for k := prop.Range(x.t, 1, 3); k > 0; k-- {
			r, l, qn := x.simpleRef(depth, false, true)
			list = list || l
			qname = qname || qn
			s.Members = append(s.Members, r)
		}
	}
	return s, list, qname
}

// atomRoot follows a simple reference to its built-in, reporting whether a
// list or union is on the way.
func (x *g) atomRoot(r Ref) (b, variety string) {
	res := x.set.Resolve(r, x.ns, "anySimpleType")
	for res.Def != nil {
		if res.Def.Simple == nil {
			res = x.set.Base(res)
			continue
		}
		if d := res.Def.Simple.Derive; d != "restriction" {
			return "", d
		}
		res = x.set.Base(res)
	}
	if Family(res.Builtin) == "list" {
		return res.Builtin, "list"
	}
	return res.Builtin, "atomic"
}

// facets draws some facets legal for the base (C15 has its own generator).
func (x *g) facets(base Ref, list bool) []Facet {
	b, variety := x.atomRoot(base)
	if x.o.AllFacets || x.o.SomeFacets && prop.Chance(x.t, 3) {
		return x.allFacets(b, variety)
	}
	var out []Facet
	switch {
	case variety == "list":
		if prop.Chance(x.t, 6) {
			out = append(out, Facet{Name: "maxLength", Value: "9"})
		}
		return out
	case variety == "union":
		return nil
	}
	switch Family(b) {
	case "string":
		for k := prop.Int(x.t, 3); k > 0; k-- {
			out = append(out, Facet{Name: "enumeration", Value: Lex(x.t, b), Docs: x.docs()})
		}
		if prop.Chance(x.t, 3) {
			out = append(out, Facet{Name: "maxLength", Value: "80"})
		}
	case "decimal":
		if prop.Chance(x.t, 5) {
			out = append(out, Facet{Name: "maxInclusive", Value: prop.Pick(x.t, "100", "7")})
		}
	}
	return out
}

// Patterns that RE2 knows, and some that it does not.
var GoodPatterns = []string{"[a-z]+", "a|b", "\\d{3}-\\d{2}", "[^<&]*", ".*", "", "(x(y)?)+", "\\p{Lu}\\w*", "[\\-+]?[0-9]+", "a b", "ü+", "\\.", "[0-9]{1,3}"}
var BadPatterns = []string{"\\i\\c*", "[a-z", "\\p{IsBasicLatin}*", "(a", "a{3,1}", "[\\i-[:]]\\c*", "*a", "x{2000}"}

// allFacets draws any facets the base may have.
func (x *g) allFacets(b, variety string) []Facet {
	t := x.t
	var out []Facet
	add := func(name, value string) {
		out = append(out, Facet{Name: name, Value: value, Docs: x.docs()})
	}
	lengths := func() {
		n := prop.Pick(t, 0, 1, 5, 10, 80, 65536)
		switch prop.Int(t, 6) {
		case 0:
			add("length", x.number(n))
		case 1:
			add("minLength", x.padded(x.number(n)))
		case 2:
			add("maxLength", x.padded(x.number(n)))
		case 3:
			add("minLength", fmt.Sprint(n))
			add("maxLength", fmt.Sprint(n+3))
		}
	}
	enums := func() {
		if !prop.Chance(t, 5) {
			return
		}
		for k := prop.Range(t, 1, 4); k > 0; k-- {
			v := "x y"
			if variety == "atomic" || b != "" {
				v = Lex(t, b)
			}
			if variety == "atomic" && (b == "string" || b == "normalizedString") && prop.Chance(t, 3) {
				v = prop.Pick(t, " ", "", "  ") + v + " "
			}
			add("enumeration", v)
		}
	}
	bounds := func(v func() string) {
		for _, side := range []string{"min", "max"} {
			if prop.Chance(t, 5) {
				add(side+prop.Pick(t, "Inclusive", "Exclusive"), x.padded(v()))
			}
		}
	}
	patterns := func() {
		if prop.Chance(t, 6) {
			return
		}
		for k := prop.Range(t, 1, 3); k > 0; k-- {
			add("pattern", prop.Pick(t, GoodPatterns...))
		}
	}
	if variety == "list" {
		b = ""
	}
	switch {
	case variety == "union":
		enums()
		patterns()
	case variety == "list":
		lengths()
		enums()
		patterns()
	default:
		switch Family(b) {
		case "string", "binary":
			lengths()
			enums()
			patterns()
		case "decimal":
			bounds(func() string { return Lex(t, b) })
			if prop.Chance(t, 3) {
				add("totalDigits", x.padded(x.number(prop.Pick(t, 1, 5, 18))))
			}
			if prop.Chance(t, 3) {
				n := 0
				if b == "decimal" {
					n = prop.Pick(t, 0, 2, 4)
				}
				add("fractionDigits", x.padded(x.number(n)))
			}
			enums()
			patterns()
		case "float", "date", "time":
			bounds(func() string { return Lex(t, b) })
			enums()
			patterns()
		case "boolean":
			patterns()
		case "any":
		default:
			enums()
			patterns()
		}
	}
	if b != "" && Family(b) != "any" && prop.Chance(t, 2) {
		add("whiteSpace", "collapse")
	}
	if prop.Chance(t, 5) && len(out) > 1 {
		i := prop.Int(t, len(out))
		out[0], out[i] = out[i], out[0]
	}
	return out
}

// padded puts white space around a value now and then.
func (x *g) padded(s string) string {
	return prop.Pick(x.t, "", "", "", " ", "\n  ") + s + prop.Pick(x.t, "", "", "", " ", "\t")
}

// number writes a number in one of its forms.
func (x *g) number(n int) string {
	return prop.Pick(x.t, "", "", "", "", "0", "00", "+") + fmt.Sprint(n)
}

// value draws a default value for a type, "" when it has none to offer.
func (x *g) value(r Ref) string {
	res := x.set.Resolve(r, x.ns, "anySimpleType")
	for res.Def != nil {
		if res.Def.Complex != nil && !res.Def.Complex.Simple {
			return ""
		}
		if s := res.Def.Simple; s != nil {
			if s.Derive != "restriction" {
				return ""
			}
			for _, f := range s.Facets {
				if f.Name == "enumeration" {
					return f.Value
				}
			}
		}
		res = x.set.Base(res)
	}
	switch Family(res.Builtin) {
	case "qname", "any":
		return ""
	}
	return Lex(x.t, res.Builtin)
}

func (x *g) attr(name string) *Attr {
	a := &Attr{Name: name, Docs: x.docs(), Foreign: x.foreign(false)}
	if prop.Chance(x.t, 15) {
		save := x.cur
		a.Type, _, _ = x.simpleRef(0, false, true)
		x.cur = save
		if !x.o.NoDefaults && prop.Chance(x.t, 4) {
			a.Default = x.value(a.Type)
		}
	}
	return a
}

// attrUses draws attribute uses whose names are not in taken.
func (x *g) attrUses(taken map[QN]bool, max int) []AttrUse {
	var out []AttrUse
	for k := prop.Int(x.t, max+1); k > 0; k-- {
		var u AttrUse
		switch prop.Int(x.t, 6) {
		case 0:
			if !x.o.Refs {
				continue
			}
			sc := x.anySchema()
			if len(sc.Attrs) == 0 {
				continue
			}
			a := sc.Attrs[prop.Int(x.t, len(sc.Attrs))]
			u = AttrUse{Kind: "ref", Ref: q(sc.NS, a.Name), Foreign: x.foreign(len(a.Foreign) == 0)}
			if len(a.Foreign) > 0 {
				u.Foreign = nil
			}
			u.Required = prop.Chance(x.t, 6)
			if !u.Required && !x.o.NoDefaults && prop.Chance(x.t, 3) && !a.Type.Zero() {
				save := x.ns
				x.ns = sc.NS
				u.Default = x.value(a.Type)
				x.ns = save
			}
			if a.Default != "" {
				u.Required = false
			}
		case 1:
			if !x.o.Groups {
				continue
			}
			sc := x.anySchema()
			if len(sc.AttrGroups) == 0 {
				continue
			}
			u = AttrUse{Kind: "group", Ref: q(sc.NS, sc.AttrGroups[prop.Int(x.t, len(sc.AttrGroups))].Name)}
		default:
			u = AttrUse{Kind: "attr", Attr: x.attr(prop.Pick(x.t, x.o.Names...))}
			u.Attr.Foreign = x.foreign(true)
			u.Attr.Qualified = !x.o.NoQualifiedAttrs && prop.Chance(x.t, 2)
			if len(taken) > 0 && !x.o.NoQualifiedAttrs && prop.Chance(x.t, 3) {
				// the local name of another attribute, in another namespace
				var names []QN
				for n := range taken {
					names = append(names, n)
				}
				sort.Slice(names, func(i, j int) bool {
					return names[i].Local < names[j].Local || names[i].Local == names[j].Local && names[i].Space < names[j].Space
				})
				n := names[prop.Int(x.t, len(names))]
				u.Attr.Name, u.Attr.Qualified = n.Local, n.Space == ""
			}
			u.Required = u.Attr.Default == "" && prop.Chance(x.t, 6)
		}
		fs := x.set.AttrFields([]AttrUse{u}, x.ns)
		ok := true
		for _, f := range fs {
			ok = ok && !taken[f.Name]
		}
		if !ok {
			continue
		}
		for _, f := range fs {
			taken[f.Name] = true
		}
		out = append(out, u)
	}
	return out
}

func (x *g) anySchema() *Schema {
	return &x.set.Schemas[prop.Int(x.t, len(x.set.Schemas))]
}

// attrNames collects the attribute names a type has, inherited ones included.
func (x *g) attrNames(r Res, into map[QN]bool) {
	for r.Def != nil && r.Def.Complex != nil {
		for _, f := range x.set.AttrFields(r.Def.Complex.Attrs, r.NS) {
			into[f.Name] = true
		}
		r = x.set.Base(r)
	}
}

// restateAttrs draws the attributes of a restriction: of those of its base
// some are restated, maybe with a narrower type, and some are prohibited.
func (x *g) restateAttrs(base *Complex, ns string) []AttrUse {
	var out []AttrUse
	for _, f := range x.set.AttrFields(base.Attrs, ns) {
		if f.NS != x.ns || f.Attr.Type.Inline != nil || !prop.Chance(x.t, 7) {
			continue
		}
		cp := *f.Attr
		u := AttrUse{Kind: "attr", Attr: &cp}
		if s := x.set.Attr(f.Name); f.Name.Space != "" && s != nil && s == f.Attr {
			u = AttrUse{Kind: "ref", Ref: f.Name}
		} else {
			if f.Name.Space == "" == cp.Qualified {
				continue
			}
			cp.Type = x.narrower(cp.Type, cp.Default)
		}
		if !f.Required && prop.Chance(x.t, 3) {
			u.Without = true
		} else {
			u.Required = f.Required || f.Default == "" && f.Attr.Default == "" && prop.Chance(x.t, 8)
		}
		out = append(out, u)
	}
	return out
}

// narrower draws a simple type that restricts the type, or the type itself.
func (x *g) narrower(r Ref, def string) Ref {
	if r.Name.Local == "" || def != "" {
		return r
	}
	var cands []QN
	for _, p := range x.plan[:x.cur] {
		if p.kind != "simple" || p.def == nil {
			continue
		}
		for n := p.name; n.Space != XSD; {
			t := x.set.Type(n)
			if t == nil || t.Simple == nil || t.Simple.Derive != "restriction" || t.Simple.Base.Inline != nil {
				break
			}
			if n = t.Simple.Base.Name; n == r.Name {
				cands = append(cands, p.name)
			}
		}
	}
	if len(cands) == 0 || !prop.Chance(x.t, 8) {
		return r
	}
	return Ref{Name: cands[prop.Int(x.t, len(cands))]}
}

// contentType is the name of the type of the text of a type with simple
// content.
func (x *g) contentType(r Res) QN {
	for r.Def != nil && r.Def.Complex != nil {
		c := r.Def.Complex
		if c.Narrow != nil {
			break
		}
		r = x.set.Base(r)
		if r.Def == nil || r.Def.Complex == nil {
			return c.Base.Name
		}
	}
	return QN{}
}

func (x *g) simpleContent() *Complex {
	c := &Complex{Simple: true, Extends: true, Docs: x.docs()}
	var cands []*planned
	for _, p := range x.plan[:x.cur] {
		if p.kind == "simpleContent" && p.def != nil {
			cands = append(cands, p)
		}
	}
	taken := map[QN]bool{}
	if len(cands) > 0 && prop.Chance(x.t, 8) {
		p := cands[prop.Int(x.t, len(cands))]
		c.Base = Ref{Name: p.name}
		if !x.o.NoComplexRestriction && prop.Chance(x.t, 8) {
			c.Extends = false
			if x.o.Facets && prop.Chance(x.t, 6) && x.set.Root(x.set.Resolve(c.Base, x.ns, "")) == "string" {
				c.Facets = []Facet{{Name: "maxLength", Value: "40"}}
			}
			if x.o.Abstract {
				c.Abstract = prop.Chance(x.t, 2)
			}
			if content := x.contentType(x.set.Resolve(c.Base, x.ns, "")); content.Local != "" && x.o.Anon && prop.Chance(x.t, 5) {
				c.Narrow = &Type{Docs: x.docs(), Simple: &Simple{Derive: "restriction", Base: Ref{Name: content}}}
			}
			c.Attrs = x.restateAttrs(p.def.Complex, p.name.Space)
			return c
		}
		x.attrNames(x.set.Resolve(c.Base, x.ns, ""), taken)
	} else {
		for {
			save := x.o.Anon
			x.o.Anon = false // the base of an extension cannot be anonymous
			c.Base, _, _ = x.simpleRef(0, false, true)
			x.o.Anon = save
			break
		}
	}
	if x.o.Abstract {
		c.Abstract = prop.Chance(x.t, 2)
	}
	c.Attrs = x.attrUses(taken, 3)
	return c
}

func (x *g) elem(name string, global bool) *Elem {
	e := &Elem{Name: name, Docs: x.docs(), Foreign: x.foreign(!global)}
	if global && len(e.Foreign) == 0 {
		e.Foreign = x.foreign(false)
	}
	e.Nillable = prop.Chance(x.t, 3)
	if x.o.Abstract {
		e.Abstract = global && prop.Chance(x.t, 2)
	}
	switch k := prop.Int(x.t, 8); {
	case k == 0:
		return e // no type: anyType
	case k <= 2 && x.o.Anon && x.depth < 2:
		x.depth++
		t := &Type{Docs: x.docs()}
		if prop.Chance(x.t, 8) {
			t.Simple, _, _ = x.simple(1)
		} else {
			t.Complex = x.complex(nil)
		}
		x.depth--
		e.Type.Inline = t
	case k <= 4 && len(x.plan) > 0:
		lim := len(x.plan)
		if !x.o.Recursive {
			lim = x.cur
		}
		if lim == 0 {
			e.Type.Name = x.builtin()
			break
		}
		p := x.plan[prop.Int(x.t, lim)]
		if p.def == nil || x.o.NoQuirk && !global && p.name.Space != x.ns {
			// Not yet drawn (attributes groups come first): keep to built-ins.
			e.Type.Name = x.builtin()
			break
		}
		e.Type.Name = p.name
	default:
		e.Type.Name = x.builtin()
	}
	if !x.o.NoDefaults && !e.Type.Zero() && prop.Chance(x.t, 4) {
		e.Default = x.value(e.Type)
	}
	return e
}

func (x *g) occurs(p *Particle) *Particle {
	p.Min, p.Max = 1, 1
	switch prop.Int(x.t, 8) {
	case 0:
		p.Min = 0
	case 1:
		p.Max = -1
	case 2:
		p.Min, p.Max = 0, -1
	case 3:
		p.Max = prop.Range(x.t, 2, 3)
		p.Min = prop.Range(x.t, 0, p.Max)
		if x.o.Never && prop.Chance(x.t, 4) {
			p.Min, p.Max = 0, 0
		}
	}
	return p
}

// model draws a model group. elems are the elements the enclosing content
// model already has: a second element of the same name must have its type.
func (x *g) model(elems map[QN]*Elem, depth int, top bool) *Particle {
	kinds := []string{"sequence", "sequence"}
	if x.o.Choice {
		kinds = append(kinds, "choice")
	}
	if top && !x.o.Wild {
		kinds = append(kinds, "all")
	}
	p := &Particle{Kind: prop.Pick(x.t, kinds...), Min: 1, Max: 1}
	if p.Kind == "all" {
		for k := prop.Range(x.t, 1, 3); k > 0; k-- {
			if e := x.member(elems, false); e != nil {
				if e.Kind == "element" || e.Kind == "ref" {
					e.Min, e.Max = prop.Int(x.t, 2), 1
					p.Parts = append(p.Parts, e)
				}
			}
		}
		if prop.Chance(x.t, 3) {
			p.Min = 0
		}
		return p
	}
	if top && prop.Chance(x.t, 10) {
		// leave 1..1
	} else {
		x.occurs(p)
	}
	lo := 1
	if depth > 0 {
		lo = prop.Int(x.t, 2)
	}
	for k := prop.Range(x.t, lo, 3); k > 0; k-- {
		if depth < 3 && prop.Chance(x.t, 4) {
			p.Parts = append(p.Parts, x.model(elems, depth+1, false))
			continue
		}
		if m := x.member(elems, true); m != nil {
			p.Parts = append(p.Parts, x.occurs(m))
		}
	}
	return p
}

func (x *g) member(elems map[QN]*Elem, any bool) *Particle {
	add := func(fs []Field) bool {
		for _, f := range fs {
			if f.Wild {
				continue
			}
			for _, e := range f.Elems {
				for _, n := range []QN{f.Name, q(QuirkSpace(e, f.Name.Space), f.Name.Local)} {
					if old, ok := elems[n]; ok && (old != e || QuirkSpace(e, f.Name.Space) != f.Name.Space) {
						return false
					}
				}
			}
		}
		for _, f := range fs {
			if !f.Wild {
				if _, ok := elems[f.Name]; ok && !x.o.Dup {
					return false
				}
				elems[f.Name] = f.Elem
				elems[q(QuirkSpace(f.Elem, f.Name.Space), f.Name.Local)] = f.Elem
			}
		}
		return true
	}
	switch prop.Int(x.t, 8) {
	case 0:
		if x.o.Wild && any {
			return &Particle{Kind: "any", Min: 1, Max: 1}
		}
	case 1:
		if x.o.Refs {
			sc := x.anySchema()
			if len(sc.Elems) > 0 {
				p := &Particle{Kind: "ref", Ref: q(sc.NS, sc.Elems[prop.Int(x.t, len(sc.Elems))].Name), Min: 1, Max: 1}
				if !x.o.Recursive && x.reaches(p.Ref) {
					return nil
				}
				if add(x.set.Fields(p, x.ns)) {
					return p
				}
				return nil
			}
		}
	case 2:
		if x.o.Groups && any {
			sc := x.anySchema()
			if len(sc.Groups) > 0 {
				p := &Particle{Kind: "group", Ref: q(sc.NS, sc.Groups[prop.Int(x.t, len(sc.Groups))].Name), Min: 1, Max: 1}
				if x.set.Group(p.Ref).Content.Kind == "all" {
					return nil
				}
				if add(x.set.Fields(p, x.ns)) {
					return p
				}
				return nil
			}
		}
	}
	name := prop.Pick(x.t, x.o.Names...)
	if old, ok := elems[q(x.ns, name)]; ok {
		if !x.o.Dup || old.Type.Inline != nil || old.Name != name || QuirkSpace(old, x.ns) != x.ns {
			return nil
		}
		// The same name again: same type, other particulars may differ.
		e := *old
		e.Docs = x.docs()
		if e.Default != "" && prop.Chance(x.t, 8) {
			e.Default = ""
		}
		e.Nillable = prop.Chance(x.t, 4)
		e.Abstract = false // as only a global one may be
		return &Particle{Kind: "element", Elem: &e, Min: 1, Max: 1}
	}
	e := x.elem(name, false)
	if n := q(QuirkSpace(e, x.ns), name); elems[n] != nil {
		return nil
	} else {
		elems[n] = e
	}
	elems[q(x.ns, name)] = e
	return &Particle{Kind: "element", Elem: e, Min: 1, Max: 1}
}

// reaches is conservative: a reference may lead back to a type being drawn.
func (x *g) reaches(n QN) bool { return true }

// elemsOf collects the elements a type has, inherited ones included.
func (x *g) elemsOf(r Res, into map[QN]*Elem) {
	for r.Def != nil && r.Def.Complex != nil {
		for _, f := range x.set.Fields(r.Def.Complex.Content, r.NS) {
			if !f.Wild {
				into[f.Name] = f.Elem
			}
		}
		r = x.set.Base(r)
	}
}

func (x *g) complex(p *planned) *Complex {
	c := &Complex{}
	if x.o.Mixed {
		c.Mixed = prop.Chance(x.t, 3)
	}
	if x.o.Abstract && p != nil {
		c.Abstract = prop.Chance(x.t, 3)
	}
	if !x.o.NoAnyAttr {
		c.AnyAttr = prop.Chance(x.t, 2)
	}
	var cands []*planned
	for _, b := range x.plan[:x.cur] {
		if b.kind == "complex" && b != p && b.done {
			cands = append(cands, b)
		}
	}
	elems, taken := map[QN]*Elem{}, map[QN]bool{}
	if x.o.Mixed && len(cands) > 0 && prop.Chance(x.t, 2) {
		// Towers of extensions that add no content
		for i := len(cands) - 1; i >= 0; i-- {
			base := Ref{Name: cands[i].name}
			r := x.set.Resolve(base, x.ns, "")
			if r.Def == nil || r.Def.Complex == nil || r.Def.Complex.Simple || !x.set.Mixed(r) {
				continue
			}
			c.Base, c.Extends, c.Mixed, c.Docs = base, true, false, x.docs()
			x.attrNames(r, taken)
			c.Attrs = x.attrUses(taken, 2)
			return c
		}
	}
	if len(cands) > 0 && prop.Chance(x.t, 8) {
		b := cands[prop.Int(x.t, len(cands))]
		c.Base = Ref{Name: b.name}
		c.Extends = x.o.NoComplexRestriction || prop.Chance(x.t, 11)
		c.Docs = x.docs()
		base := x.set.Resolve(c.Base, x.ns, "")
		if c.Extends {
			x.attrNames(base, taken)
			inh := map[QN]*Elem{}
			x.elemsOf(base, inh)
			for n, e := range inh {
				elems[n] = e
			}
			if prop.Chance(x.t, 12) {
				c.Content = x.model(elems, 0, false)
			}
			if x.set.Mixed(base) {
				// An extension that adds no content is mixed like its base,
				// also when it does not say so.
				c.Mixed = c.Content != nil || prop.Chance(x.t, 8)
			}
		} else {
			c.Content = x.restrict(base)
			c.Attrs = x.restateAttrs(b.def.Complex, b.name.Space)
			return c
		}
	} else {
		if prop.Chance(x.t, 2) && !x.o.NoComplexRestriction {
			c.Extends = true // of anyType, spelled out
			c.Mixed = c.Mixed || x.o.Mixed
			if !c.Mixed {
				c.Extends = false
			}
		}
		if prop.Chance(x.t, 14) {
			c.Content = x.model(elems, 0, true)
		}
	}
	c.Attrs = x.attrUses(taken, 3)
	return c
}

// restrict restates some of the elements of a base as a sequence.
func (x *g) restrict(base Res) *Particle {
	out := &Particle{Kind: "sequence", Min: 1, Max: 1}
	seen := map[QN]bool{}
	for _, f := range x.inherited(base) {
		if f.Wild || seen[f.Name] || f.NS != x.ns || f.Elem.Type.Inline != nil {
			continue
		}
		if f.Name.Space != x.ns || x.o.NoQuirk && QuirkSpace(f.Elem, x.ns) != x.ns {
			continue
		}
		seen[f.Name] = true
		if f.Min == 0 && prop.Chance(x.t, 5) {
			continue
		}
		e := *f.Elem
		e.Docs = x.docs()
		e.Abstract = false
		if t := x.narrower(e.Type, e.Default); QuirkSpace(&Elem{Type: t}, x.ns) == QuirkSpace(&e, x.ns) {
			e.Type = t
		}
		out.Parts = append(out.Parts, &Particle{Kind: "element", Elem: &e, Min: f.Min, Max: f.Max})
	}
	if len(out.Parts) == 0 {
		return nil
	}
	return out
}

// inherited lists the fields of the effective content model, base first.
func (x *g) inherited(r Res) []Field {
	if r.Def == nil || r.Def.Complex == nil {
		return nil
	}
	c := r.Def.Complex
	own := x.set.Fields(c.Content, r.NS)
	if !c.Extends {
		return own
	}
	return append(x.inherited(x.set.Base(r)), own...)
}

var _ = fmt.Sprint
