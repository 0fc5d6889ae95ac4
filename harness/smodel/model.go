// Package smodel is an abstract model of XML Schema documents: it is drawn at
// random, rendered as XSD in many equivalent ways, and says what the parsed
// form of the schema must be, independently of package xsd.
package smodel

import (
	"encoding/xml"
	"fmt"
)

// XSD is the schema namespace.
const XSD = "http://www.w3.org/2001/XMLSchema"

// Ext is the namespace of foreign attributes and elements.
const Ext = "urn:ext"

type QN = xml.Name

func q(ns, local string) QN { return QN{Space: ns, Local: local} }

// X names a built-in type.
func X(local string) QN { return q(XSD, local) }

// Set is a set of schemas, one per namespace.
type Set struct {
	Schemas []Schema
}

type Schema struct {
	NS         string
	Types      []*Type      `json:",omitempty"`
	Elems      []*Elem      `json:",omitempty"`
	Attrs      []*Attr      `json:",omitempty"`
	Groups     []*Group     `json:",omitempty"`
	AttrGroups []*AttrGroup `json:",omitempty"`
}

// Type is a simple or complex type definition; anonymous when Name is empty.
type Type struct {
	Name    string   `json:",omitempty"`
	Docs    []string `json:",omitempty"`
	Simple  *Simple  `json:",omitempty"`
	Complex *Complex `json:",omitempty"`
}

// Ref refers to a type by name or has it inline; the zero Ref is no type.
type Ref struct {
	Name   QN    `json:",omitempty"`
	Inline *Type `json:",omitempty"`
}

func (r Ref) Zero() bool { return r.Inline == nil && r.Name.Local == "" }

// Simple is the body of a simple type.
type Simple struct {
	Derive  string   // restriction, list, union
	Base    Ref      `json:",omitempty"` // restriction base or list item
	Members []Ref    `json:",omitempty"`
	Facets  []Facet  `json:",omitempty"`
	Docs    []string `json:",omitempty"` // documentation of the restriction
}

type Facet struct {
	Name, Value string
	Docs        []string `json:",omitempty"`
}

// Complex is the body of a complex type.
type Complex struct {
	Abstract bool      `json:",omitempty"`
	Mixed    bool      `json:",omitempty"`
	Simple   bool      `json:",omitempty"` // simpleContent
	Extends  bool      `json:",omitempty"`
	Base     Ref       `json:",omitempty"`
	Facets   []Facet   `json:",omitempty"` // simpleContent restriction
	Narrow   *Type     `json:",omitempty"` // simpleContent restriction: the simple type of the content, given in place
	Content  *Particle `json:",omitempty"`
	Attrs    []AttrUse `json:",omitempty"`
	AnyAttr  bool      `json:",omitempty"`
	Docs     []string  `json:",omitempty"` // documentation of the content element
}

// Particle is a part of a content model.
type Particle struct {
	Kind     string      // element, ref, group, any, sequence, choice, all
	Min, Max int         // Max -1: unbounded
	Elem     *Elem       `json:",omitempty"`
	Ref      QN          `json:",omitempty"`
	Parts    []*Particle `json:",omitempty"`
}

type Elem struct {
	Name     string
	Type     Ref       `json:",omitempty"`
	Default  string    `json:",omitempty"`
	Nillable bool      `json:",omitempty"`
	Abstract bool      `json:",omitempty"`
	Docs     []string  `json:",omitempty"`
	Foreign  []Foreign `json:",omitempty"`
}

type Attr struct {
	Name      string
	Type      Ref       `json:",omitempty"`
	Default   string    `json:",omitempty"`
	Qualified bool      `json:",omitempty"` // form="qualified"
	Docs      []string  `json:",omitempty"`
	Foreign   []Foreign `json:",omitempty"`
}

// AttrUse is an attribute of a type: local, a reference, or a group of them.
type AttrUse struct {
	Kind     string    // attr, ref, group
	Attr     *Attr     `json:",omitempty"`
	Ref      QN        `json:",omitempty"`
	Required bool      `json:",omitempty"`
	Without  bool      `json:",omitempty"` // use="prohibited"
	Default  string    `json:",omitempty"` // on references
	Foreign  []Foreign `json:",omitempty"` // on references
}

// Foreign is an attribute {urn:ext}Name on a declaration, with a plain value
// or (when QName is set) the value "prefix:local" + Value.
type Foreign struct {
	Name  string
	Value string `json:",omitempty"`
	QName QN     `json:",omitempty"`
}

type Group struct {
	Name    string
	Docs    []string `json:",omitempty"`
	Content *Particle
}

type AttrGroup struct {
	Name  string
	Attrs []AttrUse
}

// Schema returns the schema of a namespace.
func (s *Set) Schema(ns string) *Schema {
	for i := range s.Schemas {
		if s.Schemas[i].NS == ns {
			return &s.Schemas[i]
		}
	}
	return nil
}

func (s *Set) Type(n QN) *Type {
	if sc := s.Schema(n.Space); sc != nil {
		for _, t := range sc.Types {
			if t.Name == n.Local {
				return t
			}
		}
	}
	return nil
}

func (s *Set) Elem(n QN) *Elem {
	if sc := s.Schema(n.Space); sc != nil {
		for _, t := range sc.Elems {
			if t.Name == n.Local {
				return t
			}
		}
	}
	return nil
}

func (s *Set) Attr(n QN) *Attr {
	if sc := s.Schema(n.Space); sc != nil {
		for _, t := range sc.Attrs {
			if t.Name == n.Local {
				return t
			}
		}
	}
	return nil
}

func (s *Set) Group(n QN) *Group {
	if sc := s.Schema(n.Space); sc != nil {
		for _, t := range sc.Groups {
			if t.Name == n.Local {
				return t
			}
		}
	}
	return nil
}

func (s *Set) AttrGroup(n QN) *AttrGroup {
	if sc := s.Schema(n.Space); sc != nil {
		for _, t := range sc.AttrGroups {
			if t.Name == n.Local {
				return t
			}
		}
	}
	return nil
}

// Res is a resolved type: a built-in or a definition with its namespace.
type Res struct {
	Builtin string // local name, when built in
	Def     *Type
	NS      string // of Def
}

// Resolve finds the type of a reference made in namespace ns.
func (s *Set) Resolve(r Ref, ns, none string) Res {
	if r.Inline != nil {
		return Res{Def: r.Inline, NS: ns}
	}
	if r.Name.Local == "" {
		return Res{Builtin: none}
	}
	if r.Name.Space == XSD {
		return Res{Builtin: r.Name.Local}
	}
	t := s.Type(r.Name)
	if t == nil {
		panic(fmt.Sprintf("smodel: no type %v", r.Name))
	}
	return Res{Def: t, NS: r.Name.Space}
}

// Base gives the resolved base of a definition.
func (s *Set) Base(t Res) Res {
	switch {
	case t.Def == nil:
		return Res{}
	case t.Def.Simple != nil:
		if t.Def.Simple.Derive == "union" {
			return Res{Builtin: "anySimpleType"}
		}
		return s.Resolve(t.Def.Simple.Base, t.NS, "anySimpleType")
	default:
		return s.Resolve(t.Def.Complex.Base, t.NS, "anyType")
	}
}

// Root is the built-in at the end of the base chain (for lists: of the items).
func (s *Set) Root(t Res) string {
	for t.Def != nil {
		t = s.Base(t)
	}
	return t.Builtin
}

// Mixed says whether the type allows character data, in the sense package xsd
// documents: declared, inherited by extension, or simple content.
func (s *Set) Mixed(t Res) bool {
	c := t.Def.Complex
	if c.Mixed || c.Simple {
		return true
	}
	b := s.Base(t)
	if b.Def == nil {
		return c.Extends && b.Builtin == "anyType"
	}
	if b.Def.Simple != nil {
		return true
	}
	return c.Extends && s.Mixed(b)
}

// Field is an element of a content model with its effective occurrence.
type Field struct {
	Name     QN
	Elem     *Elem
	NS       string // namespace its declaration lives in
	Wild     bool
	Min, Max int     // -1 unbounded
	Choice   bool    // below a choice
	Elems    []*Elem // all declarations joined into this field
}

func mulMax(a, b int) int {
	if a == 0 || b == 0 {
		return 0
	}
	if a < 0 || b < 0 {
		return -1
	}
	return a * b
}

func addMax(a, b int) int {
	if a < 0 || b < 0 {
		return -1
	}
	return a + b
}

func maxMax(a, b int) int {
	if a < 0 || b < 0 {
		return -1
	}
	if a > b {
		return a
	}
	return b
}

// Fields flattens a content model declared in namespace ns.
func (s *Set) Fields(p *Particle, ns string) []Field {
	if p == nil || p.Max == 0 {
		return nil
	}
	var out []Field
	switch p.Kind {
	case "element":
		out = []Field{{Name: q(ns, p.Elem.Name), Elem: p.Elem, NS: ns, Min: 1, Max: 1, Elems: []*Elem{p.Elem}}}
	case "ref":
		e := s.Elem(p.Ref)
		out = []Field{{Name: p.Ref, Elem: e, NS: p.Ref.Space, Min: 1, Max: 1, Elems: []*Elem{e}}}
	case "any":
		out = []Field{{Wild: true, Min: 1, Max: 1}}
	case "group":
		// A reference brings the declarations into the group's own namespace.
		out = s.Fields(s.Group(p.Ref).Content, p.Ref.Space)
	case "sequence", "all":
		for _, c := range p.Parts {
			for _, f := range s.Fields(c, ns) {
				if g := find(out, f); g != nil {
					g.Min += f.Min
					g.Max = addMax(g.Max, f.Max)
					g.Choice = g.Choice || f.Choice
					g.Elems = append(g.Elems, f.Elems...)
				} else {
					out = append(out, f)
				}
			}
		}
	case "choice":
		for _, c := range p.Parts {
			for _, f := range s.Fields(c, ns) {
				f.Min, f.Choice = 0, true
				if g := find(out, f); g != nil {
					g.Max = maxMax(g.Max, f.Max)
					g.Elems = append(g.Elems, f.Elems...)
				} else {
					out = append(out, f)
				}
			}
		}
	default:
		panic("smodel: particle kind " + p.Kind)
	}
	for i := range out {
		out[i].Min *= p.Min
		out[i].Max = mulMax(out[i].Max, p.Max)
	}
	return out
}

func find(fs []Field, f Field) *Field {
	for i := range fs {
		if fs[i].Name == f.Name && fs[i].Wild == f.Wild {
			return &fs[i]
		}
	}
	return nil
}

// AttrField is an attribute of a type.
type AttrField struct {
	Name     QN
	Attr     *Attr
	NS       string // namespace its declaration lives in
	Required bool
	Default  string
	Foreign  []Foreign
}

// AttrFields flattens attribute uses declared in namespace ns.
func (s *Set) AttrFields(us []AttrUse, ns string) []AttrField {
	var out []AttrField
	for _, u := range us {
		if u.Without {
			continue
		}
		switch u.Kind {
		case "attr":
			f := AttrField{Name: q("", u.Attr.Name), Attr: u.Attr, NS: ns, Required: u.Required, Default: u.Attr.Default, Foreign: u.Attr.Foreign}
			if u.Attr.Qualified {
				f.Name.Space = ns
			}
			out = append(out, f)
		case "ref":
			a := s.Attr(u.Ref)
			f := AttrField{Name: u.Ref, Attr: a, NS: u.Ref.Space, Required: u.Required, Default: a.Default}
			f.Foreign = append(append(f.Foreign, a.Foreign...), u.Foreign...)
			if u.Default != "" {
				f.Default = u.Default
			}
			out = append(out, f)
		case "group":
			out = append(out, s.AttrFields(s.AttrGroup(u.Ref).Attrs, u.Ref.Space)...)
		}
	}
	return out
}

// Anon lists every anonymous type of a schema with the local name of the
// element or attribute that holds it directly ("" when another type does).
type Anon struct {
	Type  *Type
	Owner string
}

func (sc *Schema) Anons() []Anon {
	var out []Anon
	var ref func(r Ref, owner string)
	var typ func(t *Type)
	var part func(p *Particle)
	var uses func(us []AttrUse)
	ref = func(r Ref, owner string) {
		if r.Inline != nil {
			out = append(out, Anon{r.Inline, owner})
			typ(r.Inline)
		}
	}
	typ = func(t *Type) {
		if s := t.Simple; s != nil {
			ref(s.Base, "")
			for _, m := range s.Members {
				ref(m, "")
			}
		}
		if c := t.Complex; c != nil {
			if c.Narrow != nil {
				ref(Ref{Inline: c.Narrow}, "")
			}
			part(c.Content)
			uses(c.Attrs)
		}
	}
	part = func(p *Particle) {
		if p == nil {
			return
		}
		if p.Elem != nil {
			ref(p.Elem.Type, p.Elem.Name)
		}
		for _, c := range p.Parts {
			part(c)
		}
	}
	uses = func(us []AttrUse) {
		for _, u := range us {
			if u.Attr != nil {
				ref(u.Attr.Type, u.Attr.Name)
			}
		}
	}
	for _, t := range sc.Types {
		typ(t)
	}
	for _, e := range sc.Elems {
		ref(e.Type, e.Name)
	}
	for _, a := range sc.Attrs {
		ref(a.Type, a.Name)
	}
	for _, g := range sc.Groups {
		part(g.Content)
	}
	for _, g := range sc.AttrGroups {
		uses(g.Attrs)
	}
	return out
}

// AnyFacet says whether a simple type, or one it derives from, has facets.
func (s *Set) AnyFacet(r Res) bool {
	for r.Def != nil && r.Def.Simple != nil {
		if len(r.Def.Simple.Facets) > 0 {
			return true
		}
		r = s.Base(r)
	}
	return false
}

// IsList says whether a simple type is a list or derives from one.
func (s *Set) IsList(r Res) bool {
	for r.Def != nil && r.Def.Simple != nil {
		if r.Def.Simple.Derive == "list" {
			return true
		}
		r = s.Base(r)
	}
	return Family(r.Builtin) == "list"
}
