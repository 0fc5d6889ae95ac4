package xsdc

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
	"pgregory.net/rapid"
)

const maxChain = 200

// resolved walks everything Parse returned.
func resolved(ss []xsd.Schema) (types int, err error) {
	declared := map[xml.Name]map[xsd.Type]bool{}
	for i := range ss {
		for _, t := range ss[i].Types {
			if isNilType(t) {
				return 0, fmt.Errorf("nil type in schema %d", i)
			}
			n := xsd.XMLName(t)
			if declared[n] == nil {
				declared[n] = map[xsd.Type]bool{}
			}
			declared[n][t] = true
		}
	}
	real := func(t xsd.Type, what string) error {
		switch t.(type) {
		case xsd.Builtin:
			if n := t.(xsd.Builtin).Name(); n.Local == "" {
				return fmt.Errorf("%s is a built-in without a name", what)
			}
			return nil
		case *xsd.SimpleType, *xsd.ComplexType:
			if isNilType(t) {
				return fmt.Errorf("%s is nil", what)
			}
			n := xsd.XMLName(t)
			if !declared[n][t] {
				return fmt.Errorf("%s is a type named %v that is in no schema", what, n)
			}
			return nil
		}
		return fmt.Errorf("%s is %T %v", what, t, t)
	}
	for i := range ss {
		for key, t := range ss[i].Types {
			types++
			if err := real(t, fmt.Sprint("type ", key)); err != nil {
				return 0, err
			}
			b, n := t, 0
			for {
				if _, ok := b.(xsd.Builtin); ok {
					break
				}
				b = xsd.Base(b)
				if err := real(b, fmt.Sprintf("ancestor %d of %v", n+1, key)); err != nil {
					return 0, err
				}
				if n++; n > maxChain {
					return 0, fmt.Errorf("the base chain of %v does not end", key)
				}
				// ancestors are found by name
				if want := xsd.XMLName(b); len(declared[want]) < 2 {
					if got := ss[i].FindType(want); got != b {
						return 0, fmt.Errorf("FindType(%v), an ancestor of %v: got %v, want %v", want, key, got, b)
					}
				}
			}
			switch t := t.(type) {
			case *xsd.ComplexType:
				for _, e := range t.Elements {
					if err := real(e.Type, fmt.Sprintf("element %v of %v", e.Name, key)); err != nil {
						return 0, err
					}
				}
				for _, a := range t.Attributes {
					if err := real(a.Type, fmt.Sprintf("attribute %v of %v", a.Name, key)); err != nil {
						return 0, err
					}
				}
			case *xsd.SimpleType:
				for _, u := range t.Union {
					if err := real(u, fmt.Sprintf("union member of %v", key)); err != nil {
						return 0, err
					}
				}
			}
		}
		for key, t := range ss[i].Types {
			if xsd.XMLName(t) == key && len(declared[key]) == 1 {
				if got := ss[i].FindType(key); got != t {
					return 0, fmt.Errorf("FindType(%v): %v", key, got)
				}
			}
		}
		if got := ss[i].FindType(xml.Name{Space: ss[i].TargetNS, Local: "no such type"}); got != nil {
			return 0, fmt.Errorf("FindType of an unknown name: %v", got)
		}
		if got := ss[i].FindType(xml.Name{Space: "urn:unknown", Local: "a"}); got != nil {
			return 0, fmt.Errorf("FindType of a name of an unknown namespace: %v", got)
		}
	}
	return types, nil
}

func isNilType(t xsd.Type) bool {
	switch t := t.(type) {
	case nil:
		return true
	case *xsd.SimpleType:
		return t == nil
	case *xsd.ComplexType:
		return t == nil
	}
	return false
}

func checkResolved(c schemaCase, r *prop.Rec) error {
	x := smodel.Render(c.Set, c.Style)
	got, err := xsd.Parse(clone(x.Docs)...)
	if err != nil {
		return fmt.Errorf("Parse: %v\n%s", err, show(x.Docs))
	}
	if _, err := resolved(got); err != nil {
		return fmt.Errorf("%v\n%s", err, show(x.Docs))
	}
	// What is referred to is the very type declared under that name.
	at := func(n xml.Name) xsd.Type { return find(got, n) }
	var want func(r smodel.Ref, ns string, t xsd.Type, what string) error
	links := 0
	want = func(r smodel.Ref, ns string, t xsd.Type, what string) error {
		if r.Inline != nil || r.Name.Local == "" || r.Name.Space == smodel.XSD {
			return nil
		}
		links++
		if at(r.Name) != t {
			return fmt.Errorf("%s is not the type declared as %v but %T %v", what, r.Name, t, xsd.XMLName(t))
		}
		return nil
	}
	for i := range c.Set.Schemas {
		sc := &c.Set.Schemas[i]
		for _, def := range sc.Types {
			key := xml.Name{Space: sc.NS, Local: def.Name}
			switch t := at(key).(type) {
			case *xsd.ComplexType:
				if def.Complex == nil {
					return fmt.Errorf("type %v is complex", key)
				}
				if err := want(def.Complex.Base, sc.NS, t.Base, fmt.Sprintf("base of %v", key)); err != nil {
					return fmt.Errorf("%v\n%s", err, show(x.Docs))
				}
				fs := c.Set.Fields(def.Complex.Content, sc.NS)
				for _, e := range t.Elements {
					for _, f := range fs {
						if !e.Wildcard && !f.Wild && (f.Name == e.Name || smodel.QuirkSpace(f.Elem, f.Name.Space) == e.Name.Space && f.Name.Local == e.Name.Local) && len(f.Elem.Type.Name.Local) > 0 {
							if at(f.Elem.Type.Name) == e.Type {
								links++
								goto next
							}
						}
					}
					for _, f := range fs {
						if !e.Wildcard && !f.Wild && f.Name == e.Name && smodel.QuirkSpace(f.Elem, f.Name.Space) == f.Name.Space {
							if err := want(f.Elem.Type, f.NS, e.Type, fmt.Sprintf("type of element %v of %v", e.Name, key)); err != nil {
								return fmt.Errorf("%v\n%s", err, show(x.Docs))
							}
						}
					}
				next:
				}
				as := c.Set.AttrFields(def.Complex.Attrs, sc.NS)
				for j, a := range t.Attributes {
					if j < len(as) {
						if err := want(as[j].Attr.Type, as[j].NS, a.Type, fmt.Sprintf("type of attribute %v of %v", a.Name, key)); err != nil {
							return fmt.Errorf("%v\n%s", err, show(x.Docs))
						}
					}
				}
			case *xsd.SimpleType:
				if def.Simple == nil {
					return fmt.Errorf("type %v is simple", key)
				}
				if def.Simple.Derive != "union" {
					if err := want(def.Simple.Base, sc.NS, t.Base, fmt.Sprintf("base of %v", key)); err != nil {
						return fmt.Errorf("%v\n%s", err, show(x.Docs))
					}
				}
			default:
				return fmt.Errorf("type %v is %T", key, t)
			}
		}
	}
	r.Nontrivial(links > 1)
	return nil
}

// ---- broken references ----

type brokenCase struct {
	Set   *smodel.Set
	Style smodel.Style
	Kind  string
	Pick  int
	Name  xml.Name // what the reference is changed to
}

type brokenSite struct {
	what string
	to   *xml.Name
}

// references lists the references of a set with the symbol space each is in.
// Type references of attributes and groups that nothing uses are left out:
// nothing that Parse returns depends on them.
func references(s *smodel.Set) (out []brokenSite) {
	type owner struct {
		space string
		name  xml.Name
	}
	used := map[owner]bool{}
	unused := map[*smodel.Ref]bool{} // types of prohibited attributes
	for i := range s.Schemas {
		s.Schemas[i].Visit(smodel.Visit{Uses: func(us *[]smodel.AttrUse) {
			for _, u := range *us {
				if u.Without && u.Attr != nil {
					unused[&u.Attr.Type] = true
				}
			}
		}})
	}
	visit := func(part smodel.Schema, fn func(what string, to *xml.Name)) {
		part.Visit(smodel.Visit{
			Ref: func(r *smodel.Ref, where string) {
				if r.Inline == nil && r.Name.Local != "" && !unused[r] {
					fn("type", &r.Name)
				}
			},
			Particle: func(p *smodel.Particle) {
				switch p.Kind {
				case "ref":
					fn("element", &p.Ref)
				case "group":
					fn("group", &p.Ref)
				}
			},
			Uses: func(us *[]smodel.AttrUse) {
				for j := range *us {
					switch u := &(*us)[j]; u.Kind {
					case "ref":
						fn("attribute", &u.Ref)
					case "group":
						fn("attributeGroup", &u.Ref)
					}
				}
			},
		})
	}
	var use func(what string, to *xml.Name)
	use = func(what string, to *xml.Name) {
		o := owner{what, *to}
		sc := s.Schema(to.Space)
		if used[o] || sc == nil {
			return
		}
		used[o] = true
		switch what {
		case "attribute":
			if x := s.Attr(*to); x != nil {
				visit(smodel.Schema{Attrs: []*smodel.Attr{x}}, use)
			}
		case "group":
			if x := s.Group(*to); x != nil {
				visit(smodel.Schema{Groups: []*smodel.Group{x}}, use)
			}
		case "attributeGroup":
			if x := s.AttrGroup(*to); x != nil {
				visit(smodel.Schema{AttrGroups: []*smodel.AttrGroup{x}}, use)
			}
		}
	}
	for i := range s.Schemas {
		visit(smodel.Schema{Types: s.Schemas[i].Types, Elems: s.Schemas[i].Elems}, use)
	}
	for i := range s.Schemas {
		sc := s.Schemas[i]
		all := func(what string, to *xml.Name) { out = append(out, brokenSite{what, to}) }
		visit(smodel.Schema{Types: sc.Types, Elems: sc.Elems}, all)
		some := func(ok bool) func(string, *xml.Name) {
			return func(what string, to *xml.Name) {
				if ok || what != "type" {
					out = append(out, brokenSite{what, to})
				}
			}
		}
		for _, x := range sc.Attrs {
			visit(smodel.Schema{Attrs: []*smodel.Attr{x}}, some(used[owner{"attribute", xml.Name{Space: sc.NS, Local: x.Name}}]))
		}
		for _, x := range sc.Groups {
			visit(smodel.Schema{Groups: []*smodel.Group{x}}, some(used[owner{"group", xml.Name{Space: sc.NS, Local: x.Name}}]))
		}
		for _, x := range sc.AttrGroups {
			visit(smodel.Schema{AttrGroups: []*smodel.AttrGroup{x}}, some(used[owner{"attributeGroup", xml.Name{Space: sc.NS, Local: x.Name}}]))
		}
	}
	return out
}

func exists(s *smodel.Set, space string, n xml.Name) bool {
	switch space {
	case "type":
		if n.Space == smodel.XSD {
			return smodel.Family(n.Local) != "" // see builtinName
		}
		return s.Type(n) != nil
	case "element":
		return s.Elem(n) != nil
	case "group":
		return s.Group(n) != nil
	case "attribute":
		return s.Attr(n) != nil
	case "attributeGroup":
		return s.AttrGroup(n) != nil
	}
	return true
}

func genBroken(t *rapid.T) brokenCase {
	o := smodel.Full()
	o.Never = false // nothing says what is wrong with what may not occur
	o.Dup = false // only the first declaration of an element says what its type is
	set := smodel.Gen(t, o)
	c := brokenCase{Set: set, Style: smodel.GenStyle(t)}
	refs := references(set)
	if len(refs) == 0 {
		t.Skip()
	}
	c.Pick = prop.Int(t, len(refs))
	// A name that exists, but of something else, or elsewhere; or none at all.
	var pool []xml.Name
	for i := range set.Schemas {
		sc := &set.Schemas[i]
		for _, x := range sc.Types {
			pool = append(pool, xml.Name{Space: sc.NS, Local: x.Name})
		}
		sc.Visit(smodel.Visit{
			Elem: func(e *smodel.Elem, global bool) { pool = append(pool, xml.Name{Space: sc.NS, Local: e.Name}) },
			Attr: func(a *smodel.Attr, global bool) { pool = append(pool, xml.Name{Space: sc.NS, Local: a.Name}) },
		})
		for _, x := range sc.Groups {
			pool = append(pool, xml.Name{Space: sc.NS, Local: x.Name})
		}
		for _, x := range sc.AttrGroups {
			pool = append(pool, xml.Name{Space: sc.NS, Local: x.Name})
		}
		pool = append(pool, xml.Name{Space: sc.NS, Local: "nosuch"})
	}
	pool = append(pool, xml.Name{Space: smodel.XSD, Local: "nosuch"}, xml.Name{Space: smodel.XSD, Local: "Int"}, xml.Name{Space: smodel.Ext, Local: "a"})
	for try := 0; ; try++ {
		n := pool[prop.Int(t, len(pool))]
		if try == 8 {
			n = xml.Name{Space: smodel.Ext, Local: "nosuch"}
		}
		if !exists(set, refs[c.Pick].what, n) && !strings.HasPrefix(n.Local, "_") {
			c.Name = n
			break
		}
	}
	c.Kind = refs[c.Pick].what
	return c
}

// hoisted says whether an anonymous type may have been given the name: it is
// then known under it, which nothing in the documents is entitled to use but
// Parse cannot tell.
func hoisted(s *smodel.Set, n xml.Name) bool {
	if sc := s.Schema(n.Space); sc != nil {
		for _, a := range sc.Anons() {
			if a.Owner == n.Local {
				return true
			}
		}
	}
	return false
}

// namesake says whether the element whose type was made dangling is, because
// it takes the namespace of its type (K01), one of several of its name, of
// which only the first one says what the type is.
func namesake(s *smodel.Set, to *xml.Name) bool {
	var el *smodel.Elem
	visit := func(fn func(ns string, e *smodel.Elem)) {
		for i := range s.Schemas {
			sc := &s.Schemas[i]
			sc.Visit(smodel.Visit{Elem: func(e *smodel.Elem, global bool) { fn(sc.NS, e) }})
		}
	}
	visit(func(ns string, e *smodel.Elem) {
		if &e.Type.Name == to {
			el = e
		}
	})
	found := false
	if el != nil {
		visit(func(ns string, e *smodel.Elem) {
			if e != el && e.Name == el.Name && smodel.QuirkSpace(e, ns) == to.Space {
				found = true
			}
		})
	}
	return found
}

func checkBroken(c brokenCase, r *prop.Rec) error {
	refs := references(c.Set)
	if c.Pick >= len(refs) || refs[c.Pick].what != c.Kind {
		return nil
	}
	if c.Kind == "type" && hoisted(c.Set, c.Name) {
		r.Exclude("dangling type name taken by the generated name of an anonymous type")
		return nil
	}
	set := c.Set.Clone()
	to := references(set)[c.Pick].to
	*to = c.Name
	if c.Kind == "type" && namesake(set, to) {
		r.Exclude("element that has the name of another one because of its dangling type (K01)")
		return nil
	}
	x := smodel.Render(set, c.Style)
	if _, err := xsd.Parse(clone(x.Docs)...); err == nil {
		return fmt.Errorf("a reference to %s %v, which does not exist, was accepted\n%s", c.Kind, c.Name, show(x.Docs))
	}
	r.Nontrivial(true)
	r.Label("broken reference to: " + c.Kind)
	r.LabelIf(strings.HasPrefix(c.Name.Space, smodel.XSD), "to a built-in that does not exist")
	return nil
}

// ---- circular definitions ----

type circleCase struct {
	Kind   string // restriction, list, union, mixed, extension, simpleContent, group, attributeGroup
	Len    int
	Spaces int // how many namespaces the circle runs through
	Deep   bool
	Style  smodel.Style
	Tail   int // types hanging off the circle
}

func genCircle(t *rapid.T) circleCase {
	return circleCase{
		Kind: prop.Pick(t, "restriction", "list", "union", "mixed", "extension", "complex restriction", "simpleContent", "group", "attributeGroup"),
		Len:  prop.Pick(t, 1, 1, 2, 3, 5, 40), Spaces: prop.Range(t, 1, 3), Deep: prop.Chance(t, 8), Tail: prop.Int(t, 3), Style: smodel.GenStyle(t),
	}
}

func (c circleCase) set() *smodel.Set {
	s := &smodel.Set{}
	for i := 0; i < c.Spaces; i++ {
		s.Schemas = append(s.Schemas, smodel.Schema{NS: smodel.Namespaces[i]})
	}
	sc := func(i int) *smodel.Schema { return &s.Schemas[i%c.Spaces] }
	name := func(i int) xml.Name { return xml.Name{Space: sc(i).NS, Local: fmt.Sprintf("c%d", i)} }
	next := func(i int) smodel.Ref {
		if i < c.Len {
			return smodel.Ref{Name: name((i + 1) % c.Len)}
		}
		return smodel.Ref{Name: name(i % c.Len)} // a tail
	}
	typ := func(i int, t *smodel.Type) {
		t.Name = name(i).Local
		sc(i).Types = append(sc(i).Types, t)
	}
	simple := func(derive string, r smodel.Ref) *smodel.Type {
		sm := &smodel.Simple{Derive: derive, Base: r}
		if derive == "union" {
			sm.Base = smodel.Ref{}
			sm.Members = []smodel.Ref{{Name: smodel.X("int")}, r}
		}
		return &smodel.Type{Simple: sm}
	}
	n := c.Len + c.Tail
	for i := 0; i < n; i++ {
		switch c.Kind {
		case "restriction", "list", "union":
			r := next(i)
			if c.Deep && i == 0 {
				r = smodel.Ref{Inline: simple("restriction", r)}
			}
			typ(i, simple(c.Kind, r))
		case "mixed":
			typ(i, simple([]string{"restriction", "list", "union"}[i%3], next(i)))
		case "extension", "complex restriction":
			typ(i, &smodel.Type{Complex: &smodel.Complex{Base: next(i), Extends: c.Kind == "extension", Mixed: i == 1}})
		case "simpleContent":
			typ(i, &smodel.Type{Complex: &smodel.Complex{Simple: true, Base: next(i), Extends: i%2 == 0}})
		case "group":
			ref := &smodel.Particle{Kind: "group", Ref: next(i).Name, Min: i % 2, Max: 1}
			p := &smodel.Particle{Kind: "sequence", Min: 1, Max: 1, Parts: []*smodel.Particle{ref}}
			if c.Deep {
				p = &smodel.Particle{Kind: "choice", Min: 1, Max: 1, Parts: []*smodel.Particle{p}}
			}
			sc(i).Groups = append(sc(i).Groups, &smodel.Group{Name: name(i).Local, Content: p})
		case "attributeGroup":
			sc(i).AttrGroups = append(sc(i).AttrGroups, &smodel.AttrGroup{Name: name(i).Local, Attrs: []smodel.AttrUse{{Kind: "group", Ref: next(i).Name}}})
		}
	}
	return s
}

func checkCircle(c circleCase, r *prop.Rec) error {
	x := smodel.Render(c.set(), c.Style)
	if _, err := xsd.Parse(clone(x.Docs)...); err == nil {
		return fmt.Errorf("a circle of %d (%s) was accepted\n%s", c.Len, c.Kind, show(x.Docs))
	}
	r.Nontrivial(true)
	r.Label("circle: " + c.Kind)
	r.LabelIf(c.Spaces > 1 && c.Len > 1, "circle through several namespaces")
	return nil
}

func init() {
	prop.Register("C11", "resolved", "more than one reference to a declared type", genSchema, checkResolved, prop.Counts(3000, 80000))
	prop.Register("C11", "broken reference", "a reference was broken", genBroken, checkBroken, prop.Counts(3000, 80000))
	prop.Register("C11", "circle", "the definitions are circular", genCircle, checkCircle, prop.Counts(1500, 20000))
}
