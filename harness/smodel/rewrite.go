package smodel

import (
	"encoding/json"
	"fmt"
	"sort"
)

// Clone copies a set.
func (s *Set) Clone() *Set {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	out := new(Set)
	if err := json.Unmarshal(b, out); err != nil {
		panic(err)
	}
	return out
}

// Visit calls the functions that are set for every part of a schema.
type Visit struct {
	Ref      func(r *Ref, where string) // where: element, attribute, base (of a complex type), restriction, list, union
	Type     func(t *Type)
	Particle func(p *Particle)
	Elem     func(e *Elem, global bool)
	Uses     func(us *[]AttrUse)
	Attr     func(a *Attr, global bool)
}

func (sc *Schema) Visit(v Visit) {
	var ref func(r *Ref, where string)
	var typ func(t *Type)
	var part func(p *Particle)
	var uses func(us *[]AttrUse)
	elem := func(e *Elem, global bool) {
		if v.Elem != nil {
			v.Elem(e, global)
		}
		ref(&e.Type, "element")
	}
	attr := func(a *Attr, global bool) {
		if v.Attr != nil {
			v.Attr(a, global)
		}
		ref(&a.Type, "attribute")
	}
	ref = func(r *Ref, where string) {
		if v.Ref != nil {
			v.Ref(r, where)
		}
		if r.Inline != nil {
			typ(r.Inline)
		}
	}
	typ = func(t *Type) {
		if v.Type != nil {
			v.Type(t)
		}
		if s := t.Simple; s != nil {
			if s.Derive != "union" {
				ref(&s.Base, s.Derive)
			}
			for i := range s.Members {
				ref(&s.Members[i], "union")
			}
		}
		if c := t.Complex; c != nil {
			ref(&c.Base, "base")
			if c.Narrow != nil {
				typ(c.Narrow)
			}
			part(c.Content)
			uses(&c.Attrs)
		}
	}
	part = func(p *Particle) {
		if p == nil {
			return
		}
		if v.Particle != nil {
			v.Particle(p)
		}
		if p.Elem != nil {
			elem(p.Elem, false)
		}
		for _, c := range p.Parts {
			part(c)
		}
	}
	uses = func(us *[]AttrUse) {
		if v.Uses != nil {
			v.Uses(us)
		}
		for _, u := range *us {
			if u.Attr != nil {
				attr(u.Attr, false)
			}
		}
	}
	for _, t := range sc.Types {
		typ(t)
	}
	for _, e := range sc.Elems {
		elem(e, true)
	}
	for _, a := range sc.Attrs {
		attr(a, true)
	}
	for _, g := range sc.Groups {
		part(g.Content)
	}
	for _, g := range sc.AttrGroups {
		uses(&g.Attrs)
	}
}

// reach says whether the definition leads back to the named type or element.
func (s *Set) reach(t Res, name QN, elem bool, seen map[interface{}]bool) bool {
	if t.Def == nil || seen[t.Def] {
		return false
	}
	seen[t.Def] = true
	follow := func(r Ref, ns string) bool {
		if r.Inline == nil && r.Name == name && !elem {
			return true
		}
		return s.reach(s.Resolve(r, ns, "anyType"), name, elem, seen)
	}
	if sm := t.Def.Simple; sm != nil {
		if sm.Derive != "union" && follow(sm.Base, t.NS) {
			return true
		}
		for _, m := range sm.Members {
			if follow(m, t.NS) {
				return true
			}
		}
		return false
	}
	c := t.Def.Complex
	if follow(c.Base, t.NS) {
		return true
	}
	var part func(p *Particle, ns string) bool
	part = func(p *Particle, ns string) bool {
		if p == nil {
			return false
		}
		switch p.Kind {
		case "element":
			return follow(p.Elem.Type, ns)
		case "ref":
			if elem && p.Ref == name {
				return true
			}
			return follow(s.Elem(p.Ref).Type, p.Ref.Space)
		case "group":
			return part(s.Group(p.Ref).Content, p.Ref.Space)
		}
		for _, c := range p.Parts {
			if part(c, ns) {
				return true
			}
		}
		return false
	}
	if part(c.Content, t.NS) {
		return true
	}
	for _, f := range s.AttrFields(c.Attrs, t.NS) {
		if follow(f.Attr.Type, f.NS) {
			return true
		}
	}
	return false
}

// site is one place where a set can be rewritten without changing what its
// types are.
type site struct {
	kind string
	do   func()
}

// Rewrite applies rewrites chosen by ops to a copy of the set. Types that were
// named or put in place on the way are in transparent.
func Rewrite(set *Set, ops []int) (out *Set, transparent map[QN]bool, kinds []string) {
	out, transparent = set.Clone(), map[QN]bool{}
	for i, op := range ops {
		sites := out.sites(transparent, fmt.Sprintf("rw%d", i))
		if len(sites) == 0 {
			break
		}
		// choose the kind first, so that rare kinds get their share
		var ks []string
		by := map[string][]site{}
		for _, s := range sites {
			if by[s.kind] == nil {
				ks = append(ks, s.kind)
			}
			by[s.kind] = append(by[s.kind], s)
		}
		k := ks[op%len(ks)]
		l := by[k]
		l[(op/len(ks))%len(l)].do()
		kinds = append(kinds, k)
	}
	return out, transparent, kinds
}

func (s *Set) sites(transparent map[QN]bool, fresh string) []site {
	var out []site
	add := func(kind string, do func()) { out = append(out, site{kind, do}) }
	for i := range s.Schemas {
		sc := &s.Schemas[i]
		ns := sc.NS
		ref := func(r *Ref) {
			if r.Inline != nil {
				add("name a type", func() {
					t := r.Inline
					t.Name = fresh
					sc.Types = append(sc.Types, t)
					transparent[q(ns, fresh)] = true
					*r = Ref{Name: q(ns, fresh)}
				})
				return
			}
			if t := s.Type(r.Name); t != nil && r.Name.Space == ns && !s.reach(Res{Def: t, NS: ns}, r.Name, false, map[interface{}]bool{}) {
				add("put a type in place", func() {
					b, _ := json.Marshal(t)
					var c Type
					json.Unmarshal(b, &c)
					c.Name = ""
					transparent[r.Name] = true
					*r = Ref{Inline: &c}
				})
			}
		}
		sc.Visit(Visit{
			Ref: func(r *Ref, where string) {
				// (what a complex type is derived from must have a name)
				if where != "base" && where != "union" {
					ref(r)
				}
			},
			Type: func(t *Type) {
				if t.Simple == nil || t.Simple.Derive != "union" {
					return
				}
				// Members with a name come before the ones in place, so only
				// the ones in the middle can change sides.
				ms := t.Simple.Members
				sort.SliceStable(ms, func(i, j int) bool { return ms[i].Inline == nil && ms[j].Inline != nil })
				k := 0
				for k < len(ms) && ms[k].Inline == nil {
					k++
				}
				if k < len(ms) {
					ref(&ms[k])
				}
				if k > 0 {
					ref(&ms[k-1])
				}
			},
			Particle: func(p *Particle) {
				switch p.Kind {
				case "group":
					if p.Ref.Space == ns {
						add("put a group in place", func() {
							b, _ := json.Marshal(s.Group(p.Ref).Content)
							var c Particle
							json.Unmarshal(b, &c)
							if p.Min == 1 && p.Max == 1 {
								*p = c
							} else {
								*p = Particle{Kind: "sequence", Min: p.Min, Max: p.Max, Parts: []*Particle{&c}}
							}
						})
					}
				case "sequence", "choice":
					add("make a group", func() {
						c := *p
						c.Min, c.Max = 1, 1
						sc.Groups = append(sc.Groups, &Group{Name: fresh, Content: &c})
						*p = Particle{Kind: "group", Ref: q(ns, fresh), Min: p.Min, Max: p.Max}
					})
				case "ref":
					e := s.Elem(p.Ref)
					if p.Ref.Space == ns && QuirkSpace(e, ns) == ns && (e.Type.Inline == nil || !s.reach(Res{Def: e.Type.Inline, NS: ns}, p.Ref, true, map[interface{}]bool{})) {
						add("put an element in place", func() {
							b, _ := json.Marshal(e)
							c := new(Elem)
							json.Unmarshal(b, c)
							*p = Particle{Kind: "element", Elem: c, Min: p.Min, Max: p.Max}
						})
					}
				case "element":
					if QuirkSpace(p.Elem, ns) == ns && !hasQName(p.Elem.Foreign) && s.Elem(q(ns, p.Elem.Name)) == nil {
						add("refer to an element", func() {
							sc.Elems = append(sc.Elems, p.Elem)
							*p = Particle{Kind: "ref", Ref: q(ns, p.Elem.Name), Min: p.Min, Max: p.Max}
						})
					}
				}
			},
			Uses: func(us *[]AttrUse) {
				if len(*us) > 0 {
					add("make an attribute group", func() {
						sc.AttrGroups = append(sc.AttrGroups, &AttrGroup{Name: fresh, Attrs: *us})
						*us = []AttrUse{{Kind: "group", Ref: q(ns, fresh)}}
					})
				}
				for i := range *us {
					i, u := i, (*us)[i]
					switch u.Kind {
					case "group":
						if u.Ref.Space == ns {
							add("put an attribute group in place", func() {
								b, _ := json.Marshal(s.AttrGroup(u.Ref).Attrs)
								var c []AttrUse
								json.Unmarshal(b, &c)
								var l []AttrUse
								l = append(l, (*us)[:i]...)
								l = append(l, c...)
								*us = append(l, (*us)[i+1:]...)
							})
						}
					case "ref":
						if u.Ref.Space == ns && ns != "" && len(u.Foreign) == 0 {
							add("put an attribute in place", func() {
								b, _ := json.Marshal(s.Attr(u.Ref))
								c := new(Attr)
								json.Unmarshal(b, c)
								c.Qualified = true
								if u.Default != "" {
									c.Default = u.Default
								}
								(*us)[i] = AttrUse{Kind: "attr", Attr: c, Required: u.Required, Without: u.Without}
							})
						}
					case "attr":
						if u.Attr.Qualified && ns != "" && !hasQName(u.Attr.Foreign) && s.Attr(q(ns, u.Attr.Name)) == nil {
							add("refer to an attribute", func() {
								u.Attr.Qualified = false
								sc.Attrs = append(sc.Attrs, u.Attr)
								(*us)[i] = AttrUse{Kind: "ref", Ref: q(ns, u.Attr.Name), Required: u.Required, Without: u.Without}
							})
						}
					}
				}
			},
		})
	}
	return out
}

func hasQName(fs []Foreign) bool {
	for _, f := range fs {
		if f.QName.Local != "" {
			return true
		}
	}
	return false
}
