package genc

import (
	"encoding/xml"
	"regexp"
	"strings"

	"aqwari.net/xml/verif/smodel"
)

// selection is the part of a set that declarations are generated for.
type selection struct {
	picked map[*smodel.Type]bool // selected by name
	needed map[*smodel.Type]bool // and what the declarations of those mention
	used   map[*smodel.Type]bool // and whatever they are made of
	hit    func(local string) bool
	anon   bool // anonymous types may be selected, by the names they are given
}

func (e *expect) must(r Res) bool { return e.sel == nil || e.sel.needed[r.Def] }

// may says whether a declaration may be for a type.
func (e *expect) may(d decl, ident string) bool {
	if e.sel == nil || e.sel.used[d.r.Def] {
		return true
	}
	return d.name.Local == "" && (e.sel.anon || e.sel.hit(ident))
}

// selects works out what the options select.
func (e *expect) selects() *selection {
	o := e.opt
	if o.NS == nil && o.Only == nil && o.OnlyPat == nil && o.Allow == nil {
		return nil
	}
	s := &selection{picked: map[*smodel.Type]bool{}, needed: map[*smodel.Type]bool{}, used: map[*smodel.Type]bool{}}
	s.anon = o.OnlyPat != nil
	var pat *regexp.Regexp
	if o.OnlyPat != nil {
		pat = regexp.MustCompile(strings.Join(o.OnlyPat, "|"))
	}
	s.hit = func(ident string) bool {
		for _, n := range o.Only {
			if n != "" && strings.HasPrefix(strings.ToLower(ident), strings.ToLower(o.ident(n))) {
				return true
			}
		}
		for _, n := range o.Allow {
			if n.Local != "" && strings.HasPrefix(strings.ToLower(ident), strings.ToLower(o.ident(n.Local))) {
				return true
			}
		}
		return false
	}
	in := func(ns string) bool { return o.NS == nil || has(o.NS, ns) }
	chosen := func(name xml.Name) bool {
		// Anonymous types of a namespace are, as long as that is all that counts.
		ok := name.Local != "" || o.Only == nil && o.OnlyPat == nil && o.Allow == nil
		if o.Only != nil {
			ok = ok && has(o.Only, name.Local)
		}
		if pat != nil {
			ok = ok && pat.MatchString(name.Local)
		}
		if o.Allow != nil {
			allowed := false
			for _, n := range o.Allow {
				allowed = allowed || n == name
			}
			ok = ok && allowed
		}
		return ok
	}
	for _, d := range e.declared(in) {
		if chosen(d.name) {
			s.picked[d.r.Def] = true
			e.need(e.eff(d.r), s)
			e.use(d.r, s)
		}
		// An anonymous type is selected by the name it is given, usually
		// that of the element or attribute.
		if d.name.Local == "" {
			for _, n := range []string{d.owner, "_anon1"} {
				if n != "" && chosen(xml.Name{Space: d.r.NS, Local: n}) {
					e.use(d.r, s)
				}
			}
		}
	}
	// What the elements of a namespace are of may be counted as its own.
	for i := range e.set.Schemas {
		sc := &e.set.Schemas[i]
		for _, el := range sc.Elems {
			if n := el.Type.Name; in(sc.NS) && n.Local != "" && chosen(n) {
				e.use(e.set.Resolve(el.Type, sc.NS, "anyType"), s)
			}
		}
	}
	return s
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// need marks what the declaration of a type mentions.
func (e *expect) need(r Res, s *selection) {
	if r.Def == nil || s.needed[r.Def] {
		return
	}
	s.needed[r.Def] = true
	if r.Def.Complex == nil {
		return
	}
	fs := e.fields(r)
	if item, _ := e.soapSlice(fs); item != nil && len(fs) == 0 {
		e.need(e.eff(item.typ), s)
	}
	for _, f := range fs {
		if !f.maybe {
			e.need(e.eff(f.typ), s)
		}
	}
}

// use marks everything a type is made of, whether or not it leaves a trace in
// the declaration.
func (e *expect) use(r Res, s *selection) {
	if r.Def == nil || s.used[r.Def] {
		return
	}
	s.used[r.Def] = true
	ref := func(x smodel.Ref, ns string) { e.use(e.set.Resolve(x, ns, "anyType"), s) }
	if t := r.Def.Simple; t != nil {
		ref(t.Base, r.NS)
		for _, m := range t.Members {
			ref(m, r.NS)
		}
		return
	}
	e.use(e.set.Base(r), s)
	for _, f := range e.set.Fields(r.Def.Complex.Content, r.NS) {
		for _, el := range f.Elems {
			ref(el.Type, f.NS)
		}
	}
	for _, a := range e.set.AttrFields(r.Def.Complex.Attrs, r.NS) {
		ref(a.Attr.Type, a.NS)
	}
}
