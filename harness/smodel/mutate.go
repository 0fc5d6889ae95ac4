package smodel

import (
	"strings"

	"aqwari.net/xml/verif/prop"
	"pgregory.net/rapid"
)

// Mut is a structural change to a rendered document: A and B choose elements,
// V a value.
type Mut struct{ Op, A, B, V int }

const mutOps = 12

func GenMuts(t *rapid.T, lo, hi int) []Mut {
	var out []Mut
	for k := prop.Range(t, lo, hi); k > 0; k-- {
		out = append(out, Mut{prop.Int(t, mutOps), prop.Int(t, 1<<12), prop.Int(t, 1<<12), prop.Int(t, 1<<12)})
	}
	return out
}

var mutNames = []string{"element", "attribute", "complexType", "simpleType", "sequence", "choice", "all", "group", "attributeGroup",
	"any", "anyAttribute", "restriction", "extension", "list", "union", "complexContent", "simpleContent", "annotation", "documentation",
	"enumeration", "pattern", "minInclusive", "maxExclusive", "length", "fractionDigits", "schema", "import", "include", "key", "notation",
	"message", "part", "portType", "operation", "input", "output", "binding", "service", "port", "types", "definitions"}

var mutAttrs = []string{"name", "type", "ref", "base", "itemType", "memberTypes", "minOccurs", "maxOccurs", "use", "default", "fixed",
	"abstract", "mixed", "nillable", "value", "targetNamespace", "form", "_isAnonymous", "_targetNamespace", "message", "element", "binding", "verb"}

var mutValues = []string{"", " ", "0", "-1", "3", "unbounded", "true", "maybe", "1e999", "99999999999999999999", "nope", "a", "b", "_anon1", "_self",
	"no:such", ":", "a:b:c", "xmlns:a", "xml:lang", "[", "(?", "2001-02-30", "2001-02-03T04:05:06Z", "required", "\x09\n", "ü", strings.Repeat("x", 300)}

func mutate(roots []*node, muts []Mut) {
	type place struct {
		n, parent *node
		at        int
	}
	for _, m := range muts {
		var all []place
		var walk func(n, parent *node, at int)
		walk = func(n, parent *node, at int) {
			all = append(all, place{n, parent, at})
			for i, k := range n.kids {
				walk(k, n, i)
			}
		}
		for _, r := range roots {
			walk(r, nil, 0)
		}
		if len(all) > 4000 {
			return
		}
		a, b := all[m.A%len(all)], all[m.B%len(all)]
		insert := func(p *node, i int, n *node) {
			p.kids = append(p.kids[:i:i], append([]*node{n}, p.kids[i:]...)...)
		}
		value := func() string { return mutValues[m.V%len(mutValues)] }
		switch m.Op {
		case 0: // delete
			if a.parent != nil {
				a.parent.kids = append(a.parent.kids[:a.at:a.at], a.parent.kids[a.at+1:]...)
			}
		case 1: // duplicate
			if a.parent != nil {
				insert(a.parent, a.at, copyNode(a.n))
			}
		case 2: // copy elsewhere
			insert(a.n, m.V%(len(a.n.kids)+1), copyNode(b.n))
		case 3: // rename
			a.n.name.Local = mutNames[m.V%len(mutNames)]
		case 4: // another namespace
			a.n.name.Space = []string{XSD, "", Ext, WSDL, SOAP}[m.V%5]
		case 5: // delete an attribute
			if k := len(a.n.attrs); k > 0 {
				i := m.V % k
				a.n.attrs = append(a.n.attrs[:i:i], a.n.attrs[i+1:]...)
			}
		case 6: // set an attribute to something
			setAttr(a.n, nattr{name: mutAttrs[m.B%len(mutAttrs)], value: value()})
		case 7: // another value for an attribute
			if k := len(a.n.attrs); k > 0 && a.n.attrs[m.B%k].ns == "" {
				setAttr(a.n, nattr{name: a.n.attrs[m.B%k].name, value: value()})
			}
		case 8: // copy an attribute
			if k := len(b.n.attrs); k > 0 {
				setAttr(a.n, b.n.attrs[m.V%k])
			}
		case 9: // copy a value to another attribute
			if k := len(b.n.attrs); k > 0 {
				v := b.n.attrs[m.V%k]
				v.name, v.ns = mutAttrs[m.V/7%len(mutAttrs)], ""
				setAttr(a.n, v)
			}
		case 10: // text
			a.n.text = value()
		case 11: // refer to a declaration by its name
			for _, at := range b.n.attrs {
				if at.name == "name" && at.ns == "" {
					for k := range all {
						r := all[(m.V+k)%len(all)].n
						for i := range r.attrs {
							if len(r.attrs[i].qnames) == 1 && r.attrs[i].ns == "" {
								n := r.attrs[i].qnames[0]
								if m.A%2 == 0 {
									n.Space = targetNS(roots, b.n)
								}
								n.Local = at.value
								r.attrs[i].qnames = []QN{n}
								return
							}
						}
					}
				}
			}
		}
	}
}

// targetNS is the target namespace of the schema n is in.
func targetNS(roots []*node, n *node) (ns string) {
	var walk func(r *node, cur string) bool
	walk = func(r *node, cur string) bool {
		if r.name == X("schema") {
			cur = ""
			for _, a := range r.attrs {
				if a.name == "targetNamespace" {
					cur = a.value
				}
			}
		}
		if r == n {
			ns = cur
			return true
		}
		for _, k := range r.kids {
			if walk(k, cur) {
				return true
			}
		}
		return false
	}
	for _, r := range roots {
		if walk(r, "") {
			break
		}
	}
	return ns
}

func setAttr(n *node, a nattr) {
	for i := range n.attrs {
		if n.attrs[i].name == a.name && n.attrs[i].ns == a.ns {
			n.attrs[i] = a
			return
		}
	}
	n.attrs = append(n.attrs, a)
}

func copyNode(n *node) *node {
	c := *n
	c.attrs = append([]nattr(nil), n.attrs...)
	c.kids = nil
	for _, k := range n.kids {
		c.kids = append(c.kids, copyNode(k))
	}
	return &c
}
