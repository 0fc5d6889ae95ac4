package smodel

// Invalid is a value that must be numeric or boolean and is not.
type Invalid struct {
	Elem, Attr, Value string
	Place             string // name of the type it is in, if it has one of its own
}

var notInt = []string{"x", "1.5", "1e3", "12abc", "--1", "1 2", "0x10", "1_000", "0b1", "\u0663", "many", "true", "Unbounded"}
var notLength = append([]string{"unbounded"}, notInt...)
var notNumber = []string{"x", "12abc", "--1", "1 2", "1,5", "true", "1.2.3"}
var notBool = []string{"x", "2", "TRUE", "yes", "tru", "false true", "-1"}

// RenderInvalid writes the set with one such value in a place chosen by pick.
// It is nil if there is no such place.
func RenderInvalid(set *Set, st Style, pick, val int) (out *Rendered, inv *Invalid) {
	out = render(set, st, func(roots []*node) {
		type place struct {
			n        *node
			attr     string
			values   []string
			typename string
		}
		var all []place
		var walk func(n, parent *node, typename string, choice bool)
		walk = func(n, parent *node, typename string, choice bool) {
			if n.name.Space != XSD {
				for _, k := range n.kids {
					if n.name.Space == WSDL {
						walk(k, n, typename, choice)
					}
				}
				return
			}
			attr := func(name string) string {
				for _, a := range n.attrs {
					if a.name == name && a.ns == "" {
						return a.value
					}
				}
				return ""
			}
			has := func(name string) bool {
				for _, a := range n.attrs {
					if a.name == name && a.ns == "" {
						return true
					}
				}
				return false
			}
			top := parent != nil && parent.name.Local == "schema"
			add := func(name string, values []string) {
				all = append(all, place{n, name, values, typename})
			}
			switch n.name.Local {
			case "group", "attributeGroup":
				if top {
					return // not part of the parsed form if nothing refers to it
				}
			case "annotation":
				return
			case "attribute":
				if top {
					return
				}
			case "complexType", "simpleType":
				typename = attr("name")
				if n.name.Local == "complexType" {
					add("abstract", notBool)
					simple := false
					for _, k := range n.kids {
						simple = simple || k.name.Local == "simpleContent"
					}
					if !simple {
						add("mixed", notBool)
					}
				}
			case "complexContent":
				add("mixed", notBool)
			case "element":
				if !has("ref") {
					add("nillable", notBool)
					add("abstract", notBool)
				}
				if !top && !choice {
					add("minOccurs", notInt)
					add("maxOccurs", notInt)
				} else if !top {
					add("maxOccurs", notInt)
				}
			case "any", "sequence", "choice":
				if !choice {
					add("minOccurs", notInt)
				}
				add("maxOccurs", notInt)
			case "length", "minLength", "maxLength", "totalDigits", "fractionDigits":
				add("value", notLength)
			case "minInclusive", "minExclusive", "maxInclusive", "maxExclusive":
				add("value", notNumber)
			case "simpleContent":
				// its facets are not recorded
				for _, k := range n.kids {
					for _, f := range k.kids {
						if f.name.Local == "attribute" {
							walk(f, k, typename, false)
						}
					}
				}
				return
			}
			for _, k := range n.kids {
				walk(k, n, typename, choice && n.name.Local != "element" || n.name.Local == "choice")
			}
		}
		for _, r := range roots {
			walk(r, nil, "", false)
		}
		if len(all) == 0 {
			return
		}
		// choose among the kinds of places first: some are rare
		var kinds []string
		byKind := map[string][]place{}
		for _, p := range all {
			k := p.n.name.Local + " " + p.attr
			if byKind[k] == nil {
				kinds = append(kinds, k)
			}
			byKind[k] = append(byKind[k], p)
		}
		all = byKind[kinds[pick%len(kinds)]]
		p := all[pick/len(kinds)%len(all)]
		inv = &Invalid{p.n.name.Local, p.attr, p.values[val%len(p.values)], p.typename}
		setAttr(p.n, nattr{name: p.attr, value: inv.Value})
	})
	return out, inv
}
