package smodel

// Link is an import of one document by another. Loc "" leaves the location
// out.
type Link struct {
	From, To int
	Loc      string
	At       int // which of the schema elements has it
}

// RenderLinked writes the set with the given imports and includes between its
// documents instead of those Render writes. links is told how many documents
// there are.
func RenderLinked(set *Set, st Style, links func(docs int) []Link) *Rendered {
	return render(set, st, func(roots []*node) {
		schemas := make([][]*node, len(roots))
		for i, r := range roots {
			if r.name == X("schema") {
				schemas[i] = []*node{r}
			}
			for _, k := range r.kids {
				for _, s := range k.kids {
					if k.name.Local == "types" && s.name == X("schema") {
						schemas[i] = append(schemas[i], s)
					}
				}
			}
			for _, s := range schemas[i] {
				var keep []*node
				for _, k := range s.kids {
					if k.name == X("include") {
						continue
					}
					if k.name == X("import") {
						var as []nattr
						for _, a := range k.attrs {
							if a.name != "schemaLocation" {
								as = append(as, a)
							}
						}
						k.attrs = as
					}
					keep = append(keep, k)
				}
				s.kids = keep
			}
		}
		for _, l := range links(len(roots)) {
			s := schemas[l.From][l.At%len(schemas[l.From])]
			to := schemas[l.To][0]
			var n *node
			if ns := attrOf(s, "targetNamespace"); ns == attrOf(to, "targetNamespace") {
				n = xs("include").set("schemaLocation", l.Loc)
			} else {
				n = xs("import")
				if t := attrOf(to, "targetNamespace"); t != "" {
					n.set("namespace", t)
				}
				if l.Loc != "" {
					n.set("schemaLocation", l.Loc)
				}
			}
			at := 0
			if l.At%2 == 1 {
				for at < len(s.kids) && (s.kids[at].name == X("import") || s.kids[at].name == X("include")) {
					at++
				}
			}
			s.kids = append(s.kids[:at:at], append([]*node{n}, s.kids[at:]...)...)
		}
	})
}

func attrOf(n *node, name string) string {
	for _, a := range n.attrs {
		if a.name == name {
			return a.value
		}
	}
	return ""
}
