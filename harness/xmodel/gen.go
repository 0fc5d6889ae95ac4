package xmodel

import (
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"pgregory.net/rapid"
)

var (
	Locals   = []string{"a", "b", "c", "A", "item", "x1", "d-e", "f.g", "_h", "é", "名前"}
	AttrLoc  = []string{"id", "k", "type", "n1", "ID", "b-c", "ü"}
	Prefixes = []string{"", "a", "b", "p", "q1", "ns-x"}
	URIs     = []string{"urn:x", "urn:y", "http://example.com/z", "http://example.com/?a=1&b=2", "urn:é", "u"}
)

// Style limits what is generated.
type Style struct {
	MaxDepth, MaxKids, MaxNodes int
	NoMixed                     bool // no text next to sub-elements (white space stays)
	NoComments                  bool
	ASCII                       bool // only characters every charset has
	Latin                       bool // characters of ISO-8859-1 only
	Alphabet                    []string
	NoDeclNS                    bool // namespace-free documents
	NoPI                        bool
	NoDefaultNS                 bool
}

type gen struct {
	t     *rapid.T
	s     Style
	nodes int
}

// Gen draws a document.
func Gen(t *rapid.T, s Style) Doc {
	if s.MaxDepth == 0 {
		s.MaxDepth = 5
	}
	if s.MaxKids == 0 {
		s.MaxKids = 4
	}
	if s.MaxNodes == 0 {
		s.MaxNodes = 30
	}
	g := &gen{t: t, s: s}
	var d Doc
	if prop.Chance(t, 4) {
		d.Decl = prop.Pick(t, `<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version='1.0' encoding='utf-8' standalone='yes' ?>`)
	}
	if prop.Chance(t, 4) {
		for n := prop.Range(t, 1, 3); n > 0; n-- {
			switch k := prop.Int(t, 4); {
			case k == 0:
				d.Prolog = append(d.Prolog, Item{Kind: Text, Raw: prop.Pick(t, "\n", " ", "\r\n\t")})
			case k == 1:
				d.Prolog = append(d.Prolog, Item{Kind: Comment, Text: g.comment()})
			case k == 2:
				d.Prolog = append(d.Prolog, Item{Kind: PI, Text: "pi-target some data"})
			default:
				has := false
				for _, it := range d.Prolog {
					has = has || it.Kind == Other
				}
				if !has {
					d.Prolog = append(d.Prolog, Item{Kind: Other, Raw: prop.Pick(t, "<!DOCTYPE r>", "<!DOCTYPE r [ <!ELEMENT a (b|c)*> ]>", `<!DOCTYPE r PUBLIC "-//X//Y" "http://x/">`)})
				}
			}
		}
	}
	d.Root = g.node(map[string]string{"xml": XMLNS}, 0)
	if prop.Chance(t, 2) {
		d.Epilog = append(d.Epilog, Item{Kind: Comment, Text: g.comment()}, Item{Kind: Text, Raw: "\n"})
	}
	return d
}

func (g *gen) comment() string {
	return prop.Pick(g.t, " note ", "", "<a>not an element</a>", " & < > ' \" ", "x\ny")
}

// local draws an element name.
func (g *gen) local() string {
	l := Locals
	if g.s.ASCII {
		l = l[:9]
	} else if g.s.Latin {
		l = l[:10]
	}
	return prop.Pick(g.t, l...)
}

func (g *gen) uri() string {
	u := URIs
	if g.s.ASCII {
		u = u[:4]
	}
	return prop.Pick(g.t, u...)
}

func (g *gen) node(outer map[string]string, depth int) *Node {
	t := g.t
	g.nodes++
	n := &Node{Local: g.local()}
	scope := map[string]string{}
	for k, v := range outer {
		scope[k] = v
	}
	if !g.s.NoDeclNS {
		k := 0
		if depth == 0 {
			k = prop.Int(t, 4)
		} else if prop.Chance(t, 5) {
			k = prop.Range(t, 1, 2)
		}
		seen := map[string]bool{}
		for ; k > 0; k-- {
			p := prop.Pick(t, Prefixes...)
			if seen[p] || p == "" && g.s.NoDefaultNS {
				continue
			}
			seen[p] = true
			u := g.uri()
			if p == "" && prop.Chance(t, 4) {
				u = ""
			}
			scope[p] = u
			n.Attrs = append(n.Attrs, Attr{NS: true, Prefix: p, Value: u, Raw: Escape(u), Quote: g.quote()})
		}
	}
	n.Prefix = g.prefix(scope, true)
	switch {
	case g.s.NoDeclNS || !prop.Chance(t, 1):
	case prop.Chance(t, 3):
		n.Prefix = "xml"
	case prop.Chance(t, 5):
		n.Local = "xml"
	default: // allowed, and needless
		n.Attrs = append(n.Attrs, Attr{NS: true, Prefix: "xml", Value: XMLNS, Raw: XMLNS})
	}
	// ordinary attributes, unique by expanded name
	type key struct{ ns, l string }
	used := map[key]bool{}
	for k := prop.Int(t, 4); k > 0; k-- {
		a := Attr{Prefix: g.prefix(scope, false)}
		al := AttrLoc
		if g.s.ASCII {
			al = al[:6]
		}
		a.Local = prop.Pick(t, al...)
		if a.Prefix != "" && prop.Chance(t, 1) {
			a.Local = prop.Pick(t, "xmlns", "xml")
		}
		if prop.Chance(t, 1) {
			a.Prefix, a.Local = "xml", prop.Pick(t, "lang", "space", "id")
		}
		ky := key{"", a.Local}
		if a.Prefix != "" {
			ky.ns = scope[a.Prefix]
		}
		if used[ky] {
			continue
		}
		used[ky] = true
		a.Value, a.Raw, a.Quote = g.attrValue()
		if prop.Chance(t, 1) {
			a.Pre = prop.Pick(t, " ", "\n ", "\t")
		}
		n.Attrs = append(n.Attrs, a)
	}
	if len(n.Attrs) > 1 && prop.Chance(t, 4) { // declarations after use
		i, j := prop.Int(t, len(n.Attrs)), prop.Int(t, len(n.Attrs))
		n.Attrs[i], n.Attrs[j] = n.Attrs[j], n.Attrs[i]
	}
	if prop.Chance(t, 1) {
		n.TagSpace = prop.Pick(t, " ", "\n")
	}
	kids := 0
	if depth < g.s.MaxDepth && g.nodes < g.s.MaxNodes {
		kids = prop.Int(t, g.s.MaxKids+1)
	}
	if kids == 0 {
		switch prop.Int(t, 4) {
		case 0: // empty
			n.SelfClose = prop.Chance(t, 8)
		case 1, 2:
			n.Items = append(n.Items, g.text(false))
		default:
			for k := prop.Range(t, 1, 3); k > 0; k-- {
				n.Items = append(n.Items, g.leafItem())
			}
		}
		return n
	}
	pretty := prop.Chance(t, 6)
	for i := 0; i < kids; i++ {
		if pretty {
			n.Items = append(n.Items, Item{Kind: Text, Text: "\n  ", Raw: "\n  "})
		}
		if prop.Chance(t, 2) {
			if !g.s.NoMixed && prop.Chance(t, 8) {
				n.Items = append(n.Items, g.text(false))
			} else if !g.s.NoComments {
				n.Items = append(n.Items, Item{Kind: Comment, Text: g.comment()})
			}
		}
		n.Items = append(n.Items, Item{Kind: Elem, Node: g.node(scope, depth+1)})
	}
	if pretty {
		n.Items = append(n.Items, Item{Kind: Text, Text: "\n", Raw: "\n"})
	}
	return n
}

func (g *gen) leafItem() Item {
	switch k := prop.Int(g.t, 5); {
	case k == 0:
		return Item{Kind: CData, Text: g.cdata()}
	case k == 1 && !g.s.NoComments:
		return Item{Kind: Comment, Text: g.comment()}
	case k == 2 && !g.s.NoPI && !g.s.NoComments:
		return Item{Kind: PI, Text: "target x='1'"}
	}
	return g.text(false)
}

func (g *gen) cdata() string {
	return prop.Pick(g.t, "raw", "<not><a>tag", "a & b", "]]", "&amp;", " ", "x > y")
}

func (g *gen) quote() string {
	if prop.Chance(g.t, 4) {
		return "'"
	}
	return ""
}

// prefix picks a usable prefix in scope.
func (g *gen) prefix(scope map[string]string, elem bool) string {
	var ps []string
	for _, p := range Prefixes {
		if u, ok := scope[p]; p != "" && ok && u != "" {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 || !prop.Chance(g.t, 7) {
		return ""
	}
	return prop.Pick(g.t, ps...)
}

// piece is a text fragment and one way of writing it.
type piece struct{ text, raw string }

var pieces = []piece{
	{"a", "a"}, {"word", "word"}, {" ", " "}, {"42", "42"}, {"x y", "x y"},
	{"&", "&amp;"}, {"<", "&lt;"}, {">", "&gt;"}, {">", ">"}, {"\"", "&quot;"}, {"'", "&apos;"},
	{"A", "&#65;"}, {"\n", "&#10;"}, {"\t", "&#x9;"}, {"\r", "&#xD;"}, {"é", "&#xe9;"},
	{"\"", "\""}, {"'", "'"}, {"p:name", "p:name"}, {"]", "]"},
	{"é", "é"}, {"ü€"[:2], "ü"}, {"日本", "日本"}, {"😀", "😀"},
}

func (g *gen) pieces() []piece {
	switch {
	case g.s.Alphabet != nil:
		out := append([]piece{}, pieces[:20]...)
		for _, a := range g.s.Alphabet {
			out = append(out, piece{a, a})
		}
		return out
	case g.s.ASCII:
		return pieces[:20]
	case g.s.Latin:
		return pieces[:22]
	}
	return pieces
}

func (g *gen) text(attr bool) Item {
	ps := g.pieces()
	var text, raw strings.Builder
	for k := prop.Int(g.t, 5); k >= 0; k-- {
		p := prop.Pick(g.t, ps...)
		if p.raw == ">" && (raw.Len() == 0 || strings.HasSuffix(raw.String(), "]")) {
			continue // "]]>" may not appear in text
		}
		text.WriteString(p.text)
		raw.WriteString(p.raw)
	}
	if !attr && prop.Chance(g.t, 3) {
		text.WriteString("\n")
		raw.WriteString("\n")
	}
	return Item{Kind: Text, Text: text.String(), Raw: raw.String()}
}

func (g *gen) attrValue() (val, raw, quote string) {
	it := g.text(true)
	quote = g.quote()
	q := quote
	if q == "" {
		q = `"`
	}
	raw = it.Raw
	if q == `"` {
		raw = strings.ReplaceAll(raw, `"`, "&#34;")
	} else {
		raw = strings.ReplaceAll(raw, `'`, "&#39;")
	}
	if prop.Chance(g.t, 2) {
		return "", "", quote
	}
	return it.Text, raw, quote
}

// String summarises the document for messages.
func (d Doc) String() string { return fmt.Sprintf("%s", d.Render().Src) }
