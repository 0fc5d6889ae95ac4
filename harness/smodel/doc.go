package smodel

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"strings"

	"aqwari.net/xml/verif/prop"
	"pgregory.net/rapid"
)

// Node is an element of a document that conforms to a schema.
type Node struct {
	Name  QN
	Attrs []Val   `json:",omitempty"`
	Kids  []*Node `json:",omitempty"`
	Text  string  `json:",omitempty"`
	Kind  string  `json:",omitempty"` // of the text, see ValueKind; "": no text
	// Names of elements that are absent here but that a Go struct cannot
	// leave out: those of complex types, and those a restriction dropped.
	Ghosts []QN `json:",omitempty"`
	// Names of child elements in the order that the schema demands, where it
	// is the same for all documents.
	Order []QN  `json:",omitempty"`
	Late  []Val `json:",omitempty"` // those of Order that are encoded with a method of their own
}

// Val is an attribute.
type Val struct {
	Name QN
	Text string
	Kind string
	Ref  bool `json:",omitempty"` // declared by a reference
}

// ValueKind names the value space of a simple type, or of simple content: a
// built-in, "list x" or "union".
func (s *Set) ValueKind(r Res) string {
	for r.Def != nil {
		if d := r.Def.Simple; d != nil {
			switch d.Derive {
			case "list":
				return "list " + s.ValueKind(s.Base(r))
			case "union":
				return "union"
			}
		}
		r = s.Base(r)
	}
	switch r.Builtin {
	case "NMTOKENS":
		return "list NMTOKEN"
	case "IDREFS":
		return "list IDREF"
	case "ENTITIES":
		return "list ENTITY"
	}
	return r.Builtin
}

// IsComplex says whether elements of the type have child elements or
// attributes in Go.
func (s *Set) IsComplex(r Res) bool { return r.Def != nil && r.Def.Complex != nil }

// GenValue draws a value of a kind. One that may be left out is not the zero
// value of its Go type.
func GenValue(t *rapid.T, kind string, optional bool) string {
	for try := 0; ; try++ {
		var v string
		switch {
		case strings.HasPrefix(kind, "list "):
			var ws []string
			for n := prop.Pick(t, 1, 0, 2, 3, 8); n > 0; n-- {
				w := GenValue(t, strings.TrimPrefix(kind, "list "), false)
				if strings.ContainsAny(w, " \t\n\r") {
					w = strings.Join(strings.Fields(w), "")
				}
				if w != "" {
					ws = append(ws, w)
				}
			}
			v = strings.Join(ws, prop.Pick(t, " ", " ", "  ", "\n"))
		case kind == "union":
			v = prop.Pick(t, "word", "1", "two words", "2001-01-01", "true")
		default:
			v = Lex(t, kind)
			if strings.HasPrefix(kind, "unsigned") {
				v = strings.TrimPrefix(v, "+")
			}
		}
		if !optional || !ZeroValue(kind, v) {
			if !ZeroTime(kind, v) {
				return v
			}
		}
		if try > 8 {
			switch {
			case strings.HasPrefix(kind, "list "):
				return GenValue(t, strings.TrimPrefix(kind, "list "), true)
			case kind == "boolean":
				return "true"
			case kind == "negativeInteger" || kind == "nonPositiveInteger":
				return "-1"
			case kind == "hexBinary":
				return "00ff"
			case kind == "base64Binary":
				return "AP8="
			case kind == "dateTime":
				return "2001-02-03T04:05:06Z"
			case kind == "date":
				return "2001-02-03"
			case kind == "gYear":
				return "2001"
			case kind == "gYearMonth":
				return "2001-02"
			case Family(kind) == "decimal" || Family(kind) == "float":
				return "1"
			}
			return "x"
		}
	}
}

// ZeroValue says whether a value is the zero value of the Go type for its kind.
func ZeroValue(kind, text string) bool {
	s := strings.TrimSpace(text)
	switch {
	case strings.HasPrefix(kind, "list "):
		return s == ""
	case kind == "union":
		return text == ""
	case kind == "boolean":
		return s == "false" || s == "0"
	case Family(kind) == "decimal" || Family(kind) == "float":
		return strings.Trim(s, "+-0.") == "" || strings.Trim(strings.SplitN(strings.ToLower(s), "e", 2)[0], "+-0.") == "" && strings.Contains(strings.ToLower(s), "e")
	case Family(kind) == "binary":
		return s == ""
	}
	return text == "" || ZeroTime(kind, text)
}

// ZeroTime says whether a value is the zero value of Go's time type.
func ZeroTime(kind, text string) bool {
	s := strings.TrimSpace(text)
	switch kind {
	case "date", "dateTime", "gYear", "gYearMonth":
		return strings.HasPrefix(s, "0001")
	}
	return false
}

// DocOpts bounds documents.
type DocOpts struct {
	MaxDepth int
	Noise    bool // white space around values, comments
}

type docGen struct {
	t   *rapid.T
	s   *Set
	o   DocOpts
	n   int
	bad bool
}

// GenDoc draws an element of the given name and type, nil if there is none
// within the bounds.
func (s *Set) GenDoc(t *rapid.T, r Res, name QN, o DocOpts) *Node {
	if s.usesQName(r, map[interface{}]bool{}) {
		return nil // K06
	}
	d := &docGen{t: t, s: s, o: o}
	n := d.element(r, name, false, 0)
	if d.bad {
		return nil
	}
	return n
}

// UsesQName says whether there is an xs:QName in a type.
func (s *Set) UsesQName(r Res) bool { return s.usesQName(r, map[interface{}]bool{}) }

// usesQName says whether there is an xs:QName in a type or in that of an
// element below.
func (s *Set) usesQName(r Res, seen map[interface{}]bool) bool {
	if r.Def != nil {
		if seen[r.Def] {
			return false
		}
		seen[r.Def] = true
	}
	if !s.IsComplex(r) {
		return strings.TrimPrefix(s.ValueKind(r), "list ") == "QName"
	}
	c := r.Def.Complex
	for _, a := range s.AttrFields(c.Attrs, r.NS) {
		if s.usesQName(s.Resolve(a.Attr.Type, a.NS, "anySimpleType"), seen) {
			return true
		}
	}
	for _, f := range s.Fields(c.Content, r.NS) {
		for _, e := range f.Elems {
			if s.usesQName(s.Resolve(e.Type, f.NS, "anyType"), seen) {
				return true
			}
		}
	}
	return s.usesQName(s.Base(r), seen)
}

func (d *docGen) value(kind string, optional bool) string {
	v := GenValue(d.t, kind, optional)
	if d.o.Noise && prop.Chance(d.t, 2) {
		switch {
		case strings.HasPrefix(kind, "list "):
			v = " " + v
		case Family(kind) == "string" || Family(kind) == "any" || Family(kind) == "qname" || kind == "union" || kind == "duration":
		default:
			v = prop.Pick(d.t, " ", "\n\t", "") + v + prop.Pick(d.t, " ", "\n", "")
		}
	}
	return v
}

func (d *docGen) element(r Res, name QN, optional bool, depth int) *Node {
	n := &Node{Name: name}
	d.n++
	if depth > 2*d.o.MaxDepth || d.n > 400 {
		d.bad = true
		return n
	}
	if r.Def == nil || r.Def.Simple != nil {
		n.Kind = d.s.ValueKind(r)
		n.Text = d.value(n.Kind, optional)
		return n
	}
	if r.Def.Complex.Abstract {
		d.bad = true
		return n
	}
	attrs := map[QN]bool{}
	fields := map[QN]Field{}
	dropped := map[QN]bool{}
	single := map[QN]bool{}
	var parts []*Particle
	var spaces []string
	restricted := false
	b := r
	for ; b.Def != nil && b.Def.Complex != nil; b = d.s.Base(b) {
		c := b.Def.Complex
		for _, a := range d.s.AttrFields(c.Attrs, b.NS) {
			if _, ok := attrs[a.Name]; ok {
				continue
			}
			attrs[a.Name] = a.Required
			if !a.Required && prop.Chance(d.t, 4) {
				continue
			}
			k := d.s.ValueKind(d.s.Resolve(a.Attr.Type, a.NS, "anySimpleType"))
			n.Attrs = append(n.Attrs, Val{Name: a.Name, Kind: k, Text: d.value(k, !a.Required), Ref: a.Name.Space != "" && !a.Attr.Qualified})
		}
		for _, f := range d.s.Fields(c.Content, b.NS) {
			if _, ok := fields[f.Name]; !ok {
				fields[f.Name] = f
			}
			if restricted {
				dropped[f.Name] = true
			}
			single[f.Name] = single[f.Name] || f.Max == 0 || f.Max == 1
		}
		if !restricted && c.Content != nil {
			parts = append([]*Particle{c.Content}, parts...)
			spaces = append([]string{b.NS}, spaces...)
		}
		restricted = restricted || !c.Extends
	}
	// encoding/xml takes an attribute in a namespace for one of that name in
	// no namespace, too.
	locals := map[string]int{}
	for a := range attrs {
		locals[a.Local]++
	}
	for a, required := range attrs {
		d.bad = d.bad || required && a.Space != "" && locals[a.Local] > 1
	}
	for i := 0; i < len(n.Attrs); i++ {
		if a := n.Attrs[i]; a.Name.Space != "" && locals[a.Name.Local] > 1 {
			n.Attrs = append(n.Attrs[:i:i], n.Attrs[i+1:]...)
			i--
		}
	}
	if b.Def != nil || b.Builtin != "anyType" {
		n.Kind = d.s.ValueKind(b)
		n.Text = d.value(n.Kind, optional)
		return n
	}
	seen := map[QN]bool{}
	fixed := true
	for i, p := range parts {
		fixed = fixed && d.s.order(p, spaces[i], seen, n)
	}
	if !fixed || len(n.Order) < 2 {
		n.Order, n.Late = nil, nil
	}
	// What may be left out depends on the type as a whole.
	may := map[QN]bool{}
	for q, f := range fields {
		may[q] = f.Min == 0 || f.Choice || dropped[q]
		for _, e := range f.Elems {
			may[q] = may[q] || e.Default != "" || e.Nillable
		}
		// Items are not left out.
		same := true
		for _, e := range f.Elems {
			same = same && e.Default == f.Elems[0].Default
		}
		if !single[q] && !dropped[q] && same {
			may[q] = false
		}
	}
	for i, p := range parts {
		n.Kids = append(n.Kids, d.particle(p, spaces[i], may, depth)...)
		if d.bad {
			return n
		}
	}
	have := map[QN]bool{}
	for _, k := range n.Kids {
		have[k.Name] = true
	}
	var names []QN
	for q := range fields {
		names = append(names, q)
	}
	sortQNs(names)
	for _, q := range names {
		f := fields[q]
		if !have[q] && !f.Wild && (dropped[q] || d.s.IsComplex(d.s.Resolve(f.Elem.Type, f.NS, "anyType"))) {
			n.Ghosts = append(n.Ghosts, q)
		}
	}
	return n
}

// order lists the elements of a content model in the order in which they are
// declared. It says whether that is an order that suits every document.
func (s *Set) order(p *Particle, ns string, seen map[QN]bool, n *Node) bool {
	switch p.Kind {
	case "element", "ref":
		name, e := p.Ref, p.Elem
		if p.Kind == "element" {
			name = q(ns, p.Elem.Name)
		} else {
			e = s.Elem(p.Ref)
		}
		if seen[name] {
			return false
		}
		seen[name] = true
		r := s.Resolve(e.Type, name.Space, "anyType")
		// Elements of complex types may be given the Go type of their content.
		if kind := s.ValueKind(r); Family(kind) == "binary" || Family(kind) == "date" || Family(kind) == "time" && kind != "duration" || strings.HasPrefix(kind, "list ") {
			if r.Def != nil {
				return true // not determined
			}
			n.Late = append(n.Late, Val{Name: name, Kind: kind})
		}
		n.Order = append(n.Order, name)
		return true
	case "group":
		return p.Max == 1 && s.order(s.Group(p.Ref).Content, p.Ref.Space, seen, n)
	case "sequence", "choice", "all":
		for _, c := range p.Parts {
			if !s.order(c, ns, seen, n) {
				return false
			}
		}
		return p.Max == 1
	}
	return false
}

// NoLate drops the allowance for elements that come late.
func (n *Node) NoLate() {
	n.Late = nil
	for _, k := range n.Kids {
		k.NoLate()
	}
}

// NoGhosts drops the allowance for absent elements.
func (n *Node) NoGhosts() {
	n.Ghosts = nil
	for _, k := range n.Kids {
		k.NoGhosts()
	}
}

func sortQNs(q []QN) {
	for i := range q {
		for j := i; j > 0 && (q[j].Space+" "+q[j].Local) < (q[j-1].Space+" "+q[j-1].Local); j-- {
			q[j], q[j-1] = q[j-1], q[j]
		}
	}
}

func (d *docGen) particle(p *Particle, ns string, may map[QN]bool, depth int) []*Node {
	reps := p.Min
	if depth < d.o.MaxDepth {
		max := p.Max
		if max < 0 || max > p.Min+3 {
			max = p.Min + 3
		}
		if max > p.Min {
			reps = prop.Range(d.t, p.Min, max)
		}
	}
	var out []*Node
	for ; reps > 0 && !d.bad; reps-- {
		switch p.Kind {
		case "element", "ref":
			e, sp := p.Elem, ns
			if p.Kind == "ref" {
				e, sp = d.s.Elem(p.Ref), p.Ref.Space
			}
			if e.Abstract {
				d.bad = true
				return nil
			}
			name := q(sp, e.Name)
			out = append(out, d.element(d.s.Resolve(e.Type, sp, "anyType"), name, may[name], depth+1))
		case "group":
			out = append(out, d.particle(d.s.Group(p.Ref).Content, p.Ref.Space, may, depth)...)
		case "sequence":
			for _, c := range p.Parts {
				out = append(out, d.particle(c, ns, may, depth)...)
			}
		case "all":
			for _, i := range prop.Perm(d.t, len(p.Parts)) {
				out = append(out, d.particle(p.Parts[i], ns, may, depth)...)
			}
		case "choice":
			if len(p.Parts) == 0 {
				continue
			}
			// Any alternative will do that can be had.
			n, ok := d.n, false
			for _, i := range prop.Perm(d.t, len(p.Parts)) {
				d.n = n
				x := d.particle(p.Parts[i], ns, may, depth)
				if !d.bad {
					out = append(out, x...)
					ok = true
					break
				}
				d.bad = false
			}
			d.bad = !ok
		default:
			d.bad = true // wildcards
		}
	}
	return out
}

// Write gives a document. Style chooses prefixes.
func (n *Node) Write(style int) string {
	var b bytes.Buffer
	w := &docWriter{b: &b, style: style}
	w.prefixes = map[string]string{}
	if style%2 == 1 {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	w.collect(n)
	w.node(n, "\x00", true)
	return b.String()
}

type docWriter struct {
	b        *bytes.Buffer
	style    int
	prefixes map[string]string
	order    []string
}

func (w *docWriter) collect(n *Node) {
	add := func(ns string) {
		if ns != "" && w.prefixes[ns] == "" {
			w.prefixes[ns] = fmt.Sprintf("p%d", len(w.prefixes))
			w.order = append(w.order, ns)
		}
	}
	add(n.Name.Space)
	for _, a := range n.Attrs {
		add(a.Name.Space)
	}
	for _, k := range n.Kids {
		w.collect(k)
	}
}

// node writes an element where the default namespace is def (\x00: none has
// been declared).
func (w *docWriter) node(n *Node, def string, root bool) {
	b := w.b
	tag := n.Name.Local
	decl := ""
	byDefault := w.style&2 != 0 && (len(n.Name.Local)+w.style/4)%3 != 0 || n.Name.Space == ""
	if byDefault {
		if def != n.Name.Space && !(def == "\x00" && n.Name.Space == "") {
			decl = fmt.Sprintf(" xmlns=\"%s\"", escAttr(n.Name.Space))
			def = n.Name.Space
		}
	} else {
		tag = w.prefixes[n.Name.Space] + ":" + tag
	}
	b.WriteString("<" + tag + decl)
	if root {
		for _, ns := range w.order {
			fmt.Fprintf(b, " xmlns:%s=\"%s\"", w.prefixes[ns], escAttr(ns))
		}
	}
	for _, a := range n.Attrs {
		name := a.Name.Local
		if a.Name.Space != "" {
			name = w.prefixes[a.Name.Space] + ":" + name
		}
		fmt.Fprintf(b, " %s=\"%s\"", name, escAttr(a.Text))
	}
	if n.Text == "" && len(n.Kids) == 0 && w.style&4 != 0 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	if w.style&8 != 0 && n.Text != "" && !strings.Contains(n.Text, "]]>") && !strings.Contains(n.Text, "\r") {
		b.WriteString("<![CDATA[" + n.Text + "]]>")
	} else {
		b.WriteString(escText(n.Text))
	}
	for _, k := range n.Kids {
		if w.style&16 != 0 {
			b.WriteString("\n  <!-- <x/> -->")
		}
		w.node(k, def, false)
	}
	if w.style&16 != 0 && len(n.Kids) > 0 {
		b.WriteString("\n")
	}
	b.WriteString("</" + tag + ">")
}

func escText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#13;").Replace(s)
}

func escAttr(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;", "\n", "&#10;", "\t", "&#9;", "\r", "&#13;").Replace(s)
}

// ReadDoc reads a document without its namespace declarations.
func ReadDoc(s string) (*Node, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	var stack []*Node
	var root *Node
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := tok.(type) {
		case xml.StartElement:
			n := &Node{Name: t.Name}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				n.Attrs = append(n.Attrs, Val{Name: a.Name, Text: a.Value})
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.Kids = append(p.Kids, n)
			} else if root == nil {
				root = n
			} else {
				return nil, fmt.Errorf("more than one element: %s", t.Name.Local)
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].Text += string(t)
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("no element")
	}
	return root, nil
}
