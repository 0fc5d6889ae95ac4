// Package xmodel generates XML documents from an abstract description and
// says, independently of the code under test, what each one means.
package xmodel

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"
)

const XMLNS = "http://www.w3.org/XML/1998/namespace"

// Doc is a whole document as it is written.
type Doc struct {
	Decl   string `json:",omitempty"` // text of the XML declaration, or ""
	Prolog []Item `json:",omitempty"` // comments, PIs, doctype, white space
	Root   *Node  `json:",omitempty"`
	Epilog []Item `json:",omitempty"`
}

// Node is one element as it is written.
type Node struct {
	Prefix, Local string
	Attrs         []Attr `json:",omitempty"`
	Items         []Item `json:",omitempty"`
	SelfClose     bool   `json:",omitempty"` // only when Items is empty
	TagSpace      string `json:",omitempty"` // white space before '>'
}

// Attr is an attribute or a namespace declaration.
type Attr struct {
	NS            bool   `json:",omitempty"` // declaration: xmlns[:Prefix]="Value"
	Prefix, Local string `json:",omitempty"`
	Value         string // decoded
	Raw           string // as written between the quotes
	Quote         string `json:",omitempty"` // "'" or `"`
	Pre           string `json:",omitempty"` // extra white space before
}

// Item kinds.
const (
	Elem    = "elem"
	Text    = "text"
	CData   = "cdata"
	Comment = "comment"
	PI      = "pi"
	Other   = "other" // verbatim (doctype)
)

// Item is a piece of content.
type Item struct {
	Kind string
	Node *Node  `json:",omitempty"`
	Text string `json:",omitempty"` // decoded text / cdata / comment / pi body
	Raw  string `json:",omitempty"` // source form for text
}

func (it Item) source() string {
	switch it.Kind {
	case Text, Other:
		return it.Raw
	case CData:
		return "<![CDATA[" + it.Text + "]]>"
	case Comment:
		return "<!--" + it.Text + "-->"
	case PI:
		return "<?" + it.Text + "?>"
	}
	panic("bad item kind " + it.Kind)
}

// El is the meaning of an element.
type El struct {
	Name    xml.Name
	Attrs   []xml.Attr // without namespace declarations, expanded names
	Kids    []*El
	Content string            // source bytes between the tags
	Text    string            // decoded character data directly inside
	Scope   map[string]string // in-scope prefix -> namespace ("" = default)
	Mixed   bool              // has children and non-white-space text or CDATA
	Parent  *El
	NSDecls int
	Depth   int
	DeclAt  map[string]int // depth of the declaration that binds a prefix
}

// Walk visits e and all descendants in document order.
func (e *El) Walk(fn func(*El)) {
	fn(e)
	for _, k := range e.Kids {
		k.Walk(fn)
	}
}

// All lists e and all descendants in document order.
func (e *El) All() (out []*El) {
	e.Walk(func(x *El) { out = append(out, x) })
	return out
}

func (n *Node) qname() string {
	if n.Prefix != "" {
		return n.Prefix + ":" + n.Local
	}
	return n.Local
}

func (a Attr) qname() string {
	if a.NS {
		if a.Prefix == "" {
			return "xmlns"
		}
		return "xmlns:" + a.Prefix
	}
	if a.Prefix != "" {
		return a.Prefix + ":" + a.Local
	}
	return a.Local
}

// EndTag describes where an end tag was written.
type EndTag struct {
	Start, End int
	Prefix     string
	Local      string
}

// Rendered is a document with its meaning.
type Rendered struct {
	Src       []byte
	Root      *El
	RootStart int
	RootEnd   int
	EndTags   []EndTag
	TextPos   []int // offsets inside element content where text may be inserted
	TagPos    []int // offsets just after an element name inside a start tag
}

// Render writes the document and computes its meaning.
func (d *Doc) Render() *Rendered {
	r := &Rendered{}
	var b bytes.Buffer
	b.WriteString(d.Decl)
	for _, it := range d.Prolog {
		b.WriteString(it.source())
	}
	r.RootStart = b.Len()
	if d.Root != nil {
		r.Root = d.Root.render(&b, map[string]string{"xml": XMLNS}, nil, r)
	}
	r.RootEnd = b.Len()
	for _, it := range d.Epilog {
		b.WriteString(it.source())
	}
	r.Src = b.Bytes()
	return r
}

func (n *Node) render(b *bytes.Buffer, outer map[string]string, parent *El, r *Rendered) *El {
	e := &El{Parent: parent, Scope: map[string]string{}, DeclAt: map[string]int{}}
	for k, v := range outer {
		e.Scope[k] = v
	}
	if parent != nil {
		e.Depth = parent.Depth + 1
		for k, v := range parent.DeclAt {
			e.DeclAt[k] = v
		}
	}
	for _, a := range n.Attrs {
		if a.NS {
			e.NSDecls++
			e.Scope[a.Prefix] = a.Value
			e.DeclAt[a.Prefix] = e.Depth
		}
	}
	e.Name = xml.Name{Space: e.Scope[n.Prefix], Local: n.Local}
	b.WriteString("<" + n.qname())
	r.TagPos = append(r.TagPos, b.Len())
	for _, a := range n.Attrs {
		q := a.Quote
		if q == "" {
			q = `"`
		}
		b.WriteString(" " + a.Pre + a.qname() + "=" + q + a.Raw + q)
		if !a.NS {
			x := xml.Attr{Name: xml.Name{Local: a.Local}, Value: a.Value}
			if a.Prefix != "" {
				x.Name.Space = e.Scope[a.Prefix]
			}
			e.Attrs = append(e.Attrs, x)
		}
	}
	b.WriteString(n.TagSpace)
	if n.SelfClose && len(n.Items) == 0 {
		b.WriteString("/>")
		return e
	}
	b.WriteString(">")
	begin := b.Len()
	nonblank := false
	for _, it := range n.Items {
		r.TextPos = append(r.TextPos, b.Len())
		if it.Kind == Elem {
			e.Kids = append(e.Kids, it.Node.render(b, e.Scope, e, r))
			continue
		}
		if it.Kind == Text || it.Kind == CData {
			e.Text += it.Text
			if strings.TrimSpace(it.Text) != "" {
				nonblank = true
			}
		}
		b.WriteString(it.source())
	}
	r.TextPos = append(r.TextPos, b.Len())
	e.Mixed = nonblank && len(e.Kids) > 0
	e.Content = string(b.Bytes()[begin:])
	et := EndTag{Start: b.Len(), Prefix: n.Prefix, Local: n.Local}
	b.WriteString("</" + n.qname() + n.TagSpace + ">")
	et.End = b.Len()
	r.EndTags = append(r.EndTags, et)
	return e
}

// Read interprets src with encoding/xml only, checking what a namespace-aware
// reader would insist on: declared prefixes and no duplicate attributes.
func Read(src []byte) (*El, error) {
	d := xml.NewDecoder(bytes.NewReader(src))
	var root, cur *El
	var rawNames []xml.Name
	scope := map[string]string{"xml": XMLNS}
	starts := []int64{}
	for {
		off := d.InputOffset()
		tok, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			if root != nil && cur == nil {
				return nil, fmt.Errorf("second root element <%s>", tok.Name.Local)
			}
			e := &El{Parent: cur, Scope: map[string]string{}}
			outer := scope
			if cur != nil {
				outer = cur.Scope
			}
			for k, v := range outer {
				e.Scope[k] = v
			}
			seenDecl := map[string]bool{}
			for _, a := range tok.Attr {
				var p string
				switch {
				case a.Name.Space == "xmlns":
					p = a.Name.Local
					if a.Value == "" {
						return nil, fmt.Errorf("prefix %q declared with an empty namespace", p)
					}
				case a.Name.Space == "" && a.Name.Local == "xmlns":
				default:
					continue
				}
				if seenDecl[p] {
					return nil, fmt.Errorf("<%s> declares prefix %q twice", tok.Name.Local, p)
				}
				seenDecl[p] = true
				e.Scope[p] = a.Value
				e.NSDecls++
			}
			resolve := func(n xml.Name, attr bool) (xml.Name, error) {
				if n.Space == "" {
					if attr {
						return n, nil
					}
					return xml.Name{Space: e.Scope[""], Local: n.Local}, nil
				}
				ns, ok := e.Scope[n.Space]
				if !ok {
					return n, fmt.Errorf("prefix %q of %q in <%s> is not declared", n.Space, n.Local, tok.Name.Local)
				}
				return xml.Name{Space: ns, Local: n.Local}, nil
			}
			if tok.Name.Local == "" {
				return nil, fmt.Errorf("empty element name")
			}
			if e.Name, err = resolve(tok.Name, false); err != nil {
				return nil, err
			}
			seen := map[xml.Name]bool{}
			for _, a := range tok.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				n, err := resolve(a.Name, true)
				if err != nil {
					return nil, err
				}
				if seen[n] {
					return nil, fmt.Errorf("<%s> repeats attribute {%s}%s", tok.Name.Local, n.Space, n.Local)
				}
				seen[n] = true
				e.Attrs = append(e.Attrs, xml.Attr{Name: n, Value: a.Value})
			}
			if cur == nil {
				root = e
			} else {
				cur.Kids = append(cur.Kids, e)
			}
			cur = e
			rawNames = append(rawNames, tok.Name)
			starts = append(starts, d.InputOffset())
		case xml.EndElement:
			if cur == nil {
				return nil, fmt.Errorf("unexpected end tag </%s>", tok.Name.Local)
			}
			if rawNames[len(rawNames)-1] != tok.Name {
				return nil, fmt.Errorf("<%v> closed by </%v>", rawNames[len(rawNames)-1], tok.Name)
			}
			begin := starts[len(starts)-1]
			if off >= begin {
				cur.Content = string(src[begin:off])
			}
			cur.Mixed = len(cur.Kids) > 0 && strings.TrimSpace(cur.Text) != ""
			rawNames = rawNames[:len(rawNames)-1]
			starts = starts[:len(starts)-1]
			cur = cur.Parent
		case xml.CharData:
			if cur != nil {
				cur.Text += string(tok)
			} else if len(bytes.TrimSpace(tok)) > 0 {
				return nil, fmt.Errorf("text %q outside the root element", tok)
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("no root element")
	}
	if cur != nil {
		return nil, fmt.Errorf("unclosed element <%s>", cur.Name.Local)
	}
	return root, nil
}

// CmpOpts says what Diff ignores.
type CmpOpts struct {
	Content bool // compare raw leaf content
	Text    bool // compare decoded leaf text
	Scope   bool // got must bind at least what want binds
}

// Diff reports the first difference between two meanings.
func Diff(want, got *El, o CmpOpts) error { return diff(want, got, o, "/"+want.Name.Local) }

func diff(want, got *El, o CmpOpts, path string) error {
	if want.Name != got.Name {
		return fmt.Errorf("%s: name {%s}%s, want {%s}%s", path, got.Name.Space, got.Name.Local, want.Name.Space, want.Name.Local)
	}
	if err := DiffAttrs(want.Attrs, got.Attrs); err != nil {
		return fmt.Errorf("%s: %v", path, err)
	}
	if len(want.Kids) != len(got.Kids) {
		return fmt.Errorf("%s: %d sub-elements, want %d", path, len(got.Kids), len(want.Kids))
	}
	if len(want.Kids) == 0 {
		if o.Content && want.Content != got.Content {
			return fmt.Errorf("%s: content %q, want %q", path, got.Content, want.Content)
		}
		if o.Text && want.Text != got.Text {
			return fmt.Errorf("%s: text %q, want %q", path, got.Text, want.Text)
		}
	}
	if o.Scope {
		for p, ns := range want.Scope {
			if g := got.Scope[p]; g != ns {
				return fmt.Errorf("%s: prefix %q bound to %q, want %q", path, p, g, ns)
			}
		}
		if want.Scope[""] == "" && got.Scope[""] != "" {
			return fmt.Errorf("%s: default namespace %q, want none", path, got.Scope[""])
		}
	}
	for i := range want.Kids {
		if err := diff(want.Kids[i], got.Kids[i], o, fmt.Sprintf("%s/%s[%d]", path, want.Kids[i].Name.Local, i)); err != nil {
			return err
		}
	}
	return nil
}

// DiffAttrs compares attribute lists, order included.
func DiffAttrs(want, got []xml.Attr) error {
	if len(want) != len(got) {
		return fmt.Errorf("attributes %v, want %v", got, want)
	}
	for i := range want {
		if want[i] != got[i] {
			return fmt.Errorf("attribute %d is {%s}%s=%q, want {%s}%s=%q", i, got[i].Name.Space, got[i].Name.Local, got[i].Value, want[i].Name.Space, want[i].Name.Local, want[i].Value)
		}
	}
	return nil
}

// Prefixes lists the in-scope prefixes in a stable order.
func (e *El) Prefixes() []string {
	var ps []string
	for p := range e.Scope {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// Escape writes s as character data or attribute value.
func Escape(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}
