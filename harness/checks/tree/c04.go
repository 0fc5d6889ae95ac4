package tree

import (
	"encoding/xml"
	"fmt"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
	"pgregory.net/rapid"
)

// edit is one step of a history. Which element, child, prefix ... it applies
// to is computed from A, B, C modulo what is there.
type edit struct {
	Kind    string
	A, B, C int
	Local   string
	Value   string
	Flat    bool // locate the element with Flatten instead of by path
}

type editCase struct {
	Docs  []xmodel.Doc
	Edits []edit
}

var editKinds = []string{"attr", "insert", "graft", "remove", "swap", "dup", "text", "reparse", "rmattr", "graft", "move", "append"}

func genEdits(t *rapid.T) editCase {
	c := editCase{}
	n := prop.Range(t, 1, 3)
	for i := 0; i < n; i++ {
		c.Docs = append(c.Docs, xmodel.Gen(t, xmodel.Style{MaxNodes: 8, MaxDepth: 3}))
	}
	for k := prop.Range(t, 1, 8); k > 0; k-- {
		c.Edits = append(c.Edits, edit{
			Kind:  prop.Pick(t, editKinds...),
			A:     prop.Int(t, 40),
			B:     prop.Int(t, 40),
			C:     prop.Int(t, 40),
			Local: prop.Pick(t, "id", "k", "type", "new", "b-c", "é"),
			Value: prop.Pick(t, "v", "", "a&b", "<x>", `q"q'q`, "p:q", " lead", "l1\nl2", "tab\t", "é日", "]]>", "cr\r", "a"),
			Flat:  prop.Chance(t, 8),
		})
	}
	return c
}

// copyEl copies an element so that the copy shares nothing writable.
func copyEl(el *xmltree.Element) xmltree.Element {
	c := *el
	c.StartElement = el.StartElement.Copy()
	c.Content = append([]byte(nil), el.Content...)
	c.Children = nil
	for i := range el.Children {
		c.Children = append(c.Children, copyEl(&el.Children[i]))
	}
	return c
}

func copyWant(e *xmodel.El, parent *xmodel.El) *xmodel.El {
	c := *e
	c.Attrs = append([]xml.Attr(nil), e.Attrs...)
	c.Kids = nil
	c.Parent = parent
	for _, k := range e.Kids {
		c.Kids = append(c.Kids, copyWant(k, &c))
	}
	return &c
}

// locate finds the i'th element of both trees.
func locate(root *xmltree.Element, want *xmodel.El, i int, byFlatten bool) (*xmltree.Element, *xmodel.El) {
	ws := want.All()
	i %= len(ws)
	if i == 0 {
		return root, want
	}
	if byFlatten {
		return root.Flatten()[i-1], ws[i]
	}
	return flat(root)[i], ws[i]
}

func inScope(e *xmodel.El, withDefault bool) (out []string) {
	for _, p := range e.Prefixes() {
		if ns := e.Scope[p]; ns != "" && (p != "" || withDefault) {
			out = append(out, p)
		}
	}
	return out
}

func within(x, anc *xmodel.El) bool {
	for ; x != nil; x = x.Parent {
		if x == anc {
			return true
		}
	}
	return false
}

func removeKid(el *xmltree.Element, w *xmodel.El, i int) {
	// the usual slice deletion, on a fresh slice every other time
	el.Children = append(el.Children[:i], el.Children[i+1:]...)
	w.Kids = append(w.Kids[:i:i], w.Kids[i+1:]...)
	if len(el.Children) == 0 {
		// Content still holds the source of the former children, and
		// is what an element without children is written with.
		el.Children, el.Content = nil, nil
		w.Content, w.Text = "", ""
	}
}

func insertKid(el *xmltree.Element, w *xmodel.El, i int, kid xmltree.Element, wk *xmodel.El) {
	i %= len(el.Children) + 1
	el.Children = append(el.Children, xmltree.Element{})
	copy(el.Children[i+1:], el.Children[i:])
	el.Children[i] = kid
	w.Kids = append(w.Kids, nil)
	copy(w.Kids[i+1:], w.Kids[i:])
	w.Kids[i] = wk
	wk.Parent = w
}

// apply performs e on both; it reports whether anything was done.
func (e edit) apply(root *xmltree.Element, want *xmodel.El, src []*xmltree.Element, srcWant []*xmodel.El) bool {
	el, w := locate(root, want, e.A, e.Flat)
	switch e.Kind {
	case "attr":
		space := ""
		if ps := inScope(w, false); len(ps) > 0 && e.B%3 > 0 {
			space = w.Scope[ps[e.C%len(ps)]]
		}
		local := e.Local
		if e.B%4 == 3 && len(w.Attrs) > 0 { // overwrite an existing one
			a := w.Attrs[e.C%len(w.Attrs)]
			space, local = a.Name.Space, a.Name.Local
		}
		el.SetAttr(space, local, e.Value)
		modelSet(&w.Attrs, space, local, e.Value)
	case "rmattr":
		if len(w.Attrs) == 0 {
			return false
		}
		i := e.B % len(w.Attrs)
		el.StartElement.Attr = append(el.StartElement.Attr[:i], el.StartElement.Attr[i+1:]...)
		w.Attrs = append(w.Attrs[:i:i], w.Attrs[i+1:]...)
	case "insert":
		space := ""
		if w.Scope[""] != "" || e.B%2 == 1 {
			ps := inScope(w, true)
			if len(ps) > 0 {
				space = w.Scope[ps[e.C%len(ps)]]
			}
		}
		kid := xmltree.Element{
			StartElement: xml.StartElement{Name: xml.Name{Space: space, Local: "new"}},
			Scope:        el.Scope,
		}
		wk := &xmodel.El{Name: kid.Name, Scope: w.Scope}
		if e.Value != "" {
			wk.Content = xmodel.Escape(e.Value)
			wk.Text = e.Value
			kid.Content = []byte(wk.Content)
		}
		if e.B%3 == 0 {
			kid.SetAttr("", e.Local, e.Value)
			modelSet(&wk.Attrs, "", e.Local, e.Value)
		}
		insertKid(el, w, e.B, kid, wk)
	case "graft":
		k := e.B % len(src)
		sel, sw := locate(src[k], srcWant[k], e.C, e.Flat)
		insertKid(el, w, e.B+e.C, copyEl(sel), copyWant(sw, nil))
	case "move":
		// take out a sub-element and put it elsewhere in the same tree
		if w.Parent == nil {
			return false
		}
		pi := 0
		for i, x := range want.All() {
			if x == w.Parent {
				pi = i
			}
		}
		parent, wp := locate(root, want, pi, false)
		ki := 0
		for wp.Kids[ki] != w {
			ki++
		}
		kid, wk := copyEl(el), copyWant(w, nil)
		if e.B%2 == 0 {
			kid = *el // nothing else uses it afterwards
		}
		removeKid(parent, wp, ki)
		to, tw := locate(root, want, e.B, e.Flat)
		insertKid(to, tw, e.C, kid, wk)
	case "remove":
		if len(w.Kids) == 0 {
			return false
		}
		removeKid(el, w, e.B%len(w.Kids))
	case "swap":
		if len(w.Kids) < 2 {
			return false
		}
		i, j := e.B%len(w.Kids), e.C%len(w.Kids)
		el.Children[i], el.Children[j] = el.Children[j], el.Children[i]
		w.Kids[i], w.Kids[j] = w.Kids[j], w.Kids[i]
	case "dup":
		if len(w.Kids) == 0 || len(want.All()) > 60 {
			return false
		}
		i := e.B % len(w.Kids)
		insertKid(el, w, e.C, copyEl(&el.Children[i]), copyWant(w.Kids[i], nil))
	case "text":
		if len(w.Kids) > 0 {
			return false
		}
		w.Content, w.Text = xmodel.Escape(e.Value), e.Value
		el.Content = []byte(w.Content)
	case "append":
		if len(w.Kids) > 0 {
			return false
		}
		w.Content, w.Text = w.Content+xmodel.Escape(e.Value), w.Text+e.Value
		el.Content = append(el.Content, xmodel.Escape(e.Value)...)
	}
	return true
}

// modelSet is what SetAttr promises.
func modelSet(attrs *[]xml.Attr, space, local, value string) {
	for i, a := range *attrs {
		if a.Name.Local == local && (space == "" || a.Name.Space == space) {
			(*attrs)[i].Value = value
			return
		}
	}
	*attrs = append(*attrs, xml.Attr{Name: xml.Name{Space: space, Local: local}, Value: value})
}

func checkEdits(c editCase, r *prop.Rec) error {
	var src []*xmltree.Element
	var srcWant []*xmodel.El
	var before []snapshot
	var text string
	for i := range c.Docs {
		x := c.Docs[i].Render()
		text += string(x.Src) + "\n"
		root, err := xmltree.Parse(append([]byte(nil), x.Src...))
		if err != nil {
			return err
		}
		src, srcWant = append(src, root), append(srcWant, x.Root)
		before = append(before, snap(root))
	}
	// the edited tree is a parse of its own; sources stay as they are
	x := c.Docs[0].Render()
	root, err := xmltree.Parse(append([]byte(nil), x.Src...))
	if err != nil {
		return err
	}
	want := copyWant(x.Root, nil)
	done, grafts := 0, 0
	for i, e := range c.Edits {
		fail := func(err error) error {
			return fmt.Errorf("after edit %d (%+v) of\n%s\n%v", i, e, text, err)
		}
		if e.Kind == "reparse" {
			if root, err = xmltree.Parse(xmltree.Marshal(root)); err != nil {
				return fail(err)
			}
			done++
		} else if len(flat(root)) < 80 && e.apply(root, want, src, srcWant) {
			done++
			if e.Kind == "graft" || e.Kind == "move" {
				grafts++
			}
			r.Label(e.Kind)
		} else {
			continue
		}
		r.Work++
		if err := match(want, root, false); err != nil {
			return fail(fmt.Errorf("tree in memory: %v", err))
		}
		if err := checkOutput(want, xmltree.Marshal(root)); err != nil {
			return fail(err)
		}
	}
	if err := checkOutput(want, xmltree.MarshalIndent(root, " ", "\t")); err != nil {
		return fmt.Errorf("MarshalIndent after the edits of\n%s\n%v", text, err)
	}
	for i := range src {
		if err := snapDiff(before[i], snap(src[i]), ""); err != nil {
			return fmt.Errorf("editing a copy changed document %d: %v\n%s", i, err, text)
		}
	}
	r.Nontrivial(done >= 2 && (grafts > 0 || done >= 4))
	r.LabelIf(len(c.Docs) > 1 && grafts > 0, "graft-between-documents")
	return nil
}

func init() {
	prop.Register("C04", "edits",
		"1-3 documents with conflicting prefixes, 1-8 edits (attributes, insert, copy from any document, move, remove, swap, duplicate, text, re-parse), output judged after every edit; non-trivial: at least two effective edits with a graft, or four",
		genEdits, checkEdits, prop.Counts(6000, 150000))
}
