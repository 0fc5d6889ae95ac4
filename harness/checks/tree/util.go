package tree

import (
	"encoding/xml"
	"fmt"

	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
)

// match compares a tree produced by xmltree with the expected meaning.
func match(want *xmodel.El, got *xmltree.Element, content bool) error {
	return matchAt(want, got, content, "/"+want.Name.Local)
}

func matchAt(want *xmodel.El, got *xmltree.Element, content bool, path string) error {
	if want.Name != got.Name {
		return fmt.Errorf("%s: name {%s}%s, want {%s}%s", path, got.Name.Space, got.Name.Local, want.Name.Space, want.Name.Local)
	}
	if err := xmodel.DiffAttrs(want.Attrs, got.StartElement.Attr); err != nil {
		return fmt.Errorf("%s: %v", path, err)
	}
	if content && want.Content != string(got.Content) {
		return fmt.Errorf("%s: content %q, want %q", path, got.Content, want.Content)
	}
	if len(want.Kids) != len(got.Children) {
		return fmt.Errorf("%s: %d children, want %d", path, len(got.Children), len(want.Kids))
	}
	for i := range want.Kids {
		if err := matchAt(want.Kids[i], &got.Children[i], content, fmt.Sprintf("%s/%s[%d]", path, want.Kids[i].Name.Local, i)); err != nil {
			return err
		}
	}
	return nil
}

// flat lists el and its descendants in document order, by walking the
// exported Children slices only.
func flat(el *xmltree.Element) []*xmltree.Element {
	out := []*xmltree.Element{el}
	for i := range el.Children {
		out = append(out, flat(&el.Children[i])...)
	}
	return out
}

// snapshot is a deep copy of what can be observed of a tree.
type snapshot struct {
	Name     xml.Name
	Attrs    []xml.Attr
	Content  string
	Resolved []xml.Name
	Kids     []snapshot
}

var probePrefixes = append([]string{"xml", "xmlns", "zz"}, xmodel.Prefixes...)

func snap(el *xmltree.Element) snapshot {
	s := snapshot{Name: el.Name, Content: string(el.Content)}
	s.Attrs = append(s.Attrs, el.StartElement.Attr...)
	for _, p := range probePrefixes {
		q := "l"
		if p != "" {
			q = p + ":l"
		}
		s.Resolved = append(s.Resolved, el.Resolve(q))
	}
	for i := range el.Children {
		s.Kids = append(s.Kids, snap(&el.Children[i]))
	}
	return s
}

func snapDiff(a, b snapshot, path string) error {
	if a.Name != b.Name || a.Content != b.Content || len(a.Kids) != len(b.Kids) {
		return fmt.Errorf("%s/%s changed: name %v->%v content %q->%q children %d->%d", path, a.Name.Local, a.Name, b.Name, a.Content, b.Content, len(a.Kids), len(b.Kids))
	}
	if err := xmodel.DiffAttrs(a.Attrs, b.Attrs); err != nil {
		return fmt.Errorf("%s/%s changed: %v", path, a.Name.Local, err)
	}
	for i := range a.Resolved {
		if a.Resolved[i] != b.Resolved[i] {
			return fmt.Errorf("%s/%s changed: prefix %q resolved to %v, now %v", path, a.Name.Local, probePrefixes[i], a.Resolved[i], b.Resolved[i])
		}
	}
	for i := range a.Kids {
		if err := snapDiff(a.Kids[i], b.Kids[i], path+"/"+a.Name.Local); err != nil {
			return err
		}
	}
	return nil
}

func qn(prefix, local string) string {
	if prefix == "" {
		return local
	}
	return prefix + ":" + local
}
