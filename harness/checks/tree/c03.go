package tree

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
	"pgregory.net/rapid"
)

// anyEl decodes any XML element.
type anyEl struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Kids    []anyEl    `xml:",any"`
	Text    string     `xml:",chardata"`
}

func matchAny(want *xmodel.El, got *anyEl, path string) error {
	if want.Name != got.XMLName {
		return fmt.Errorf("%s: decoded name %v, want %v", path, got.XMLName, want.Name)
	}
	var attrs []xml.Attr
	for _, a := range got.Attrs {
		if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
			continue
		}
		attrs = append(attrs, a)
	}
	if err := xmodel.DiffAttrs(want.Attrs, attrs); err != nil {
		return fmt.Errorf("%s: decoded %v", path, err)
	}
	if len(want.Kids) != len(got.Kids) {
		return fmt.Errorf("%s: decoded %d sub-elements, want %d", path, len(got.Kids), len(want.Kids))
	}
	if len(want.Kids) == 0 && got.Text != want.Text {
		return fmt.Errorf("%s: decoded text %q, want %q", path, got.Text, want.Text)
	}
	for i := range want.Kids {
		if err := matchAny(want.Kids[i], &got.Kids[i], fmt.Sprintf("%s/%s[%d]", path, want.Kids[i].Name.Local, i)); err != nil {
			return err
		}
	}
	return nil
}

type marshalCase struct {
	Doc            xmodel.Doc
	Prefix, Indent string
}

var full = xmodel.CmpOpts{Content: true, Text: true, Scope: true}

// checkOutput re-reads a marshalled element.
func checkOutput(want *xmodel.El, out []byte) error {
	got, err := xmodel.Read(out)
	if err != nil {
		return fmt.Errorf("output is not a self-contained document: %v\n%s", err, out)
	}
	if err := xmodel.Diff(want, got, full); err != nil {
		return fmt.Errorf("output differs: %v\n%s", err, out)
	}
	back, err := xmltree.Parse(append([]byte(nil), out...))
	if err != nil {
		return fmt.Errorf("output does not parse: %v\n%s", err, out)
	}
	if err := match(want, back, false); err != nil {
		return fmt.Errorf("re-parsed output differs: %v\n%s", err, out)
	}
	return nil
}

func checkIndented(want *xmodel.El, out []byte, prefix, indent string) error {
	// One line per start tag and per end tag of an element with children.
	var lines []string
	multi := false
	var walk func(e *xmodel.El, depth int)
	walk = func(e *xmodel.El, depth int) {
		if len(e.Kids) == 0 && strings.Contains(e.Content, "\n") {
			multi = true
		}
		lines = append(lines, prefix+strings.Repeat(indent, depth)+"<")
		for _, k := range e.Kids {
			walk(k, depth+1)
		}
		if len(e.Kids) > 0 {
			lines = append(lines, prefix+strings.Repeat(indent, depth)+"</")
		}
	}
	walk(want, 0)
	if multi {
		return nil
	}
	got := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
	if len(got) != len(lines) {
		return fmt.Errorf("%d lines, want %d:\n%s", len(got), len(lines), out)
	}
	for i := range lines {
		if !strings.HasPrefix(got[i], lines[i]) {
			return fmt.Errorf("line %d is %q, want it to begin with %q", i, got[i], lines[i])
		}
	}
	return nil
}

func init() {
	prop.Register("C03", "roundtrip",
		"random documents; every element marshalled on its own (compact, streamed, string, indented), re-read with encoding/xml plus own namespace rules, and decoded; non-trivial: more than two elements with declarations",
		func(t *rapid.T) marshalCase {
			return marshalCase{xmodel.Gen(t, xmodel.Style{MaxNodes: 16}), prop.Pick(t, "", " ", "\t", "  "), prop.Pick(t, "", " ", "\t", "   ")}
		},
		func(c marshalCase, r *prop.Rec) error {
			x := c.Doc.Render()
			labelDoc(r, x.Root)
			root, err := xmltree.Parse(append([]byte(nil), x.Src...))
			if err != nil {
				return err
			}
			want, got := x.Root.All(), flat(root)
			if len(want) != len(got) {
				return fmt.Errorf("%d elements, want %d", len(got), len(want))
			}
			before := snap(root)
			for i := range want {
				r.Work++
				where := func(err error) error {
					return fmt.Errorf("element %d <%s> of\n%s\n%v", i, want[i].Name.Local, x.Src, err)
				}
				out := xmltree.Marshal(got[i])
				if err := checkOutput(want[i], out); err != nil {
					return where(err)
				}
				var buf bytes.Buffer
				if err := xmltree.Encode(&buf, got[i]); err != nil {
					return where(fmt.Errorf("Encode: %v", err))
				}
				if !bytes.Equal(buf.Bytes(), out) {
					return where(fmt.Errorf("Encode wrote %q, Marshal %q", buf.Bytes(), out))
				}
				if s := got[i].String(); s != string(out) {
					return where(fmt.Errorf("String is %q, Marshal %q", s, out))
				}
				ind := xmltree.MarshalIndent(got[i], c.Prefix, c.Indent)
				if err := checkOutput(want[i], ind); err != nil {
					return where(fmt.Errorf("MarshalIndent: %v", err))
				}
				if err := checkIndented(want[i], ind, c.Prefix, c.Indent); err != nil {
					return where(fmt.Errorf("MarshalIndent: %v", err))
				}
				var v anyEl
				if err := xmltree.Unmarshal(got[i], &v); err != nil {
					return where(fmt.Errorf("Unmarshal: %v", err))
				}
				if err := matchAny(want[i], &v, "/"+want[i].Name.Local); err != nil {
					return where(fmt.Errorf("Unmarshal: %v", err))
				}
				if err := snapDiff(before, snap(root), ""); err != nil {
					return where(fmt.Errorf("marshalling modified the tree: %v", err))
				}
			}
			return nil
		}, prop.Counts(4000, 80000))
}
