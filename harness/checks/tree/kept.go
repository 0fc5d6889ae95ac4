package tree

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
	"pgregory.net/rapid"
)

// keptCase: several documents, each kept while the others are read.
type keptCase struct {
	Docs     []charsetCase
	Parallel bool
}

func genKept(t *rapid.T) keptCase {
	c := keptCase{Parallel: prop.Chance(t, 5)}
	for n := prop.Range(t, 2, 4); n > 0; n-- {
		d := genCharset(t)
		if d.Pad > 9000 {
			d.Pad = 9000
		}
		c.Docs = append(c.Docs, d)
	}
	if prop.Chance(t, 8) {
		for i := range c.Docs {
			c.Docs[i].Charset = c.Docs[0].Charset
			if i > 0 {
				// The characters of the document are those of its character set.
				c.Docs[i].Doc = c.Docs[0].Doc
				c.Docs[i].Doc.Root = &xmodel.Node{Local: "kept", Items: []xmodel.Item{{Kind: xmodel.Text, Text: strings.Repeat("k", i*7), Raw: strings.Repeat("k", i*7)}}}
			}
		}
	}
	return c
}

func checkKept(c keptCase, r *prop.Rec) error {
	roots := make([]*xmltree.Element, len(c.Docs))
	rendered := make([]*xmodel.Rendered, len(c.Docs))
	in := make([][]byte, len(c.Docs))
	encoded := 0
	for i, d := range c.Docs {
		x, enc, err := d.build()
		if err != nil {
			return prop.Infra("encoding: %v", err)
		}
		rendered[i], in[i] = x, enc
		if !bytes.Equal(enc, x.Src) {
			encoded++
		}
	}
	errs := make([]error, len(c.Docs))
	parse := func(i int) {
		roots[i], errs[i] = xmltree.Parse(in[i])
		if errs[i] == nil {
			xmltree.Marshal(roots[i])
		}
	}
	if c.Parallel {
		var wg sync.WaitGroup
		for i := range c.Docs {
			wg.Add(1)
			go func(i int) { defer wg.Done(); parse(i) }(i)
		}
		wg.Wait()
	} else {
		for i := range c.Docs {
			parse(i)
		}
	}
	for i := range c.Docs {
		where := func(err error) error {
			return fmt.Errorf("document %d of %d (%s, parallel: %v), after all have been read: %v", i, len(c.Docs), charsets[c.Docs[i].Charset].label, c.Parallel, err)
		}
		if errs[i] != nil {
			return where(errs[i])
		}
		if err := match(rendered[i].Root, roots[i], true); err != nil {
			return where(err)
		}
		if err := checkOutput(rendered[i].Root, xmltree.Marshal(roots[i])); err != nil {
			return where(err)
		}
	}
	r.LabelIf(c.Parallel, "parallel")
	r.Label(fmt.Sprintf("%d documents converted", encoded))
	r.Nontrivial(len(c.Docs) > 1 && encoded > 1)
	return nil
}

// togetherCase: documents whose elements are written by several goroutines.
type togetherCase struct {
	Docs     []xmodel.Doc
	Prefix   string
	Indent   string
	Routines int
}

func checkTogether(c togetherCase, r *prop.Rec) error {
	var els []*xmltree.Element
	for _, d := range c.Docs {
		x := d.Render()
		root, err := xmltree.Parse(append([]byte(nil), x.Src...))
		if err != nil {
			return err
		}
		els = append(append(els, root), root.Flatten()...)
	}
	write := func(el *xmltree.Element) string {
		return string(xmltree.Marshal(el)) + "\n" + string(xmltree.MarshalIndent(el, c.Prefix, c.Indent)) + "\n" + el.String()
	}
	want := make([]string, len(els))
	for i, el := range els {
		want[i] = write(el)
	}
	errs := make([]error, c.Routines)
	var wg sync.WaitGroup
	for k := 0; k < c.Routines; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := range els {
				j := (i*(2*k+1) + k) % len(els) // each in its own order
				if got := write(els[j]); got != want[j] {
					errs[k] = fmt.Errorf("element %d is written as\n%s\namong %d goroutines, and alone as\n%s", j, got, c.Routines, want[j])
					return
				}
			}
		}(k)
	}
	wg.Wait()
	r.Nontrivial(len(els) > 3)
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// deepCase: one element per level, with something to lose on each.
type deepCase struct {
	Levels int
	Style  string
}

func (c deepCase) doc() string {
	var b strings.Builder
	for i := 0; i < c.Levels-1; i++ {
		switch c.Style {
		case "attributes":
			fmt.Fprintf(&b, "<a x='%d'>", i)
		case "prefixes":
			fmt.Fprintf(&b, "<p:a xmlns:p='urn:%d' p:x='%d'>", i%7, i)
		case "siblings":
			fmt.Fprintf(&b, "<a><b>%d</b>", i)
		}
	}
	b.WriteString("<last>kept</last>")
	end := "</a>"
	if c.Style == "prefixes" {
		end = "</p:a>"
	}
	b.WriteString(strings.Repeat(end, c.Levels-1))
	return b.String()
}

func checkDeep(c deepCase, r *prop.Rec) error {
	root, err := xmltree.Parse([]byte(c.doc()))
	if err != nil {
		if c.Levels > recursionLimit {
			return nil
		}
		return err
	}
	want := append([]*xmltree.Element{root}, root.Flatten()...)
	inner := want[len(want)/2]
	for _, el := range []*xmltree.Element{root, inner, want[len(want)-1]} {
		all := append([]*xmltree.Element{el}, el.Flatten()...)
		var stream bytes.Buffer
		if err := xmltree.Encode(&stream, el); err != nil {
			return err
		}
		for how, out := range map[string][]byte{"Marshal": xmltree.Marshal(el), "Encode": stream.Bytes(), "MarshalIndent": xmltree.MarshalIndent(el, "", "")} {
			back, err := xmltree.Parse(out)
			if err != nil {
				return fmt.Errorf("%s of %d levels: %v", how, c.Levels, err)
			}
			got := append([]*xmltree.Element{back}, back.Flatten()...)
			if len(got) != len(all) {
				return fmt.Errorf("%s: %d elements of %d", how, len(got), len(all))
			}
			for i, el := range all {
				if el.Name != got[i].Name || len(el.StartElement.Attr) != len(got[i].StartElement.Attr) || len(el.Children) != len(got[i].Children) {
					return fmt.Errorf("%s: element %d of %d is %v, want %v", how, i, len(all), got[i].StartElement, el.StartElement)
				}
				for k, a := range el.StartElement.Attr {
					if got[i].Attr(a.Name.Space, a.Name.Local) != a.Value {
						return fmt.Errorf("%s: attribute %d of element %d is %v, want %v", how, k, i, got[i].StartElement.Attr, el.StartElement.Attr)
					}
				}
				if len(el.Children) == 0 && !bytes.Equal(bytes.TrimSpace(el.Content), bytes.TrimSpace(got[i].Content)) {
					return fmt.Errorf("%s: content of element %d is %q, want %q", how, i, got[i].Content, el.Content)
				}
			}
		}
	}
	r.Label(c.Style)
	r.Nontrivial(c.Levels > 100)
	return nil
}

func init() {
	prop.Register("C07", "kept",
		"two to four documents in random character sets read one after the other or at the same time, and looked at after all have been read; non-trivial: at least two needed conversion",
		genKept, checkKept, prop.Counts(3000, 40000))
	prop.Register("C03", "together",
		"all elements of up to three documents written by two to six goroutines, each in its own order; non-trivial: more than three elements",
		func(t *rapid.T) togetherCase {
			c := togetherCase{Prefix: prop.Pick(t, "", " "), Indent: prop.Pick(t, "", "\t", "  "), Routines: prop.Range(t, 2, 6)}
			for n := prop.Range(t, 1, 3); n > 0; n-- {
				c.Docs = append(c.Docs, xmodel.Gen(t, xmodel.Style{MaxNodes: 8}))
			}
			return c
		}, checkTogether, prop.Counts(600, 12000))
	levels := []int{2, 50, 500, 1000, 1001, 2000, 2999, 3000, 3001}
	styles := []string{"attributes", "prefixes", "siblings"}
	prop.Enumerate("C03", "deep",
		"documents of every listed number of levels, up to the deepest the parser accepts, and elements inside; non-trivial: more than 100 levels",
		func() int { return len(levels) * len(styles) },
		func(i int) deepCase { return deepCase{levels[i/len(styles)], styles[i%len(styles)]} }, checkDeep)
}
