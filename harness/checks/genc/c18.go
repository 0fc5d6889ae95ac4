package genc

import (
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"pgregory.net/rapid"
)

// docCase is a schema, how to generate code for it, and documents.
type docCase struct {
	Set   *smodel.Set
	Style smodel.Style
	Opt   Options
	Docs  []docOf

	Strict bool `json:",omitempty"` // no allowance for known findings
}

type docOf struct {
	Type  QN
	Node  *smodel.Node
	Style int
}

func genDocs(t *rapid.T) docCase {
	o := GenOpts()
	o.Names = append([]string{"日本"}, o.Names...)
	o.Wild, o.NoQuirk = false, true
	// encoding/xml cannot encode an element in no namespace within one that
	// is in a namespace.
	o.NoNS = prop.Chance(t, 2)
	if o.NoNS {
		o.MaxNS = 1
	}
	c := docCase{Set: smodel.Gen(t, o), Style: smodel.GenStyle(t)}
	c.Opt = Options{Defaults: prop.Chance(t, 6)}
	c.Opt.FieldNames = !c.Opt.Defaults && prop.Chance(t, 8)
	if prop.Chance(t, 6) {
		c.Opt.Replace = append(c.Opt.Replace, replacements[0])
	}
	if prop.Chance(t, 2) {
		c.Opt.Replace = append(c.Opt.Replace, replacements[prop.Int(t, len(replacements))])
	}
	var roots []QN
	for _, s := range c.Set.Schemas {
		for _, d := range s.Types {
			roots = append(roots, QN{Space: s.NS, Local: d.Name})
		}
	}
	for k := 0; k < 10 && len(roots) > 0; k++ {
		n := roots[prop.Int(t, len(roots))]
		r := smodel.Res{Def: c.Set.Type(n), NS: n.Space}
		if r.Def.Simple != nil && prop.Chance(t, 9) {
			continue
		}
		name := QN{Space: prop.Pick(t, "", "urn:root", n.Space), Local: prop.Pick(t, "root", "doc", n.Local)}
		if n.Space == "" {
			name.Space = ""
		}
		node := c.Set.GenDoc(t, r, name, smodel.DocOpts{MaxDepth: 4, Noise: prop.Chance(t, 3)})
		if node != nil {
			c.Docs = append(c.Docs, docOf{n, node, prop.Int(t, 32)})
		}
	}
	return c
}

// checkDocs verifies many cases with one program.
func checkDocs(cs []docCase, rs []*prop.Rec) []error {
	errs := make([]error, len(cs))
	var units []unit
	var reqs []request
	type from struct{ c, d int }
	var src []from
	srcs := make([][]byte, len(cs))
	for i, c := range cs {
		x := smodel.Render(c.Set, c.Style)
		code, text, err := source(c.Opt.config(), x.Docs)
		srcs[i] = text
		if err != nil {
			rs[i].Label("refused")
			continue // C17
		}
		_, pkg, err := compile(text)
		if err != nil {
			rs[i].Label("does not compile")
			continue // C17
		}
		u := unit{src: text, types: declaredTypes(pkg)}
		have := map[string]bool{}
		for _, n := range u.types {
			have[n] = true
		}
		for k, d := range c.Docs {
			name := code.NameOf(d.Type)
			if !have[name] {
				continue // is a Go type of its own
			}
			reqs = append(reqs, request{Pkg: len(units), Type: name, Name: d.Node.Name, Doc: d.Node.Write(d.Style), Twice: true})
			src = append(src, from{i, k})
		}
		units = append(units, u)
	}
	fail := func(i int, err error) {
		if errs[i] == nil {
			errs[i] = err
		}
	}
	p, err := build(units)
	if err != nil {
		for i := range errs {
			errs[i] = err
		}
		return errs
	}
	defer p.close()
	var live []request
	var at []int
	for k, r := range reqs {
		if p.bad[r.Pkg] != nil {
			fail(src[k].c, fmt.Errorf("generated source does not compile: %v\n%s", p.bad[r.Pkg], srcs[src[k].c]))
			continue
		}
		live = append(live, r)
		at = append(at, k)
	}
	res, err := p.do(live)
	if err != nil {
		for i := range errs {
			errs[i] = err
		}
		return errs
	}
	for j, a := range res {
		f := src[at[j]]
		c := cs[f.c]
		d := c.Docs[f.d]
		rs[f.c].Nontrivial(len(d.Node.Kids)+len(d.Node.Attrs) > 0)
		rs[f.c].Work++
		if c.Strict {
			d.Node.NoGhosts()
			d.Node.NoLate()
		}
		if err := judgeDoc(d.Node, a); err != nil {
			fail(f.c, fmt.Errorf("type %v (Go %s): %v\n--- document\n%s\n--- encoded again\n%s\noptions %+v\n%s--- generated\n%s",
				d.Type, live[j].Type, err, live[j].Doc, a.Out, c.Opt, show(smodel.Render(c.Set, c.Style).Docs), srcs[f.c]))
		}
	}
	return errs
}

func judgeDoc(want *smodel.Node, a response) error {
	switch {
	case a.Crash != "":
		return fmt.Errorf("crashed: %s", a.Crash)
	case a.Err != "":
		return fmt.Errorf("cannot be decoded: %s", a.Err)
	case a.EncErr != "":
		return fmt.Errorf("cannot be encoded again: %s", a.EncErr)
	}
	got, err := smodel.ReadDoc(a.Out)
	if err != nil {
		return fmt.Errorf("what was encoded does not parse: %v", err)
	}
	if err := sameDoc(want, got, ""); err != nil {
		return err
	}
	if strings.Contains(a.Out, " xmlns:") {
		// encoding/xml takes the declaration of a prefix for an attribute
		// that has the prefix for a name.
		return nil
	}
	if a.Err2 != "" {
		return fmt.Errorf("what was encoded cannot be decoded and encoded again: %s", a.Err2)
	}
	if a.Out2 != a.Out {
		return fmt.Errorf("decoded and encoded once more it becomes\n%s", a.Out2)
	}
	return nil
}

// sameDoc compares an element with what became of it: the same attributes
// and, for each name, the same child elements in the same order.
func sameDoc(want, got *smodel.Node, path string) error {
	path += "/" + want.Name.Local
	if want.Name != got.Name {
		return fmt.Errorf("%s: is called %v, was %v", path, got.Name, want.Name)
	}
	attrs := map[QN]string{}
	for _, a := range got.Attrs {
		if _, ok := attrs[a.Name]; ok {
			return fmt.Errorf("%s: attribute %v twice", path, a.Name)
		}
		attrs[a.Name] = a.Text
	}
	for _, a := range want.Attrs {
		name := a.Name
		if _, ok := attrs[name]; !ok && a.Ref {
			name.Space = "" // K02
		}
		v, ok := attrs[name]
		if !ok {
			return fmt.Errorf("%s: attribute %v is lost", path, a.Name)
		}
		delete(attrs, name)
		if err := sameValue(a.Kind, a.Text, v); err != nil {
			return fmt.Errorf("%s: attribute %v: %v", path, a.Name, err)
		}
	}
	for n, v := range attrs {
		return fmt.Errorf("%s: new attribute %v=%q", path, n, v)
	}
	if want.Kind != "" {
		if len(got.Kids) > 0 {
			return fmt.Errorf("%s: got child elements", path)
		}
		if err := sameValue(want.Kind, want.Text, got.Text); err != nil {
			return fmt.Errorf("%s: %v", path, err)
		}
		return nil
	}
	if strings.TrimSpace(got.Text) != "" {
		return fmt.Errorf("%s: got text %q", path, got.Text)
	}
	late := map[QN]string{} // K12
	for _, v := range want.Late {
		late[v.Name] = v.Kind
	}
	last := map[string]int{}
	for _, k := range got.Kids {
		for i, n := range want.Order {
			if n != k.Name {
				continue
			}
			if at := last[late[n]]; i < at {
				return fmt.Errorf("%s: element %v follows %v, the schema has them the other way round", path, n, want.Order[at])
			}
			last[late[n]] = i
		}
	}
	old, now := byName(want), byName(got)
	var names []QN
	for n := range old {
		names = append(names, n)
	}
	for n := range now {
		if old[n] == nil {
			names = append(names, n)
		}
	}
	sort.Slice(names, func(i, j int) bool {
		return names[i].Space+" "+names[i].Local < names[j].Space+" "+names[j].Local
	})
	for _, n := range names {
		a, b := old[n], now[n]
		if a == nil && len(b) == 1 && ghost(want.Ghosts, n) && hollow(b[0]) {
			continue // K07: a struct cannot leave it out
		}
		if len(a) != len(b) {
			return fmt.Errorf("%s: %d elements %v, want %d", path, len(b), n, len(a))
		}
		for i := range a {
			if err := sameDoc(a[i], b[i], path); err != nil {
				return err
			}
		}
	}
	return nil
}

func byName(n *smodel.Node) map[QN][]*smodel.Node {
	out := map[QN][]*smodel.Node{}
	for _, k := range n.Kids {
		out[k.Name] = append(out[k.Name], k)
	}
	return out
}

func ghost(gs []QN, n QN) bool {
	for _, g := range gs {
		if g == n {
			return true
		}
	}
	return false
}

// hollow says whether an element holds nothing but the zero values of Go.
func hollow(n *smodel.Node) bool {
	zero := func(s string) bool {
		s = strings.TrimSpace(s)
		switch s {
		case "", "0", "false", "0001-01-01T00:00:00Z", "0001-01-01Z", "00:00:00Z", "0001-01Z", "0001Z", "--01-01Z", "---01Z", "--01Z":
			return true
		}
		return false
	}
	if !zero(n.Text) {
		return false
	}
	for _, a := range n.Attrs {
		if !zero(a.Text) {
			return false
		}
	}
	for _, k := range n.Kids {
		if !hollow(k) {
			return false
		}
	}
	return true
}

func checkDoc(c docCase, r *prop.Rec) error {
	return checkDocs([]docCase{c}, []*prop.Rec{r})[0]
}

func init() {
	prop.Register("C18", "documents", "a document has attributes or child elements", genDocs, checkDoc, prop.Counts(640, 30000), prop.Batch(40, checkDocs))
}
