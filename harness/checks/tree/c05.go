package tree

import (
	"encoding/xml"
	"fmt"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
	"pgregory.net/rapid"
)

type searchCase struct {
	Doc    xmodel.Doc
	At     []int // elements the searches start from
	Reject []int // positions the predicate rejects (modulo)
	Spaces []string
	Locals []string
}

func genSearch(t *rapid.T) searchCase {
	c := searchCase{Doc: xmodel.Gen(t, xmodel.Style{MaxNodes: 25, MaxDepth: 6})}
	c.At = []int{0, prop.Int(t, 25), prop.Int(t, 25)}
	for k := prop.Int(t, 4); k > 0; k-- {
		c.Reject = append(c.Reject, prop.Range(t, 1, 5))
	}
	c.Spaces = []string{"", prop.Pick(t, xmodel.URIs...), prop.Pick(t, "", "none", "urn")}
	c.Locals = []string{prop.Pick(t, xmodel.Locals...), prop.Pick(t, xmodel.Locals...), prop.Pick(t, "", "nope", "*")}
	return c
}

func samePointers(want, got []*xmltree.Element) error {
	if len(want) != len(got) {
		return fmt.Errorf("%d results, want %d", len(got), len(want))
	}
	for i := range want {
		if want[i] != got[i] {
			return fmt.Errorf("result %d is <%s> at %p, want <%s> at %p", i, got[i].Name.Local, got[i], want[i].Name.Local, want[i])
		}
	}
	return nil
}

func checkSearch(c searchCase, r *prop.Rec) error {
	x := c.Doc.Render()
	root, err := xmltree.Parse(append([]byte(nil), x.Src...))
	if err != nil {
		return err
	}
	before := snap(root)
	all, ws := flat(root), x.Root.All()
	if len(all) != len(ws) {
		return fmt.Errorf("%d elements, want %d", len(all), len(ws))
	}
	hits := 0
	for _, at := range c.At {
		at %= len(all)
		el := all[at]
		var desc []*xmltree.Element
		var wdesc []*xmodel.El
		for i := range all {
			if ws[i] != ws[at] && within(ws[i], ws[at]) {
				desc, wdesc = append(desc, all[i]), append(wdesc, ws[i])
			}
		}
		where := func(what string, err error) error {
			return fmt.Errorf("%s from element %d of\n%s\n%v", what, at, x.Src, err)
		}
		if err := samePointers(desc, el.Flatten()); err != nil {
			return where("Flatten", err)
		}
		spaces, locals := c.Spaces, append([]string{}, c.Locals...)
		for _, w := range ws {
			locals = append(locals, w.Name.Local)
		}
		seen := map[string]bool{}
		for _, l := range locals {
			if seen[l] {
				continue
			}
			seen[l] = true
			for _, s := range append(append([]string{}, spaces...), x.Root.Name.Space) {
				var want []*xmltree.Element
				for i, w := range wdesc {
					if w.Name.Local == l && (s == "" || s == w.Name.Space) {
						want = append(want, desc[i])
					}
				}
				hits += len(want)
				r.Work++
				if err := samePointers(want, el.Search(s, l)); err != nil {
					return where(fmt.Sprintf("Search(%q, %q)", s, l), err)
				}
			}
		}
		// arbitrary predicates, each descendant consulted exactly once
		count := map[*xmltree.Element]int{}
		n := 0
		var want []*xmltree.Element
		keep := func(i int) bool {
			for _, k := range c.Reject {
				if i%k == 0 {
					return false
				}
			}
			return true
		}
		for i := range desc {
			if keep(i) {
				want = append(want, desc[i])
			}
		}
		index := map[*xmltree.Element]int{}
		for i, d := range desc {
			index[d] = i
		}
		got := el.SearchFunc(func(e *xmltree.Element) bool {
			count[e]++
			n++
			i, ok := index[e]
			return ok && keep(i)
		})
		if err := samePointers(want, got); err != nil {
			return where("SearchFunc", err)
		}
		if n != len(desc) {
			return where("SearchFunc", fmt.Errorf("predicate consulted %d times for %d descendants", n, len(desc)))
		}
		for _, d := range desc {
			if count[d] != 1 {
				return where("SearchFunc", fmt.Errorf("predicate consulted %d times for <%s>", count[d], d.Name.Local))
			}
		}
	}
	if err := snapDiff(before, snap(root), ""); err != nil {
		return fmt.Errorf("searching changed the tree: %v", err)
	}
	r.Nontrivial(len(ws) > 3 && hits > 2)
	return nil
}

type attrOp struct {
	Set                 bool
	At                  int
	Space, Local, Value string
}

type attrCase struct {
	Doc xmodel.Doc
	Ops []attrOp
}

func genAttr(t *rapid.T) attrCase {
	c := attrCase{Doc: xmodel.Gen(t, xmodel.Style{MaxNodes: 6, MaxDepth: 3})}
	for k := prop.Range(t, 1, 14); k > 0; k-- {
		c.Ops = append(c.Ops, attrOp{
			Set:   prop.Chance(t, 10),
			At:    prop.Int(t, 6),
			Space: prop.Pick(t, "", "urn:x", "urn:y", "", "u", "other"),
			Local: prop.Pick(t, "id", "k", "type", "n1", "ID", "new"),
			Value: prop.Pick(t, "", "v", "w", "a&b", "x"),
		})
	}
	return c
}

func checkAttr(c attrCase, r *prop.Rec) error {
	x := c.Doc.Render()
	root, err := xmltree.Parse(append([]byte(nil), x.Src...))
	if err != nil {
		return err
	}
	model := [][]xml.Attr{}
	els := flat(root)
	for _, e := range els {
		model = append(model, append([]xml.Attr(nil), e.StartElement.Attr...))
	}
	sets, replaced, ambiguous := 0, 0, 0
	for i, op := range c.Ops {
		at := op.At % len(els)
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("step %d %+v on element %d of\n%s\n%s", i, op, at, x.Src, fmt.Sprintf(f, a...))
		}
		m := &model[at]
		n := 0
		for _, a := range *m {
			if a.Name.Local == op.Local && (op.Space == "" || op.Space == a.Name.Space) {
				n++
			}
		}
		if n > 1 {
			ambiguous++
		}
		if op.Set {
			sets++
			if n > 0 {
				replaced++
			}
			els[at].SetAttr(op.Space, op.Local, op.Value)
			modelSet(m, op.Space, op.Local, op.Value)
			if got := els[at].Attr(op.Space, op.Local); got != op.Value {
				return fail("set %q, read back %q", op.Value, got)
			}
		} else {
			want := ""
			for _, a := range *m {
				if a.Name.Local == op.Local && (op.Space == "" || op.Space == a.Name.Space) {
					want = a.Value
					break
				}
			}
			if got := els[at].Attr(op.Space, op.Local); got != want {
				return fail("Attr is %q, want %q (attributes %v)", got, want, *m)
			}
		}
		for j := range els {
			if err := xmodel.DiffAttrs(model[j], els[j].StartElement.Attr); err != nil {
				return fail("element %d: %v", j, err)
			}
		}
	}
	r.LabelIf(ambiguous > 0, "several-match")
	r.LabelIf(replaced > 0, "replaced")
	r.Nontrivial(sets > 1 && replaced > 0)
	return nil
}

func init() {
	prop.Register("C05", "search",
		"random documents, searches by name, namespace and arbitrary predicate from three elements each; non-trivial: more than three elements and more than two hits",
		genSearch, checkSearch, prop.Counts(20000, 300000))
	prop.Register("C05", "attrs",
		"histories of attribute reads and writes over all elements of a document; non-trivial: several writes, one of which replaces",
		genAttr, checkAttr, prop.Counts(20000, 300000))
}
