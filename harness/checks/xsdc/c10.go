package xsdc

import (
	"encoding/xml"
	"fmt"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
	"pgregory.net/rapid"
)

type rewriteCase struct {
	Set  *smodel.Set
	A, B smodel.Style
	Ops  []int
}

func genRewrite(t *rapid.T) rewriteCase {
	c := rewriteCase{Set: smodel.Gen(t, smodel.Full()), A: smodel.GenStyle(t), B: smodel.GenStyle(t)}
	for k := prop.Int(t, 5); k > 0; k-- {
		c.Ops = append(c.Ops, prop.Int(t, 1<<16))
	}
	return c
}

func find(ss []xsd.Schema, n xml.Name) xsd.Type {
	for _, s := range ss {
		if s.TargetNS == n.Space {
			if t := s.Types[n]; t != nil {
				return t
			}
		}
	}
	return nil
}

// checkRewrite compares what two ways of writing one set of schemas parse to,
// without asking the model what that should be.
func checkRewrite(c rewriteCase, r *prop.Rec) error {
	set2, transparent, kinds := smodel.Rewrite(c.Set, c.Ops)
	xa, xb := smodel.Render(c.Set, c.A), smodel.Render(set2, c.B)
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%s\nrewrites: %q\n%s=== rewritten\n%s", fmt.Sprintf(format, a...), kinds, show(xa.Docs), show(xb.Docs))
	}
	pa, err := xsd.Parse(clone(xa.Docs)...)
	if err != nil {
		return fail("Parse: %v", err)
	}
	pb, err := xsd.Parse(clone(xb.Docs)...)
	if err != nil {
		return fail("Parse after rewriting: %v", err)
	}
	d := &smodel.Dumper{Set: c.Set, Transparent: transparent}
	// d shows a type in place when the original does not declare it, so types
	// named by a rewrite are transparent on their own account.
	n := 0
	for i := range c.Set.Schemas {
		sc := &c.Set.Schemas[i]
		for _, t := range sc.Types {
			key := xml.Name{Space: sc.NS, Local: t.Name}
			ta, tb := find(pa, key), find(pb, key)
			if ta == nil || tb == nil {
				return fail("type %v: %v, rewritten %v", key, ta, tb)
			}
			if err := smodel.SameDump(d.Act(ta, nil), d.Act(tb, nil)); err != nil {
				return fail("type %v changed (want: before, got: after):\n%v", key, err)
			}
			n++
		}
		elemsA, elemsB := selfElems(pa, sc.NS), selfElems(pb, sc.NS)
		for _, e := range sc.Elems {
			a, okA := elemsA[e.Name]
			b, okB := elemsB[e.Name]
			if !okA || !okB {
				return fail("element %s is not in the document type of %q", e.Name, sc.NS)
			}
			if err := smodel.SameDump(d.ActElem(a, nil), d.ActElem(b, nil)); err != nil {
				return fail("element {%s}%s changed (want: before, got: after):\n%v", sc.NS, e.Name, err)
			}
		}
	}
	for _, k := range kinds {
		r.Label("rewrite: " + k)
	}
	a, b := c.A, c.B
	r.LabelIf(a.Default != b.Default || a.Prefixes != b.Prefixes || a.Local != b.Local, "prefixes differ")
	r.LabelIf(a.Shuffle || b.Shuffle, "declarations permuted")
	r.LabelIf(a.Explicit != b.Explicit, "defaults spelled out")
	r.LabelIf(a.Noise != b.Noise, "comments and white space")
	r.LabelIf(len(xa.Docs) != len(xb.Docs), "another number of documents")
	r.LabelIf(a.Wrap != b.Wrap, "inside another document")
	r.LabelIf(a.Reorder || b.Reorder, "documents permuted")
	r.Nontrivial(n > 0 && (len(kinds) > 0 || fmt.Sprint(xa.Docs) != fmt.Sprint(xb.Docs)))
	return nil
}

// selfElems gathers the global elements of a namespace.
func selfElems(ss []xsd.Schema, ns string) map[string]xsd.Element {
	out := map[string]xsd.Element{}
	for _, s := range ss {
		if s.TargetNS != ns {
			continue
		}
		if t, ok := s.Types[xml.Name{Space: ns, Local: "_self"}].(*xsd.ComplexType); ok {
			for _, e := range t.Elements {
				out[e.Name.Local] = e
			}
		}
	}
	return out
}

func init() {
	prop.Register("C10", "rewrite", "at least one declared type, and the two forms differ in more than nothing", genRewrite, checkRewrite, prop.Counts(4000, 120000))
}
