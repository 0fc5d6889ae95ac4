package tree

import (
	"bytes"
	"fmt"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
	"pgregory.net/rapid"
)

type badDoc struct {
	Src  []byte
	What string
}

func labelDoc(r *prop.Rec, e *xmodel.El) {
	n, depth, shadow, mixed, decls := 0, 0, false, false, 0
	e.Walk(func(x *xmodel.El) {
		n++
		d := 0
		for p := x.Parent; p != nil; p = p.Parent {
			d++
		}
		if d > depth {
			depth = d
		}
		mixed = mixed || x.Mixed
		decls += x.NSDecls
		if x.Parent != nil {
			for p, u := range x.Scope {
				if v, ok := x.Parent.Scope[p]; ok && v != u {
					shadow = true
				}
			}
		}
	})
	r.LabelIf(n == 1, "single element")
	r.LabelIf(n > 10, "more than 10 elements")
	r.LabelIf(depth >= 3, "depth >= 3")
	r.LabelIf(shadow, "redeclared prefix")
	r.LabelIf(mixed, "mixed content")
	r.LabelIf(decls >= 3, "3+ namespace declarations")
	r.Nontrivial(n > 2 && (decls > 0 || mixed || depth > 1))
}

func init() {
	prop.Register("C01", "faithful",
		"random namespace-correct documents from an abstract model, compared element by element with the model's own reading; non-trivial: more than two elements with declarations, nesting or mixed content",
		func(t *rapid.T) xmodel.Doc { return xmodel.Gen(t, xmodel.Style{}) },
		func(d xmodel.Doc, r *prop.Rec) error {
			x := d.Render()
			labelDoc(r, x.Root)
			src := append([]byte(nil), x.Src...)
			el, err := xmltree.Parse(src)
			if err != nil {
				return fmt.Errorf("well-formed document rejected: %v\n%s", err, x.Src)
			}
			if err := match(x.Root, el, true); err != nil {
				return fmt.Errorf("%v\n%s", err, x.Src)
			}
			if !bytes.Equal(src, x.Src) {
				return fmt.Errorf("Parse changed the caller's bytes\n%s\n%s", x.Src, src)
			}
			return nil
		}, prop.Counts(30000, 600000))

	prop.Register("C01", "rejects",
		"one single-fault corruption (truncation, renamed/removed/re-prefixed end tag, stray markup, no root) of a well-formed document; non-trivial: always",
		genBad,
		func(b badDoc, r *prop.Rec) error {
			r.Label(b.What)
			r.Nontrivial(true)
			el, err := xmltree.Parse(append([]byte(nil), b.Src...))
			if err == nil {
				return fmt.Errorf("ill-formed document (%s) accepted as <%s>:\n%s", b.What, el.Name.Local, b.Src)
			}
			return nil
		}, prop.Counts(20000, 400000))
}

func genBad(t *rapid.T) badDoc {
	d := xmodel.Gen(t, xmodel.Style{MaxNodes: 12})
	x := d.Render()
	src := append([]byte(nil), x.Src...)
	splice := func(from, to int, s string) []byte {
		out := append([]byte(nil), src[:from]...)
		out = append(out, s...)
		return append(out, src[to:]...)
	}
	kind := prop.Int(t, 8)
	if len(x.EndTags) == 0 && kind < 3 {
		kind = 3
	}
	if len(x.TextPos) == 0 && kind >= 4 && kind <= 5 {
		kind = 3
	}
	switch kind {
	case 0:
		et := prop.Pick(t, x.EndTags...)
		return badDoc{splice(et.Start, et.End, "</"+qn(et.Prefix, et.Local+"zz")+">"), "renamed end tag"}
	case 1:
		et := prop.Pick(t, x.EndTags...)
		return badDoc{splice(et.Start, et.End, ""), "missing end tag"}
	case 2:
		et := prop.Pick(t, x.EndTags...)
		p := "zz"
		if et.Prefix != "" {
			p = prop.Pick(t, "", "zz")
		}
		return badDoc{splice(et.Start, et.End, "</"+qn(p, et.Local)+">"), "end tag with another prefix"}
	case 3:
		cut := x.RootStart + prop.Int(t, x.RootEnd-x.RootStart)
		return badDoc{src[:cut], "truncated"}
	case 4:
		at := prop.Pick(t, x.TextPos...)
		return badDoc{splice(at, at, prop.Pick(t, "&undefined;", "& ", "<", "< a>", "<1/>", "</zz>")), "stray markup"}
	case 5:
		at := prop.Pick(t, x.TextPos...)
		return badDoc{splice(at, at, "<zz>"), "extra start tag"}
	case 6:
		d.Root = nil
		return badDoc{d.Render().Src, "no root element"}
	default:
		at := prop.Pick(t, x.TagPos...)
		return badDoc{splice(at, at, prop.Pick(t, " zz=1", " zz=\"<\"", " zz", " =\"1\"", " zz=\"&bogus;\"")), "bad attribute"}
	}
}
