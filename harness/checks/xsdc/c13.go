package xsdc

import (
	"fmt"
	"sort"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
	"pgregory.net/rapid"
)

type importCase struct {
	Doc smodel.ImportDoc
	Cut int // when positive, bytes to take off the end
}

func genImportCase(t *rapid.T) importCase { return importCase{Doc: smodel.GenImports(t)} }

func genImportCut(t *rapid.T) importCase {
	c := importCase{Doc: smodel.GenImports(t)}
	c.Cut = prop.Range(t, 1, len(c.Doc.Render()))
	return c
}

func refList(refs []xsd.Ref) []string {
	var out []string
	for _, r := range refs {
		out = append(out, fmt.Sprintf("%q at %q", r.Namespace, r.Location))
	}
	sort.Strings(out)
	return out
}

func checkImports(c importCase, r *prop.Rec) error {
	doc := c.Doc.Render()
	data := append([]byte(nil), doc...)
	if c.Cut > 0 {
		data = data[:len(data)-c.Cut]
		if got, err := xsd.Imports(data); err == nil {
			return fmt.Errorf("no error, but %v, for a document that ends too early\n%s", got, data)
		}
		r.Nontrivial(true)
		r.LabelIf(len(data) == 0, "empty document")
		return nil
	}
	imports, includes := c.Doc.Want()
	var want []xsd.Ref
	for _, w := range append(append([]smodel.ImportRef{}, imports...), includes...) {
		want = append(want, xsd.Ref{Namespace: w.NS, Location: w.Loc})
	}
	got, err := xsd.Imports(data)
	if err != nil {
		return fmt.Errorf("Imports: %v\n%s", err, doc)
	}
	if w, g := refList(want), refList(got); fmt.Sprint(w) != fmt.Sprint(g) {
		return fmt.Errorf("references:\n want %s\n got  %s\n%s", w, g, doc)
	}
	if string(data) != string(doc) {
		return fmt.Errorf("the document was modified\n%s", doc)
	}
	kinds := map[string]bool{}
	dup := map[xsd.Ref]bool{}
	for _, w := range want {
		if dup[w] {
			kinds["the same reference twice"] = true
		}
		dup[w] = true
		if w.Location == "" {
			kinds["without a location"] = true
		}
	}
	for _, s := range c.Doc.Schemas {
		for _, it := range s.Items {
			kinds["item: "+it.Kind] = true
		}
	}
	for k := range kinds {
		r.Label(k)
	}
	r.LabelIf(c.Doc.Wrapped, "schemas inside another document")
	r.LabelIf(len(c.Doc.Schemas) > 1, "several schemas")
	r.LabelIf(len(c.Doc.Schemas) == 0, "no schema")
	r.Nontrivial(len(want) > 0)
	return nil
}

func init() {
	prop.Register("C13", "imports", "the document imports or includes something", genImportCase, checkImports, prop.Counts(20000, 600000))
	prop.Register("C13", "cut short", "always: the document is not well-formed", genImportCut, checkImports, prop.Counts(10000, 200000))
}
