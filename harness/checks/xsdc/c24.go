package xsdc

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/wsdl"
	"pgregory.net/rapid"
)

type serviceCase struct{ Service smodel.Service }

func genService(t *rapid.T) serviceCase { return serviceCase{smodel.GenService(t)} }

func words(ds ...string) string { return strings.Join(strings.Fields(strings.Join(ds, " ")), " ") }

func qname(n xml.Name) string {
	if n.Local == "" {
		return "none"
	}
	return fmt.Sprintf("{%s}%s", n.Space, n.Local)
}

func checkService(c serviceCase, r *prop.Rec) error {
	s := &c.Service
	doc := s.Render()
	data := append([]byte(nil), doc...)
	def, err := wsdl.Parse(data)
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%s\n%s", fmt.Sprintf(format, a...), doc)
	}
	if err != nil {
		return fail("Parse: %v", err)
	}
	if string(data) != string(doc) {
		return fail("the document was modified")
	}
	if def.TargetNS != s.TNS {
		return fail("target namespace %q, want %q", def.TargetNS, s.TNS)
	}
	var docs []string
	for _, e := range s.Services {
		docs = append(docs, e.Docs...)
	}
	if w, g := words(docs...), words(def.Doc); w != g {
		return fail("documentation %q, want %q", g, w)
	}
	want := s.Ports()
	if len(want) != len(def.Ports) {
		return fail("%d ports, want %d", len(def.Ports), len(want))
	}
	n := 0
	for i, w := range want {
		g := def.Ports[i]
		if g.Name != w.Name || g.Address != w.Address || g.Method != w.Method {
			return fail("port %d is %q at %q by %q, want %q at %q by %q", i, g.Name, g.Address, g.Method, w.Name, w.Address, w.Method)
		}
		if len(g.Operations) != len(w.Ops) {
			return fail("port %s: %d operations, want %d", w.Name, len(g.Operations), len(w.Ops))
		}
		for j, wo := range w.Ops {
			o := g.Operations[j]
			if want := (xml.Name{Space: s.TNS, Local: wo.Name}); o.Name != want {
				return fail("port %s: operation %d is %v, want %v", w.Name, j, o.Name, want)
			}
			if o.SOAPAction != wo.Action {
				return fail("port %s operation %s: action %q, want %q", w.Name, wo.Name, o.SOAPAction, wo.Action)
			}
			if qname(o.Input) != qname(wo.In) || qname(o.Output) != qname(wo.Out) {
				return fail("port %s operation %s: %s to %s, want %s to %s", w.Name, wo.Name, qname(o.Input), qname(o.Output), qname(wo.In), qname(wo.Out))
			}
			if w, g := words(wo.Docs...), words(o.Doc); w != g {
				return fail("operation %s: documentation %q, want %q", wo.Name, g, w)
			}
			n++
		}
	}
	if len(def.Message) != len(s.Messages) {
		return fail("%d messages, want %d", len(def.Message), len(s.Messages))
	}
	for _, m := range s.Messages {
		key := xml.Name{Space: s.TNS, Local: m.Name}
		g, ok := def.Message[key]
		if !ok || g.Name != key {
			return fail("message %v is %v", key, g)
		}
		if len(g.Parts) != len(m.Parts) {
			return fail("message %s: %d parts, want %d", m.Name, len(g.Parts), len(m.Parts))
		}
		for j, p := range m.Parts {
			gp := g.Parts[j]
			if gp.Name != p.Name || qname(gp.Type) != qname(p.Type) || qname(gp.Element) != qname(p.Element) {
				return fail("message %s part %d: %s type %s element %s, want %s type %s element %s", m.Name, j,
					gp.Name, qname(gp.Type), qname(gp.Element), p.Name, qname(p.Type), qname(p.Element))
			}
		}
	}
	r.LabelIf(len(s.Services) > 1, "several services")
	r.LabelIf(len(want) > 1, "several ports")
	r.LabelIf(s.TNS == "", "no target namespace")
	for _, b := range s.Bindings {
		r.Label("binding: " + b.Kind)
	}
	r.LabelIf(s.Style.Shuffle, "sections permuted")
	r.Nontrivial(n > 0 && len(s.Messages) > 0)
	return nil
}

func init() {
	prop.Register("C24", "definition", "at least one operation and one message", genService, checkService, prop.Counts(15000, 500000))
}
