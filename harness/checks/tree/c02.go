package tree

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
	"pgregory.net/rapid"
)

const xmlnsURI = "http://www.w3.org/2000/xmlns/"

// scopeModel is what a scope binds; rank orders declarations by closeness.
type scopeModel struct {
	ns   map[string]string
	rank map[string]int
}

var unboundPrefix = "zz"

// checkScope compares every observable of a scope with the model.
func checkScope(m scopeModel, s *xmltree.Scope, locals []string) error {
	pool := append([]string{unboundPrefix, "nope"}, xmodel.Prefixes...)
	for _, local := range locals {
		for _, p := range pool {
			q := qn(p, local)
			want, ok := xml.Name{Space: p, Local: local}, false
			if ns, bound := m.ns[p]; bound {
				want, ok = xml.Name{Space: ns, Local: local}, true
			}
			got, gotOK := s.ResolveNS(q)
			if got != want {
				return fmt.Errorf("ResolveNS(%q) = %v, want %v", q, got, want)
			}
			if gotOK != ok && !(p == "" && !ok) { // an unprefixed name without default namespace has no prefix to resolve
				return fmt.Errorf("ResolveNS(%q) ok=%v, want %v", q, gotOK, ok)
			}
			if got := s.Resolve(q); got != want {
				return fmt.Errorf("Resolve(%q) = %v, want %v", q, got, want)
			}
			for _, def := range []string{"", "urn:default", "urn:x"} {
				w := want
				if p == "" && def != "" {
					w = xml.Name{Space: def, Local: local}
				}
				if got := s.ResolveDefault(q, def); got != w {
					return fmt.Errorf("ResolveDefault(%q,%q) = %v, want %v", q, def, got, w)
				}
			}
		}
		for _, rp := range []struct{ p, ns string }{{"xml", xmodel.XMLNS}, {"xmlns", xmlnsURI}} {
			n := xml.Name{Space: rp.ns, Local: local}
			if got, ok := s.ResolveNS(rp.p + ":" + local); !ok || got != n {
				return fmt.Errorf("ResolveNS(%s:%s) = %v %v, want %v", rp.p, local, got, ok, n)
			}
			if got := s.Prefix(n); got != rp.p+":"+local {
				return fmt.Errorf("Prefix(%v) = %q, want %q", n, got, rp.p+":"+local)
			}
		}
		for _, u := range append([]string{"", "urn:unknown"}, xmodel.URIs...) {
			n := xml.Name{Space: u, Local: local}
			got := s.Prefix(n)
			best := -1
			for p, ns := range m.ns {
				if ns == u && p != "" && p != "xml" && m.rank[p] > best {
					best = m.rank[p]
				}
			}
			def := u != "" && m.ns[""] == u
			i := strings.Index(got, ":")
			switch {
			case u == "" || def || best < 0:
				if got != local {
					return fmt.Errorf("Prefix(%v) = %q, want the unqualified name (bindings %v)", n, got, m.ns)
				}
			case i < 0:
				return fmt.Errorf("Prefix(%v) = %q, want a prefixed name (bindings %v)", n, got, m.ns)
			default:
				p := got[:i]
				if got[i+1:] != local || m.ns[p] != u {
					return fmt.Errorf("Prefix(%v) = %q, which means {%s}%s (bindings %v)", n, got, m.ns[p], got[i+1:], m.ns)
				}
				if m.rank[p] != best {
					return fmt.Errorf("Prefix(%v) = %q, not the closest prefix (bindings %v)", n, got, m.ns)
				}
				if back, ok := s.ResolveNS(got); !ok || back != n {
					return fmt.Errorf("Prefix(%v) = %q, which resolves to %v", n, got, back)
				}
			}
		}
	}
	return nil
}

func modelOf(e *xmodel.El) scopeModel {
	m := scopeModel{map[string]string{}, map[string]int{}}
	for p, u := range e.Scope {
		if p != "xml" {
			m.ns[p] = u
			m.rank[p] = e.DeclAt[p]
		}
	}
	return m
}

type joinCase struct {
	Docs []xmodel.Doc
	Pick []int // starting scopes: index into all elements
	Ops  [][2]int
}

func init() {
	prop.Register("C02", "resolve",
		"every element scope of random documents x every pool prefix, namespace and local name; non-trivial: some prefix is redeclared or a default namespace undeclared",
		func(t *rapid.T) xmodel.Doc {
			return xmodel.Gen(t, xmodel.Style{MaxNodes: 14, NoComments: true})
		},
		func(d xmodel.Doc, r *prop.Rec) error {
			x := d.Render()
			labelDoc(r, x.Root)
			root, err := xmltree.Parse(append([]byte(nil), x.Src...))
			if err != nil {
				return err
			}
			want, got := x.Root.All(), flat(root)
			if len(want) != len(got) {
				return fmt.Errorf("%d elements, want %d", len(got), len(want))
			}
			shadow := false
			for i := range want {
				m := modelOf(want[i])
				locals := []string{got[i].Name.Local}
				if i == 0 {
					locals = append(locals, "other", "")
				}
				if err := checkScope(m, &got[i].Scope, locals); err != nil {
					return fmt.Errorf("at element %d <%s>: %v\n%s", i, want[i].Name.Local, err, x.Src)
				}
				r.Work++
				for p, u := range want[i].Scope {
					if par := want[i].Parent; par != nil {
						if v, ok := par.Scope[p]; ok && v != u {
							shadow = true
						}
					}
				}
			}
			r.Nontrivial(shadow)
			return nil
		}, prop.Counts(12000, 240000))

	prop.Register("C02", "join",
		"histories of scope joins over element scopes of several documents, every scope re-checked after every join; non-trivial: two joins from the same joined scope",
		func(t *rapid.T) joinCase {
			var c joinCase
			n := 0
			for k := prop.Range(t, 1, 3); k > 0; k-- {
				d := xmodel.Gen(t, xmodel.Style{MaxNodes: 5, NoComments: true})
				c.Docs = append(c.Docs, d)
				n += len(d.Render().Root.All())
			}
			for k := prop.Range(t, 1, 4); k > 0; k-- {
				c.Pick = append(c.Pick, prop.Int(t, n))
			}
			for k := prop.Range(t, 1, 8); k > 0; k-- {
				m := len(c.Pick) + len(c.Ops)
				c.Ops = append(c.Ops, [2]int{prop.Int(t, m), prop.Int(t, m)})
			}
			return c
		},
		func(c joinCase, r *prop.Rec) error {
			var els []*xmltree.Element
			var want []*xmodel.El
			for _, d := range c.Docs {
				x := d.Render()
				root, err := xmltree.Parse(append([]byte(nil), x.Src...))
				if err != nil {
					return err
				}
				els = append(els, flat(root)...)
				want = append(want, x.Root.All()...)
			}
			var scopes []*xmltree.Scope
			var models []scopeModel
			for _, i := range c.Pick {
				scopes = append(scopes, &els[i].Scope)
				models = append(models, modelOf(want[i]))
			}
			from := map[int]int{}
			for k, op := range c.Ops {
				a, b := op[0], op[1]
				if a >= len(c.Pick) {
					from[a]++
				}
				j := scopes[a].JoinScope(scopes[b])
				m := scopeModel{map[string]string{}, map[string]int{}}
				max := 0
				for p, u := range models[a].ns {
					m.ns[p], m.rank[p] = u, models[a].rank[p]
					if models[a].rank[p] > max {
						max = models[a].rank[p]
					}
				}
				for p, u := range models[b].ns {
					m.ns[p], m.rank[p] = u, models[b].rank[p]+max+1
				}
				scopes, models = append(scopes, j), append(models, m)
				for i := range scopes {
					if err := checkScope(models[i], scopes[i], []string{"n"}); err != nil {
						return fmt.Errorf("after join %d (%d with %d), scope %d: %v", k, a, b, i, err)
					}
				}
			}
			two := false
			for _, n := range from {
				two = two || n > 1
			}
			r.LabelIf(two, "two joins from one joined scope")
			r.Nontrivial(two)
			return nil
		}, prop.Counts(8000, 160000))
}
