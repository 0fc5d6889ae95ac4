package tree

import (
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
	"pgregory.net/rapid"
)

// eqNode is a namespaced tree without any writing choices.
type eqNode struct {
	Space, Local string
	Attrs        []eqAttr  `json:",omitempty"`
	Text         string    `json:",omitempty"` // raw, only without Kids
	Kids         []*eqNode `json:",omitempty"`
}

type eqAttr struct{ Space, Local, Value string }

// style of one rendering; the choices are pseudo-random in Seed.
type eqStyle struct {
	Seed                      int
	Shuffle, ShuffleAttr      bool
	Blank, LocalNS, DefaultNS bool
}

type eqMut struct {
	Kind    string
	At, Arg int
}

type eqVariant struct {
	Style eqStyle
	Muts  []eqMut
}

type eqCase struct {
	Tree     *eqNode
	Variants []eqVariant
}

var (
	eqSpaces = []string{"", "x", "xa", "urn:y"}
	eqLocals = []string{"a", "b", "ab", "xa"}
	eqTexts  = []string{"", "t", "u", "t u", "t  u", "t\n u", "T", "tu", "a&amp;b", "<!--c-->", "<![CDATA[x]]>", "t&lt;"}
	eqVals   = []string{"", "1", "2", "1 2", " 1", "1  2", "a", "A"}
)

func genEqNode(t *rapid.T, depth int, n *int) *eqNode {
	*n++
	x := &eqNode{Space: prop.Pick(t, eqSpaces...), Local: prop.Pick(t, eqLocals...)}
	if prop.Chance(t, 8) {
		x.Space, x.Local = "", "a"
	}
	seen := map[[2]string]bool{}
	for k := prop.Int(t, 4); k > 0; k-- {
		a := eqAttr{prop.Pick(t, eqSpaces...), prop.Pick(t, eqLocals...), prop.Pick(t, eqVals...)}
		if a.Space != "" && prop.Chance(t, 1) {
			a.Local = "xmlns" // no declaration
		}
		if !seen[[2]string{a.Space, a.Local}] {
			seen[[2]string{a.Space, a.Local}] = true
			x.Attrs = append(x.Attrs, a)
		}
	}
	if depth < 4 && *n < 20 {
		for k := prop.Int(t, 5); k > 0; k-- {
			x.Kids = append(x.Kids, genEqNode(t, depth+1, n))
		}
	}
	if len(x.Kids) == 0 {
		x.Text = prop.Pick(t, eqTexts...)
	}
	return x
}

var eqMuts = []string{"name", "space", "attrval", "attradd", "attrdel", "attrname", "text", "dup", "del", "swaptext", "swapattrs", "moveup", "swapkids"}

func genEq(t *rapid.T) eqCase {
	n := 0
	c := eqCase{Tree: genEqNode(t, 0, &n)}
	for i := 0; i < 3; i++ {
		v := eqVariant{Style: eqStyle{prop.Int(t, 1<<16), prop.Chance(t, 10), prop.Chance(t, 8), prop.Chance(t, 6), prop.Chance(t, 8), prop.Chance(t, 8)}}
		if i > 0 && prop.Chance(t, 7) {
			for k := prop.Pick(t, 1, 1, 1, 2); k > 0; k-- {
				v.Muts = append(v.Muts, eqMut{prop.Pick(t, eqMuts...), prop.Int(t, 30), prop.Int(t, 30)})
			}
		}
		c.Variants = append(c.Variants, v)
	}
	return c
}

func (n *eqNode) copy() *eqNode {
	c := *n
	c.Attrs = append([]eqAttr(nil), n.Attrs...)
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.copy())
	}
	return &c
}

func (n *eqNode) all() []*eqNode {
	out := []*eqNode{n}
	for _, k := range n.Kids {
		out = append(out, k.all()...)
	}
	return out
}

// key is the canonical form: equal keys iff the trees are to be equal.
func (n *eqNode) key() string {
	var as, ks []string
	for _, a := range n.Attrs {
		as = append(as, fmt.Sprintf("%q=%q", a.Space+"}"+a.Local, a.Value))
	}
	sort.Strings(as)
	for _, k := range n.Kids {
		ks = append(ks, k.key())
	}
	sort.Strings(ks)
	s := fmt.Sprintf("(%q %v %v", n.Space+"}"+n.Local, as, ks)
	if len(n.Kids) == 0 {
		s += fmt.Sprintf("%q", strings.Trim(n.Text, " \t\r\n"))
	}
	return s + ")"
}

func (m eqMut) apply(root *eqNode) {
	all := root.all()
	n := all[m.At%len(all)]
	other := all[m.Arg%len(all)]
	hasAttr := func(s, l string) bool {
		for _, a := range n.Attrs {
			if a.Space == s && a.Local == l {
				return true
			}
		}
		return false
	}
	switch m.Kind {
	case "name":
		n.Local = eqLocals[m.Arg%len(eqLocals)]
	case "space":
		n.Space = eqSpaces[m.Arg%len(eqSpaces)]
	case "attrval":
		if len(n.Attrs) > 0 {
			n.Attrs[m.Arg%len(n.Attrs)].Value = eqVals[m.Arg%len(eqVals)]
		}
	case "attrname":
		if len(n.Attrs) > 0 {
			s, l := eqSpaces[m.Arg%4], eqLocals[m.Arg/4%4]
			if !hasAttr(s, l) {
				a := &n.Attrs[m.Arg%len(n.Attrs)]
				a.Space, a.Local = s, l
			}
		}
	case "attradd":
		s, l := eqSpaces[m.Arg%4], eqLocals[m.Arg/4%4]
		if !hasAttr(s, l) {
			n.Attrs = append(n.Attrs, eqAttr{s, l, eqVals[m.Arg%len(eqVals)]})
		}
	case "attrdel":
		if len(n.Attrs) > 0 {
			i := m.Arg % len(n.Attrs)
			n.Attrs = append(n.Attrs[:i:i], n.Attrs[i+1:]...)
		}
	case "text":
		n.Text = eqTexts[m.Arg%len(eqTexts)]
	case "dup":
		if len(n.Kids) > 0 {
			n.Kids = append(n.Kids, n.Kids[m.Arg%len(n.Kids)].copy())
		}
	case "del":
		if len(n.Kids) > 0 {
			i := m.Arg % len(n.Kids)
			n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
		}
	case "swaptext":
		n.Text, other.Text = other.Text, n.Text
	case "swapattrs":
		n.Attrs, other.Attrs = other.Attrs, n.Attrs
	case "moveup": // a grandchild becomes a child
		for i, k := range n.Kids {
			if len(k.Kids) > 0 {
				j := m.Arg % len(k.Kids)
				g := k.Kids[j]
				k.Kids = append(k.Kids[:j:j], k.Kids[j+1:]...)
				n.Kids = append(n.Kids[:i:i], append([]*eqNode{g}, n.Kids[i:]...)...)
				break
			}
		}
	case "swapkids": // two elements exchange their children
		in := func(a, b *eqNode) bool {
			for _, x := range a.all() {
				if x == b {
					return true
				}
			}
			return false
		}
		if !in(n, other) && !in(other, n) {
			n.Kids, other.Kids = other.Kids, n.Kids
		}
	}
}

// lcg keeps rendering choices a function of the case.
type lcg uint32

func (l *lcg) n(k int) int {
	*l = *l*1664525 + 1013904223
	return int(*l>>8) % k
}

func (n *eqNode) render(st eqStyle) string {
	var b strings.Builder
	l := lcg(st.Seed)
	order := []string{"x", "xa", "urn:y"}
	pre := map[string]string{}
	base := l.n(3)
	for i, s := range order {
		pre[s] = fmt.Sprintf("%c%d", "pqr"[(i+base)%3], l.n(2))
	}
	n.write(&b, st, &l, pre, map[string]string{}, "")
	return b.String()
}

func (n *eqNode) write(b *strings.Builder, st eqStyle, l *lcg, pre, scope map[string]string, def string) {
	decls := []string{}
	declare := func(p, ns string) {
		if p == "" {
			decls = append(decls, fmt.Sprintf(`xmlns="%s"`, ns))
			def = ns
			return
		}
		if scope[p] != ns {
			c := map[string]string{p: ns}
			for k, v := range scope {
				if k != p {
					c[k] = v
				}
			}
			scope = c
			decls = append(decls, fmt.Sprintf(`xmlns:%s="%s"`, p, ns))
		}
	}
	if !st.LocalNS && len(scope) == 0 {
		for s, p := range map[string]string{"x": pre["x"], "xa": pre["xa"], "urn:y": pre["urn:y"]} {
			declare(p, s)
		}
		sort.Strings(decls)
	}
	q := n.Local
	switch {
	case n.Space == def:
	case n.Space == "":
		declare("", "")
	case st.DefaultNS && l.n(2) == 0:
		declare("", n.Space)
	default:
		declare(pre[n.Space], n.Space)
		q = pre[n.Space] + ":" + n.Local
	}
	attrs := []string{}
	for _, a := range n.Attrs {
		aq := a.Local
		if a.Space != "" {
			declare(pre[a.Space], a.Space)
			aq = pre[a.Space] + ":" + a.Local
		}
		attrs = append(attrs, fmt.Sprintf(`%s="%s"`, aq, xmodel.Escape(a.Value)))
	}
	if st.ShuffleAttr {
		for i := len(attrs) - 1; i > 0; i-- {
			j := l.n(i + 1)
			attrs[i], attrs[j] = attrs[j], attrs[i]
		}
	}
	b.WriteString("<" + q)
	for _, d := range append(decls, attrs...) {
		b.WriteString(" " + d)
	}
	blank := func() {
		if st.Blank {
			b.WriteString([]string{"", " ", "\n\t", "\n"}[l.n(4)])
		}
	}
	if len(n.Kids) == 0 && n.Text == "" && l.n(2) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	blank()
	if len(n.Kids) == 0 {
		b.WriteString(n.Text)
	}
	idx := make([]int, len(n.Kids))
	for i := range idx {
		idx[i] = i
	}
	if st.Shuffle {
		for i := len(idx) - 1; i > 0; i-- {
			j := l.n(i + 1)
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	for _, i := range idx {
		n.Kids[i].write(b, st, l, pre, scope, def)
		blank()
	}
	blank()
	b.WriteString("</" + q + ">")
}

func checkEq(c eqCase, r *prop.Rec) error {
	var trees []*xmltree.Element
	var keys, docs []string
	var snaps []snapshot
	for _, v := range c.Variants {
		n := c.Tree.copy()
		for _, m := range v.Muts {
			m.apply(n)
		}
		// text next to children is not content
		for _, x := range n.all() {
			if len(x.Kids) > 0 {
				x.Text = ""
			}
		}
		src := n.render(v.Style)
		w, err := xmodel.Read([]byte(src))
		if err != nil {
			return prop.Infra("rendered %s: %v", src, err)
		}
		if err := sameModel(n, w, v.Style.Shuffle); err != nil {
			return prop.Infra("rendered %s: %v", src, err)
		}
		root, err := xmltree.Parse([]byte(src))
		if err != nil {
			return err
		}
		trees, keys, docs = append(trees, root), append(keys, n.key()), append(docs, src)
		snaps = append(snaps, snap(root))
	}
	eq, ne := 0, 0
	for i := range trees {
		for j := range trees {
			want := keys[i] == keys[j]
			if got := xmltree.Equal(trees[i], trees[j]); got != want {
				return fmt.Errorf("Equal is %v, want %v, for\n%s\n%s", got, want, docs[i], docs[j])
			}
			r.Work++
			if want && i != j && docs[i] != docs[j] {
				eq++
			}
			if !want {
				ne++
			}
			for k := range trees {
				if err := snapDiff(snaps[k], snap(trees[k]), ""); err != nil {
					return fmt.Errorf("comparing\n%s\n%s\nmodified a tree: %v", docs[i], docs[j], err)
				}
			}
		}
	}
	r.LabelIf(eq > 0, "equal-but-written-differently")
	r.LabelIf(ne > 0, "different")
	r.Nontrivial(len(c.Tree.all()) > 3 && eq+ne > 0)
	return nil
}

// sameModel guards the renderer: it must write the tree it was given.
func sameModel(n *eqNode, w *xmodel.El, shuffled bool) error {
	if got := fromEl(w).key(); got != n.key() {
		return fmt.Errorf("reads back as %s, want %s", got, n.key())
	}
	return nil
}

func fromEl(w *xmodel.El) *eqNode {
	n := &eqNode{Space: w.Name.Space, Local: w.Name.Local}
	for _, a := range w.Attrs {
		n.Attrs = append(n.Attrs, eqAttr{a.Name.Space, a.Name.Local, a.Value})
	}
	for _, k := range w.Kids {
		n.Kids = append(n.Kids, fromEl(k))
	}
	if len(w.Kids) == 0 {
		n.Text = w.Content
	}
	return n
}

type eqDeep struct {
	Depth int
	Diff  bool
}

func init() {
	prop.Register("C06", "equal",
		"a tree and two variants, each rendered with shuffled siblings and attributes, other prefixes and white space, some mutated; all ordered pairs judged against a canonical form; non-trivial: more than three elements and a pair that differs as text",
		genEq, checkEq, prop.Counts(15000, 300000))
	depths := []int{1, 50, 998, 999, 1000, 1001, 1002, 1500, 2500, 2990}
	prop.Enumerate("C06", "deep",
		"chains of single sub-elements of every listed depth, equal or different at the innermost element",
		func() int { return 2 * len(depths) },
		func(i int) eqDeep { return eqDeep{depths[i/2], i%2 == 1} },
		func(c eqDeep, r *prop.Rec) error {
			mk := func(leaf string) *xmltree.Element {
				el, err := xmltree.Parse([]byte(strings.Repeat("<a>", c.Depth) + leaf + strings.Repeat("</a>", c.Depth)))
				if err != nil {
					panic(err)
				}
				return el
			}
			leaf := "x"
			if c.Diff {
				leaf = "y"
			}
			a, b := mk("x"), mk(leaf)
			if got := xmltree.Equal(a, b); got == c.Diff {
				return fmt.Errorf("Equal is %v for two chains of depth %d with innermost content x and %s", got, c.Depth, leaf)
			}
			r.Nontrivial(c.Depth > 1)
			return nil
		})
}
