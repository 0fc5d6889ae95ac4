package tree

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
	"pgregory.net/rapid"
)

type byteCase struct{ Src []byte }

var tokens = []string{
	"<", ">", "/>", "</", "<a>", "</a>", "<b x='1'>", "</b>", "<a", "=", "'", "\"", "&amp;", "&", ";", "&#0;", "&#x10FFFF;", "&bogus;",
	"<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='iso-8859-1'?>", "<?xml version='1.0' encoding='utf-16'?>", "<?xml version=\"1.0\" encoding=\"shift_jis\"?>",
	"<!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY e 'x'>]>", "<?pi ?>", " xmlns='u'", " xmlns:p='v'", " xmlns:p=''", "p:", "<p:a>", "</p:a>", ":", "xml:lang='x'", " x='1' x='2'",
	" ", "\n", "text", "é", "\xff", "\xe9", "\x00", "\ufeff", "日本", "]]", "<:a>", "<a:>", "<a:b:c>", "xmlns:xmlns='q'", "<xmlns:a/>", "<xml:a/>",
}

func genBytes(t *rapid.T) byteCase {
	switch prop.Int(t, 5) {
	case 4: // an encoding declared in the wrong place
		d := xmodel.Gen(t, xmodel.Style{MaxNodes: 5})
		src := d.Render().Src
		i := prop.Int(t, len(src))
		decl := prop.Pick(t, `<?xml version="1.0" encoding="latin1"?>`, `<?xml version='1.0' encoding='utf-16le'?>`, `<?xml encoding='shift_jis' version='1.0'?>`)
		return byteCase{append(src[:i:i], append([]byte(decl), src[i:]...)...)}
	case 0:
		return byteCase{rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")}
	case 1:
		var b bytes.Buffer
		for k := prop.Range(t, 1, 14); k > 0; k-- {
			b.WriteString(prop.Pick(t, tokens...))
		}
		return byteCase{b.Bytes()}
	}
	d := xmodel.Gen(t, xmodel.Style{MaxNodes: 10})
	src := append([]byte(nil), d.Render().Src...)
	for k := prop.Range(t, 1, 4); k > 0 && len(src) > 0; k-- {
		i := prop.Int(t, len(src))
		switch prop.Int(t, 6) {
		case 0:
			src[i] = rapid.Byte().Draw(t, "b")
		case 1:
			src = append(src[:i], src[i+1:]...)
		case 2:
			src = src[:i]
		case 3: // copy a piece of the document elsewhere
			j := prop.Int(t, len(src))
			l := prop.Range(t, 1, 30)
			if j+l > len(src) {
				l = len(src) - j
			}
			piece := append([]byte(nil), src[j:j+l]...)
			src = append(src[:i:i], append(piece, src[i:]...)...)
		default:
			src = append(src[:i:i], append([]byte(prop.Pick(t, tokens...)), src[i:]...)...)
		}
	}
	return byteCase{src}
}

func checkBytes(c byteCase, r *prop.Rec) error {
	in := append([]byte(nil), c.Src...)
	root, err := xmltree.Parse(in)
	if !bytes.Equal(in, c.Src) {
		return fmt.Errorf("Parse changed its input %q", c.Src)
	}
	if err != nil {
		r.Label("error")
		return nil
	}
	if root == nil {
		return fmt.Errorf("neither a tree nor an error for %q", c.Src)
	}
	all := root.Flatten()
	if n := len(flat(root)) - 1; n != len(all) {
		return fmt.Errorf("Flatten lists %d of %d descendants in %q", len(all), n, c.Src)
	}
	root.Search("", "a")
	// not always true: what parses need not be well formed (repeated attributes)
	xmltree.Equal(root, root)
	for _, el := range append(all, root) {
		el.Resolve("p:x")
		el.ResolveNS(":")
		el.ResolveDefault("", "d")
		el.Prefix(xml.Name{Space: "u", Local: "x"})
		el.Attr("", "x")
		out := xmltree.Marshal(el)
		if len(out) == 0 {
			return fmt.Errorf("no output for <%s> in %q", el.Name.Local, c.Src)
		}
		var buf bytes.Buffer
		if err := xmltree.Encode(&buf, el); err != nil || !bytes.Equal(buf.Bytes(), out) {
			return fmt.Errorf("Encode gives %q, %v; Marshal %q", buf.Bytes(), err, out)
		}
		xmltree.MarshalIndent(el, " ", " ")
		var v anyEl
		xmltree.Unmarshal(el, &v)
	}
	r.Label("tree")
	r.Nontrivial(true)
	return nil
}

type depthCase struct {
	Levels int
	Style  string
}

func (c depthCase) doc() []byte {
	var b bytes.Buffer
	open := func(s string) {
		for i := 0; i < c.Levels; i++ {
			b.WriteString(s)
		}
	}
	switch c.Style {
	case "plain":
		open("<a>")
	case "attrs":
		open("<a x='1'><b/>")
	case "redeclare":
		open("<a xmlns='u' xmlns:p='v'>")
	case "distinct":
		for i := 0; i < c.Levels; i++ {
			fmt.Fprintf(&b, "<a xmlns:p%d='u%d'>", i, i)
		}
	}
	open("</a>")
	return b.Bytes()
}

// recursionLimit is the nesting depth documented for Parse: 3000.
const recursionLimit = 3000

func checkDepth(c depthCase, r *prop.Rec) error {
	root, err := xmltree.Parse(c.doc())
	if c.Levels > recursionLimit+1 {
		if err == nil {
			return fmt.Errorf("%d levels accepted", c.Levels)
		}
		r.Label("rejected")
		r.Nontrivial(true)
		return nil
	}
	if err != nil {
		if c.Levels == recursionLimit+1 {
			return nil
		}
		return fmt.Errorf("%d levels rejected: %v", c.Levels, err)
	}
	n := len(root.Flatten()) + 1
	if c.Style == "attrs" {
		n /= 2
	}
	if n != c.Levels {
		return fmt.Errorf("%d levels in the tree, want %d", n, c.Levels)
	}
	if !xmltree.Equal(root, root) {
		return fmt.Errorf("not Equal to itself")
	}
	back, err := xmltree.Parse(xmltree.Marshal(root))
	if err != nil {
		return fmt.Errorf("output of %d levels: %v", c.Levels, err)
	}
	if a, b := len(root.Flatten()), len(back.Flatten()); a != b {
		return fmt.Errorf("%d elements written, %d read back", a+1, b+1)
	}
	r.Label("accepted")
	r.Nontrivial(c.Levels > 1000)
	return nil
}

// cycleCase: element i's Children are elements Lo[i]:Hi[i] of one array.
type cycleCase struct {
	Lo, Hi []int
	Copy   bool // start from a copy of element 0 instead of element 0
	Indent bool
}

func genCycle(t *rapid.T) cycleCase {
	n := prop.Range(t, 1, 5)
	c := cycleCase{Copy: prop.Chance(t, 6), Indent: prop.Chance(t, 4)}
	for i := 0; i < n; i++ {
		lo := prop.Int(t, n+1)
		hi := prop.Range(t, lo, n)
		c.Lo, c.Hi = append(c.Lo, lo), append(c.Hi, hi)
	}
	return c
}

func checkCycle(c cycleCase, r *prop.Rec) error {
	n := len(c.Lo)
	arr := make([]xmltree.Element, n)
	for i := range arr {
		arr[i].Name.Local = fmt.Sprintf("e%d", i)
		arr[i].Children = arr[c.Lo[i]:c.Hi[i]:c.Hi[i]]
	}
	root := &arr[0]
	if c.Copy {
		cp := arr[0]
		root = &cp
	}
	// what a depth-first walk that stops at elements it is inside of finds
	type node struct {
		name string
		kids []*node
	}
	cycles := 0
	var walk func(i int, path map[int]bool) *node
	walk = func(i int, path map[int]bool) *node {
		nd := &node{name: fmt.Sprintf("e%d", i)}
		for j := c.Lo[i]; j < c.Hi[i]; j++ {
			if path[j] {
				cycles++
				continue
			}
			path[j] = true
			nd.kids = append(nd.kids, walk(j, path))
			delete(path, j)
		}
		return nd
	}
	path := map[int]bool{0: true}
	if c.Copy {
		path = map[int]bool{}
	}
	want := walk(0, path)
	var out []byte
	if c.Indent {
		out = xmltree.MarshalIndent(root, "", " ")
	} else {
		out = xmltree.Marshal(root)
	}
	got, err := xmodel.Read(out)
	if err != nil {
		return fmt.Errorf("output for %+v: %v\n%s", c, err, out)
	}
	var cmp func(w *node, g *xmodel.El) error
	cmp = func(w *node, g *xmodel.El) error {
		if w.name != g.Name.Local || len(w.kids) != len(g.Kids) {
			return fmt.Errorf("<%s> with %d children, want <%s> with %d", g.Name.Local, len(g.Kids), w.name, len(w.kids))
		}
		for i := range w.kids {
			if err := cmp(w.kids[i], g.Kids[i]); err != nil {
				return err
			}
		}
		return nil
	}
	if err := cmp(want, got); err != nil {
		return fmt.Errorf("%v in the output for %+v\n%s", err, c, out)
	}
	if k := strings.Count(string(out), "<!--"); k != cycles {
		return fmt.Errorf("%d markers for %d cycles in %+v\n%s", k, cycles, c, out)
	}
	r.LabelIf(cycles > 0, "cyclic")
	r.Nontrivial(cycles > 0)
	return nil
}

var errDisk = errors.New("injected write error")

// faultWriter fails once Limit bytes have been written, or only at call Nth.
type faultWriter struct {
	limit, nth int
	buf        bytes.Buffer
	calls      int
	fired      bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.nth > 0 && w.calls == w.nth {
		w.fired = true
		return 0, errDisk
	}
	if w.limit >= 0 && w.buf.Len()+len(p) > w.limit {
		w.fired = true
		n, _ := w.buf.Write(p[:w.limit-w.buf.Len()])
		return n, errDisk
	}
	return w.buf.Write(p)
}

func checkFaults(d xmodel.Doc, r *prop.Rec) error {
	x := d.Render()
	root, err := xmltree.Parse(append([]byte(nil), x.Src...))
	if err != nil {
		return err
	}
	out := xmltree.Marshal(root)
	clean := &faultWriter{limit: -1}
	if err := xmltree.Encode(clean, root); err != nil || !bytes.Equal(clean.buf.Bytes(), out) {
		return fmt.Errorf("Encode gives %q, %v; Marshal %q", clean.buf.Bytes(), err, out)
	}
	run := func(w *faultWriter, what string) error {
		err := xmltree.Encode(w, root)
		r.Work++
		if !w.fired {
			return prop.Infra("%s did not fire for %q", what, out)
		}
		if err == nil {
			return fmt.Errorf("%s was not reported while writing\n%s", what, out)
		}
		if !errors.Is(err, errDisk) {
			return fmt.Errorf("%s was reported as %v", what, err)
		}
		if w.limit >= 0 && !bytes.HasPrefix(out, w.buf.Bytes()) {
			return fmt.Errorf("%s: wrote %q, not a prefix of %q", what, w.buf.Bytes(), out)
		}
		return nil
	}
	for k := 0; k < len(out); k++ {
		if len(out) > 400 && k%7 != 0 && k < len(out)-20 {
			continue
		}
		if err := run(&faultWriter{limit: k}, fmt.Sprintf("a write error after %d bytes", k)); err != nil {
			return err
		}
	}
	for n := 1; n <= clean.calls; n++ {
		if err := run(&faultWriter{limit: -1, nth: n}, fmt.Sprintf("an error of write call %d of %d", n, clean.calls)); err != nil {
			return err
		}
	}
	r.Nontrivial(len(x.Root.All()) > 2)
	return nil
}

func init() {
	prop.Register("C08", "bytes",
		"arbitrary bytes, token soup, mutated documents; every operation on every element of what parses; non-trivial: it parses",
		genBytes, checkBytes, prop.Counts(60000, 1500000))
	levels := []int{1, 100, 999, 1001, 1999, 2500, 2990, 2998, 2999, 3000, 3001, 3002, 3003, 3010, 4000, 20000, 200000}
	styles := []string{"plain", "attrs", "redeclare", "distinct"}
	prop.Enumerate("C08", "depth",
		"documents of every listed number of levels in four styles; non-trivial: more than 1000 levels",
		func() int { return len(levels) * len(styles) },
		func(i int) depthCase { return depthCase{levels[i/len(styles)], styles[i%len(styles)]} }, checkDepth)
	prop.Register("C08", "cycles",
		"up to five elements in one array, each with a run of the array as children; non-trivial: a cycle is reachable",
		genCycle, checkCycle, prop.Counts(5000, 100000))
	prop.Register("C08", "faults",
		"a failing writer at every output byte (sampled beyond 400) and at every write call; non-trivial: more than two elements",
		func(t *rapid.T) xmodel.Doc { return xmodel.Gen(t, xmodel.Style{MaxNodes: 7}) },
		checkFaults, prop.Counts(1200, 30000))
}
