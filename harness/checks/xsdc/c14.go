package xsdc

import (
	"embed"
	"encoding/xml"
	"fmt"
	"path"
	"regexp"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/wsdl"
	"aqwari.net/xml/xsd"
	"pgregory.net/rapid"
)

//go:embed corpus/*
var corpusFS embed.FS

var corpus = func() (out [][]byte) {
	es, err := corpusFS.ReadDir("corpus")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		b, err := corpusFS.ReadFile(path.Join("corpus", e.Name()))
		if err != nil {
			panic(err)
		}
		out = append(out, b)
	}
	return out
}()

// total calls every parser on the documents. Only panics, hangs and results
// that cannot be walked are wrong.
func total(docs [][]byte, r *prop.Rec) error {
	for _, d := range docs {
		if _, err := xsd.Imports(append([]byte(nil), d...)); err == nil {
			r.Label("well-formed")
		}
		if def, err := wsdl.Parse(append([]byte(nil), d...)); err == nil {
			_ = def.String()
			ops := 0
			for _, p := range def.Ports {
				ops += len(p.Operations)
			}
			r.LabelIf(ops > 0, "WSDL with operations")
		}
	}
	if trees, err := xsd.Normalize(clone(docs)...); err == nil {
		for _, t := range trees {
			if t == nil {
				return fmt.Errorf("Normalize returned a nil tree\n%s", show(docs))
			}
		}
	}
	got, err := xsd.Parse(clone(docs)...)
	if err != nil {
		if err.Error() == "" {
			return fmt.Errorf("the error says nothing\n%s", show(docs))
		}
		r.Label("rejected: " + class(err))
		return nil
	}
	r.Label("accepted")
	for i := range got {
		for n, t := range got[i].Types {
			if isNilType(t) {
				return fmt.Errorf("type %v is nil\n%s", n, show(docs))
			}
			k := 0
			for b := t; ; k++ {
				if _, ok := b.(xsd.Builtin); ok {
					break
				}
				if k > 10000 {
					return fmt.Errorf("the base chain of %v does not end\n%s", n, show(docs))
				}
				if b = xsd.Base(b); isNilType(b) {
					return fmt.Errorf("the base chain of %v ends without a built-in\n%s", n, show(docs))
				}
			}
		}
		got[i].FindType(xml.Name{Space: "urn:unknown", Local: "x"})
	}
	return nil
}

var quoted = regexp.MustCompile(`[{(<"].*|[0-9]+.*|in schema.*|namespace.*|circular.*| at .*|:.*`)

func class(err error) string {
	f := strings.Fields(quoted.ReplaceAllString(err.Error(), ""))
	if len(f) > 4 {
		f = f[:4]
	}
	return strings.Join(f, " ")
}

type mutCase struct {
	Set   *smodel.Set
	Style smodel.Style
	Muts  []smodel.Mut
}

func genMut(t *rapid.T) mutCase {
	return mutCase{smodel.Gen(t, smodel.Full()), smodel.GenStyle(t), smodel.GenMuts(t, 1, 5)}
}

func checkMut(c mutCase, r *prop.Rec) error {
	x := smodel.RenderMutated(c.Set, c.Style, c.Muts)
	for _, m := range c.Muts {
		r.Labelf("mutation %d", m.Op)
	}
	r.Nontrivial(true)
	return total(x.Docs, r)
}

type mutService struct {
	Service smodel.Service
	Muts    []smodel.Mut
}

func genMutService(t *rapid.T) mutService {
	return mutService{smodel.GenService(t), smodel.GenMuts(t, 1, 6)}
}

func checkMutService(c mutService, r *prop.Rec) error {
	r.Nontrivial(true)
	return total([][]byte{c.Service.RenderMutated(c.Muts)}, r)
}

type invalidCase struct {
	Set       *smodel.Set
	Style     smodel.Style
	Pick, Val int
}

func genInvalid(t *rapid.T) invalidCase {
	return invalidCase{smodel.Gen(t, smodel.Full()), smodel.GenStyle(t), prop.Int(t, 1<<12), prop.Int(t, 1<<6)}
}

func checkInvalid(c invalidCase, r *prop.Rec) error {
	x, inv := smodel.RenderInvalid(c.Set, c.Style, c.Pick, c.Val)
	r.Nontrivial(inv != nil)
	if inv == nil {
		return nil
	}
	r.Labelf("%s of %s", inv.Attr, inv.Elem)
	r.LabelIf(inv.Place != "", "in a named type")
	_, err := xsd.Parse(clone(x.Docs)...)
	if err == nil {
		return fmt.Errorf("%s=%q of %s in type %q: no error\n%s", inv.Attr, inv.Value, inv.Elem, inv.Place, show(x.Docs))
	}
	if inv.Place != "" && !strings.Contains(err.Error(), inv.Place+")") {
		return fmt.Errorf("%s=%q of %s in type %q: the error does not name the type: %v\n%s", inv.Attr, inv.Value, inv.Elem, inv.Place, err, show(x.Docs))
	}
	if !strings.Contains(err.Error(), inv.Value) {
		return fmt.Errorf("%s=%q of %s in type %q: the error does not name the value: %v\n%s", inv.Attr, inv.Value, inv.Elem, inv.Place, err, show(x.Docs))
	}
	return nil
}

// textCase is a document of the repository, with its text changed.
type textCase struct{ Docs []string }

var (
	tagRE  = regexp.MustCompile(`<[^<>]*>`)
	attrRE = regexp.MustCompile(`[\w:.-]+="[^"]*"`)
)

func genText(t *rapid.T) textCase {
	var c textCase
	n := 1
	if prop.Chance(t, 3) {
		n = 2
	}
	for ; n > 0; n-- {
		var s string
		if prop.Chance(t, 1) {
			s = string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
		} else {
			s = string(corpus[prop.Int(t, len(corpus))])
		}
		for k := prop.Range(t, 1, 4); k > 0; k-- {
			s = mutText(t, s)
		}
		c.Docs = append(c.Docs, s)
	}
	return c
}

func mutText(t *rapid.T, s string) string {
	cut := func() (int, int) {
		i := prop.Int(t, len(s)+1)
		j := i + prop.Int(t, len(s)-i+1)
		return i, j
	}
	pick := func(re *regexp.Regexp) []int {
		all := re.FindAllStringIndex(s, -1)
		if len(all) == 0 {
			return nil
		}
		return all[prop.Int(t, len(all))]
	}
	op := prop.Int(t, 9)
	switch op {
	case 0: // cut short
		return s[:prop.Int(t, len(s)+1)]
	case 1: // remove a few bytes
		i, _ := cut()
		j := i + prop.Int(t, 12)
		if j > len(s) {
			j = len(s)
		}
		return s[:i] + s[j:]
	case 2: // put in a token
		i, _ := cut()
		return s[:i] + prop.Pick(t, "<", ">", "&", "/", "\"", "]]>", "<!--", "<?", "&#0;", "\x00", "\xff", "<a>", "</a>", "xmlns=\"\"", "<!DOCTYPE a [") + s[i:]
	case 3, 4: // tags
		a, b := pick(tagRE), pick(tagRE)
		if a == nil {
			return s
		}
		if op == 3 {
			return s[:a[0]] + s[a[1]:]
		}
		return s[:a[0]] + s[b[0]:b[1]] + s[a[1]:]
	case 5, 6: // attributes: swapped, or removed
		a, b := pick(attrRE), pick(attrRE)
		if a == nil {
			return s
		}
		if op == 5 {
			return s[:a[0]] + s[a[1]:]
		}
		return s[:a[0]] + s[b[0]:b[1]] + s[a[1]:]
	case 7: // another value
		a, b := pick(attrRE), pick(attrRE)
		if a == nil {
			return s
		}
		x, y := s[a[0]:a[1]], s[b[0]:b[1]]
		v := prop.Pick(t, y[strings.Index(y, "="):], `=""`, `="-1"`, `="x"`, `="no:such"`, `="xs:string"`, `=":"`)
		return s[:a[0]] + x[:strings.Index(x, "=")] + v + s[a[1]:]
	}
	// repeat a range
	i, j := cut()
	if j > i+300 {
		j = i + 300
	}
	return s[:j] + s[i:j] + s[j:]
}

func checkText(c textCase, r *prop.Rec) error {
	r.Nontrivial(len(c.Docs[0]) > 0)
	var docs [][]byte
	for _, d := range c.Docs {
		docs = append(docs, []byte(d))
	}
	return total(docs, r)
}

func init() {
	prop.Register("C14", "mutated schemas", "always: at least one structural change", genMut, checkMut, prop.Counts(8000, 150000))
	prop.Register("C14", "mutated services", "always: at least one structural change", genMutService, checkMutService, prop.Counts(8000, 300000))
	prop.Register("C14", "invalid values", "a value could be made invalid", genInvalid, checkInvalid, prop.Counts(6000, 150000))
	prop.Register("C14", "mutated text", "the first document is not empty", genText, checkText, prop.Counts(4000, 80000))
}
