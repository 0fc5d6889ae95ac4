package genc

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"pgregory.net/rapid"
)

// valueCase is a simple type, used in every position, and values of it.
type valueCase struct {
	Set   *smodel.Set
	Style smodel.Style
	Opt   Options
	Kind  string
	Docs  []valueDoc

	Strict bool `json:",omitempty"` // no allowance for known findings
}

// valueDoc is a document, and the Go value of its fields.
type valueDoc struct {
	Type   string // holder, sc, sub or the simple type itself
	Node   *smodel.Node
	Style  int
	Fields map[string][]string `json:",omitempty"` // values by field
	Bad    string              `json:",omitempty"` // invalid value within
}

const valueNS = "urn:v"

func vq(local string) QN { return QN{Space: valueNS, Local: local} }

// spelling of numbers in Go that XML Schema does not have.
var spelling = regexp.MustCompile(`[>"][+-]Inf[<"]|[>"]-?[0-9.]+e[+-][0-9]+[<"]`)

func genValues(t *rapid.T) valueCase {
	var names []string
	for _, b := range smodel.Builtins {
		if b != "QName" { // K06
			names = append(names, b)
		}
	}
	b := prop.Any(t, names...)
	sch := smodel.Schema{NS: valueNS}
	cur := smodel.Ref{Name: smodel.X(b)}
	listed := smodel.Family(b) == "list" || smodel.Family(b) == "any"
	n := 0
	derive := func(s *smodel.Simple) {
		d := &smodel.Type{Simple: s}
		if prop.Chance(t, 7) {
			n++
			d.Name = fmt.Sprint("s", n)
			sch.Types = append(sch.Types, d)
			cur = smodel.Ref{Name: vq(d.Name)}
			return
		}
		cur = smodel.Ref{Inline: d}
	}
	restrict := func() {
		s := &smodel.Simple{Derive: "restriction", Base: cur}
		switch prop.Uniform(t, 4) {
		case 0:
			s.Docs = []string{"about it"}
		case 1:
			if b != "boolean" && !listed && smodel.Family(b) != "binary" {
				s.Facets = []smodel.Facet{{Name: "pattern", Value: ".*"}}
			}
		}
		derive(s)
	}
	for k := prop.Pick(t, 0, 0, 1, 1, 2, 3); k > 0; k-- {
		restrict()
	}
	switch prop.Uniform(t, 5) {
	case 0, 1:
		if !listed {
			derive(&smodel.Simple{Derive: "list", Base: cur})
			listed = true
			for k := prop.Pick(t, 0, 0, 1); k > 0; k-- {
				derive(&smodel.Simple{Derive: "restriction", Base: cur})
			}
		}
	case 2:
		if prop.Chance(t, 5) {
			derive(&smodel.Simple{Derive: "union", Members: []smodel.Ref{cur, {Name: smodel.X("string")}}})
			if prop.Chance(t, 3) {
				derive(&smodel.Simple{Derive: "list", Base: cur})
			}
		}
	}
	c := valueCase{Style: smodel.GenStyle(t)}
	set := &smodel.Set{}
	part := func(name string, min, max int) *smodel.Particle {
		return &smodel.Particle{Kind: "element", Min: min, Max: max, Elem: &smodel.Elem{Name: name, Type: cur}}
	}
	holder := &smodel.Type{Name: "holder", Complex: &smodel.Complex{
		Content: &smodel.Particle{Kind: "sequence", Min: 1, Max: 1, Parts: []*smodel.Particle{part("re", 1, 1), part("oe", 0, 1), part("pe", 0, -1)}},
		Attrs: []smodel.AttrUse{
			{Kind: "attr", Attr: &smodel.Attr{Name: "ra", Type: cur}, Required: true},
			{Kind: "attr", Attr: &smodel.Attr{Name: "oa", Type: cur}},
		}}}
	sch.Types = append(sch.Types, holder)
	hasSC := cur.Inline == nil && b != "anyType"
	if hasSC {
		sch.Types = append(sch.Types,
			&smodel.Type{Name: "sc", Complex: &smodel.Complex{Simple: true, Extends: true, Base: cur,
				Attrs: []smodel.AttrUse{{Kind: "attr", Attr: &smodel.Attr{Name: "k", Type: smodel.Ref{Name: smodel.X("string")}}}}}},
			&smodel.Type{Name: "sub", Complex: &smodel.Complex{Simple: true, Extends: true, Base: smodel.Ref{Name: vq("sc")},
				Attrs: []smodel.AttrUse{{Kind: "attr", Attr: &smodel.Attr{Name: "oa", Type: cur}}}}})
	}
	// A type derived from the holder has what it inherits.
	sch.Types = append(sch.Types, &smodel.Type{Name: "more", Complex: &smodel.Complex{Extends: true, Base: smodel.Ref{Name: vq("holder")},
		Content: &smodel.Particle{Kind: "sequence", Min: 1, Max: 1, Parts: []*smodel.Particle{part("xe", 1, 1)}}}})
	set.Schemas = []smodel.Schema{sch}
	c.Set = set
	c.Kind = set.ValueKind(set.Resolve(cur, valueNS, "anySimpleType"))
	if prop.Chance(t, 4) { // a default: the value may be left out
		p := holder.Complex.Content.Parts[0]
		p.Elem.Default = genText(t, c.Kind, true)
	}
	if prop.Chance(t, 4) {
		holder.Complex.Attrs[1].Attr.Default = genText(t, c.Kind, true)
	}
	c.Opt = Options{Defaults: prop.Chance(t, 5)}

	doc := func(typ string) valueDoc {
		d := valueDoc{Type: typ, Style: prop.Int(t, 32), Fields: map[string][]string{}}
		d.Node = &smodel.Node{Name: QN{Space: prop.Pick(t, "", valueNS, "urn:root"), Local: "root"}}
		val := func(field string, optional bool) string {
			v := genText(t, c.Kind, optional)
			d.Fields[field] = append(d.Fields[field], v)
			return v
		}
		attr := func(name string, optional bool) {
			if optional && prop.Chance(t, 3) {
				return
			}
			d.Node.Attrs = append(d.Node.Attrs, smodel.Val{Name: QN{Local: name}, Kind: c.Kind, Text: val(title(name), optional)})
		}
		elem := func(name string, optional bool) {
			d.Node.Kids = append(d.Node.Kids, &smodel.Node{Name: vq(name), Kind: c.Kind, Text: val(title(name), optional)})
		}
		switch typ {
		case "holder", "more":
			attr("ra", false)
			attr("oa", true)
			elem("re", holder.Complex.Content.Parts[0].Elem.Default != "")
			if prop.Chance(t, 7) {
				elem("oe", true)
			}
			for k := prop.Pick(t, 0, 1, 2, 5); k > 0; k-- {
				elem("pe", false)
			}
			if typ == "more" {
				elem("xe", false)
			}
		case "sc", "sub":
			d.Node.Kind = c.Kind
			d.Node.Text = val("", false)
			if typ == "sub" {
				attr("oa", true)
			}
		default:
			d.Node.Kind = c.Kind
			d.Node.Text = val("", false)
		}
		return d
	}
	kinds := []string{"holder", "holder", "more"}
	if hasSC {
		kinds = append(kinds, "sc", "sub")
	}
	for _, s := range sch.Types {
		if s.Simple != nil {
			if set.ValueKind(smodel.Res{Def: s, NS: valueNS}) == c.Kind {
				kinds = append(kinds, s.Name)
			}
		}
	}
	for _, k := range kinds {
		for n := 2; n > 0; n-- {
			c.Docs = append(c.Docs, doc(k))
		}
		bad := invalid(t, c.Kind)
		if bad == "" {
			continue
		}
		d := doc(k)
		d.Bad = bad
		// One value of the document is replaced.
		var at []*string
		if d.Node.Kind != "" {
			at = append(at, &d.Node.Text)
		}
		for i := range d.Node.Attrs {
			at = append(at, &d.Node.Attrs[i].Text)
		}
		for _, k := range d.Node.Kids {
			at = append(at, &k.Text)
		}
		*at[prop.Int(t, len(at))] = bad
		c.Docs = append(c.Docs, d)
	}
	return c
}

func title(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// genText draws a value, with blanks around it where they do not count.
func genText(t *rapid.T, kind string, optional bool) string {
	for {
		v := genValueText(t, kind)
		if (optional || smodel.Family(kind) == "date" || strings.HasPrefix(kind, "gYear")) && smodel.ZeroValue(kind, v) {
			v = smodel.GenValue(t, kind, true)
		}
		if strings.HasPrefix(kind, "list ") || smodel.Family(kind) != "string" && smodel.Family(kind) != "any" && smodel.Family(kind) != "qname" && kind != "union" && kind != "duration" {
			if prop.Chance(t, 2) {
				v = prop.Pick(t, " ", "\n\t", "") + v + prop.Pick(t, "  ", "\n", "")
			}
		}
		return v
	}
}

func genValueText(t *rapid.T, kind string) string {
	if strings.HasPrefix(kind, "list ") {
		item := strings.TrimPrefix(kind, "list ")
		var ws []string
		for n := prop.Pick(t, 1, 0, 2, 3, 8, 60); n > 0; n-- {
			w := strings.Join(strings.Fields(genValueText(t, item)), "")
			if w != "" {
				ws = append(ws, w)
			}
		}
		return strings.Join(ws, prop.Pick(t, " ", " ", "  ", "\n", "\t"))
	}
	if prop.Chance(t, 4) && kind != "union" {
		v := smodel.GenValue(t, kind, false)
		return v
	}
	digits := func(n int) string {
		s := ""
		for ; n > 0; n-- {
			s += fmt.Sprint(prop.Int(t, 10))
		}
		return s
	}
	zone := func() string {
		switch prop.Int(t, 3) {
		case 0:
			return ""
		case 1:
			return "Z"
		}
		h, m := prop.Int(t, 15), prop.Pick(t, 0, 30, 45, 1, 59)
		if h == 14 {
			m = 0
		}
		return fmt.Sprintf("%s%02d:%02d", prop.Pick(t, "+", "-"), h, m)
	}
	y := prop.Pick(t, prop.Range(t, 2, 9999), 4, 100, 2000, 1900, 9999, 1583)
	m := prop.Range(t, 1, 12)
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		days = 29
	}
	d := prop.Pick(t, prop.Range(t, 1, days), days)
	clock := fmt.Sprintf("%02d:%02d:%02d", prop.Int(t, 24), prop.Int(t, 60), prop.Int(t, 60))
	if prop.Chance(t, 4) {
		clock += "." + digits(prop.Range(t, 1, 9))
	}
	switch kind {
	case "union":
		return randString(t)
	case "dateTime":
		return fmt.Sprintf("%04d-%02d-%02dT%s%s", y, m, d, clock, zone())
	case "date":
		return fmt.Sprintf("%04d-%02d-%02d%s", y, m, d, zone())
	case "time":
		return clock + zone()
	case "gYearMonth":
		return fmt.Sprintf("%04d-%02d%s", y, m, zone())
	case "gYear":
		return fmt.Sprintf("%04d%s", y, zone())
	case "gMonthDay":
		if m == 2 && prop.Chance(t, 3) {
			d = 29
		}
		return fmt.Sprintf("--%02d-%02d%s", m, d, zone())
	case "boolean":
		return prop.Pick(t, "true", "false", "1", "0")
	case "decimal":
		i, f := digits(prop.Int(t, 9)), digits(prop.Int(t, 7))
		if i+f == "" {
			i = "0"
		}
		if f != "" || prop.Chance(t, 1) {
			f = "." + f
		}
		return prop.Pick(t, "", "-", "+") + i + f
	case "double":
		f := math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return prop.Pick(t, "NaN", "INF", "-INF")
		}
		return strconv.FormatFloat(f, prop.Pick(t, byte('g'), 'e', 'E'), -1, 64)
	case "float":
		f := float64(math.Float32frombits(rapid.Uint32().Draw(t, "bits")))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return prop.Pick(t, "NaN", "INF", "-INF")
		}
		return strconv.FormatFloat(f, prop.Pick(t, byte('g'), 'e', 'E'), -1, 32)
	case "long", "integer":
		return fmt.Sprint(rapid.Int64().Draw(t, "long"))
	case "unsignedLong":
		return fmt.Sprint(rapid.Uint64().Draw(t, "ulong"))
	case "hexBinary", "base64Binary":
		b := make([]byte, prop.Pick(t, 0, 1, 2, 3, 57, 58, 300, prop.Int(t, 100)))
		for i := range b {
			b[i] = byte(prop.Int(t, 256))
		}
		if kind == "hexBinary" {
			s := fmt.Sprintf("%x", b)
			if prop.Chance(t, 5) {
				s = strings.ToUpper(s)
			}
			return s
		}
		s := base64.StdEncoding.EncodeToString(b)
		if prop.Chance(t, 3) && len(s) > 4 {
			n := 4 * prop.Range(t, 1, len(s)/4)
			s = s[:n] + prop.Pick(t, " ", "\n", "\r\n  ") + s[n:]
		}
		return s
	case "string", "anySimpleType", "anyType":
		return randString(t)
	}
	return smodel.GenValue(t, kind, false)
}

func randString(t *rapid.T) string {
	var b strings.Builder
	for n := prop.Pick(t, 0, 1, 2, 5, 20, 200); n > 0; n-- {
		switch prop.Int(t, 6) {
		case 0:
			b.WriteString(prop.Pick(t, " ", "\t", "\n", "\r", "<", "&", ">", "\"", "'", "]]>", "&amp;", "<!--", "\u00a0", "\u2028"))
		case 1:
			b.WriteRune(prop.Pick(t, 'é', 'ß', '☃', '語', '\U0001F600', '\ud7ff', '\ue000', '\ufffd', '\U0010ffff', '\u0085'))
		default:
			b.WriteByte(byte(prop.Range(t, 32, 126)))
		}
	}
	return b.String()
}

// invalid gives a text that is no value of a kind; "" where there is none.
func invalid(t *rapid.T, kind string) string {
	if strings.HasPrefix(kind, "list ") {
		item := strings.TrimPrefix(kind, "list ")
		bad := invalid(t, item)
		if bad == "" || strings.TrimSpace(bad) == "" {
			return ""
		}
		var ws []string
		for n := prop.Int(t, 3); n > 0; n-- {
			ws = append(ws, strings.Join(strings.Fields(genValueText(t, item)), ""))
		}
		ws = append(ws, strings.Join(strings.Fields(bad), "~"))
		for n := prop.Int(t, 3); n > 0; n-- {
			ws = append(ws, strings.Join(strings.Fields(genValueText(t, item)), ""))
		}
		return strings.Join(ws, " ")
	}
	dates := func(more ...string) string {
		return prop.Pick(t, append(more, "x", "2001", "2001-01-01", "2001-01", "12:00:00", "2001-01-01T12:00:00", "--12-01", "---01", "--12")...)
	}
	for {
		v := ""
		switch kind {
		case "dateTime":
			v = dates("2001-13-01T00:00:00", "2001-02-30T00:00:00Z", "2001-02-03T24:01:00", "2001-02-03T12:60:00", "2001-02-03 12:00:00", "2001-02-03T12:00", "2001-02-03T12:00:00+5", "20010203T120000", "2001-02-03T12:00:00Zx")
		case "date":
			v = dates("2001-13-01", "2001-00-01", "2001-02-29", "20010203", "2001-2-3", "2001-02-03+5:00", "2001-02-03T", "01-02-2003", "2001-02-03 Z")
		case "time":
			v = dates("25:00:00", "12:60:00", "12:00", "12:00:61", "120000", "12:00:00 PM", "12:00:00+05")
		case "gYearMonth":
			v = dates("2001-13", "2001-00", "200101")
		case "gYear":
			v = dates("01", "2OO1", "20011")
		case "gMonthDay":
			v = dates("--13-01", "--02-30", "02-03", "-02-03")
		case "gDay":
			v = dates("---32", "---00", "--01", "01")
		case "gMonth":
			v = dates("--13", "--00", "12", "---12")
		case "hexBinary":
			v = prop.Pick(t, "0g", "abc", "0x12", "zz", "a b", "12-34")
		case "base64Binary":
			v = prop.Pick(t, "####", "abc", "A", "AP8=x", "A=B=", "AAAA=", "ab-_")
		case "float", "double", "decimal":
			v = prop.Pick(t, "abc", "1.2.3", "1e", "--1", "1,5", "1 2", "$5", "e5", "+-1", ".")
		case "boolean":
			v = prop.Pick(t, "yes", "2", "maybe", "truefalse", "0 1")
		default:
			if smodel.Family(kind) != "decimal" {
				return ""
			}
			v = prop.Pick(t, "abc", "1.5", "--1", "1,000", "1 2", "0x10", "1e3", "9x", "99999999999999999999999", "+-1", "½")
		}
		if re := timeRe[kind]; re != nil {
			if _, err := canonical(kind, v); err == nil && re.MatchString(v) && !strings.ContainsAny(v, "36") {
				continue
			}
			if validTime(kind, v) {
				continue
			}
		}
		return v
	}
}

// validTime says whether one of the texts above does denote a time.
func validTime(kind, v string) bool {
	switch kind {
	case "dateTime":
		return v == "2001-01-01T12:00:00"
	case "date":
		return v == "2001-01-01"
	case "time":
		return v == "12:00:00"
	case "gYearMonth":
		return v == "2001-01"
	case "gYear":
		return v == "2001"
	case "gMonthDay":
		return v == "--12-01"
	case "gDay":
		return v == "---01"
	case "gMonth":
		return v == "--12"
	}
	return false
}

func checkValues(cs []valueCase, rs []*prop.Rec) []error {
	errs := make([]error, len(cs))
	var units []unit
	var reqs []request
	type from struct{ c, d int }
	var src []from
	srcs := make([][]byte, len(cs))
	for i, c := range cs {
		rs[i].Label(c.Kind)
		x := smodel.Render(c.Set, c.Style)
		code, text, err := source(c.Opt.config(), x.Docs)
		srcs[i] = text
		if err != nil {
			errs[i] = fmt.Errorf("%v\n%s", err, show(x.Docs))
			continue
		}
		_, pkg, err := compile(text)
		if err != nil {
			errs[i] = fmt.Errorf("%v\n%s%s", err, show(x.Docs), text)
			continue
		}
		u := unit{src: text, types: declaredTypes(pkg)}
		have := map[string]bool{}
		for _, n := range u.types {
			have[n] = true
		}
		for k, d := range c.Docs {
			name := code.NameOf(vq(d.Type))
			if !have[name] {
				continue // is a Go type of its own
			}
			reqs = append(reqs, request{Pkg: len(units), Type: name, Name: d.Node.Name, Doc: d.Node.Write(d.Style), Twice: true})
			src = append(src, from{i, k})
		}
		units = append(units, u)
	}
	p, err := build(units)
	if err != nil {
		for i := range errs {
			errs[i] = err
		}
		return errs
	}
	defer p.close()
	var live []request
	var at []int
	for k, r := range reqs {
		if p.bad[r.Pkg] != nil {
			errs[src[k].c] = fmt.Errorf("generated source does not compile: %v\n%s", p.bad[r.Pkg], srcs[src[k].c])
			continue
		}
		live = append(live, r)
		at = append(at, k)
	}
	res, err := p.do(live)
	if err != nil {
		for i := range errs {
			errs[i] = err
		}
		return errs
	}
	for j, a := range res {
		f := src[at[j]]
		c := cs[f.c]
		d := c.Docs[f.d]
		rs[f.c].Nontrivial(true)
		rs[f.c].Work++
		if d.Bad != "" {
			rs[f.c].Label("invalid " + smodel.Family(strings.TrimPrefix(c.Kind, "list ")))
		}
		if err := judgeValues(c, d, a); err != nil && errs[f.c] == nil {
			errs[f.c] = fmt.Errorf("%s, type %s (Go %s): %v\n--- document\n%s\n--- encoded again\n%s\noptions %+v\n%s--- generated\n%s",
				c.Kind, d.Type, live[j].Type, err, live[j].Doc, a.Out, c.Opt, show(smodel.Render(c.Set, c.Style).Docs), srcs[f.c])
		}
	}
	return errs
}

func judgeValues(c valueCase, d valueDoc, a response) error {
	if d.Bad != "" {
		if a.Crash != "" {
			return fmt.Errorf("crashed: %s", a.Crash)
		}
		if a.Err == "" {
			return fmt.Errorf("%q is no %s, but there is no error", d.Bad, c.Kind)
		}
		return nil
	}
	if err := judgeDoc(d.Node, a); err != nil {
		return err
	}
	if c.Strict { // K08
		if w := spelling.FindString(a.Out); w != "" {
			return fmt.Errorf("%q is not how XML Schema spells a %s", strings.Trim(w, "<>\""), c.Kind)
		}
	}
	var value interface{}
	if err := json.Unmarshal(a.Value, &value); err != nil {
		return err
	}
	got, ok := value.(map[string]interface{})
	if !ok { // the type itself
		return sameGo(c.Kind, d.Fields[""][0], value)
	}
	for name, vs := range d.Fields {
		v, ok := got[name]
		if name == "" {
			for k, x := range got {
				if k != "K" && k != "Oa" {
					v, ok = x, true
				}
			}
		}
		if !ok {
			return fmt.Errorf("no field %s in %v", name, got)
		}
		if name == "Pe" {
			items, _ := v.([]interface{})
			if len(items) != len(vs) {
				return fmt.Errorf("field Pe has %d items, want %d", len(items), len(vs))
			}
			for i := range vs {
				if err := sameGo(c.Kind, vs[i], items[i]); err != nil {
					return fmt.Errorf("field %s, item %d: %v", name, i, err)
				}
			}
			continue
		}
		if err := sameGo(c.Kind, vs[0], v); err != nil {
			return fmt.Errorf("field %s: %v", name, err)
		}
	}
	return nil
}

// sameGo compares a Go value as the driver shows it.
func sameGo(kind, text string, got interface{}) error {
	want, err := json.Marshal(goValue(kind, text))
	if err != nil {
		return err
	}
	have, err := json.Marshal(got)
	if err != nil {
		return err
	}
	if string(want) != string(have) {
		return fmt.Errorf("%s %q is the Go value %s, want %s", kind, text, have, want)
	}
	return nil
}

func bigInt(s string) (string, error) {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return "", fmt.Errorf("%q is no integer", s)
	}
	return n.String(), nil
}

func checkValue(c valueCase, r *prop.Rec) error {
	return checkValues([]valueCase{c}, []*prop.Rec{r})[0]
}

func init() {
	prop.Register("C19", "values", "every case", genValues, checkValue, prop.Counts(1440, 40000), prop.Batch(60, checkValues))
}
