package smodel

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"aqwari.net/xml/xsd"
)

// A dump is a canonical text of a type in which named types appear by name and
// all other types in place. Expected dumps come from the model alone, actual
// ones from what package xsd returned.

// Dumper holds what both sides need to know.
type Dumper struct {
	Set *Set
	// Transparent says which named types are shown in place (nil: none).
	Transparent map[QN]bool
	// Strict wants the right namespace for elements of imported types too,
	// which is known finding K01.
	Strict bool
}

func (d *Dumper) declared(n QN) bool {
	return d.Set.Type(n) != nil && !d.Transparent[n]
}

// ---- expected ----

type estack []*Type

func (d *Dumper) ExpRef(r Res, st []*Type) string {
	if r.Def == nil {
		return "xs:" + r.Builtin
	}
	if r.Def.Name != "" && d.declared(q(r.NS, r.Def.Name)) {
		return "{" + r.NS + "}" + r.Def.Name
	}
	for i := range st {
		if st[len(st)-1-i] == r.Def {
			return fmt.Sprintf("(up %d)", i)
		}
	}
	return "(" + d.Exp(r, st) + ")"
}

func blanks(ds ...[]string) string {
	var out []string
	for _, l := range ds {
		for _, s := range l {
			if s = strings.TrimSpace(s); s != "" {
				out = append(out, s)
			}
		}
	}
	return oneBlank(strings.Join(out, "\n\n"))
}

// oneBlank leaves no more than one blank line between paragraphs.
func oneBlank(s string) string { return moreBlanks.ReplaceAllString(s, "\n\n") }

var moreBlanks = regexp.MustCompile(`\n\n(\s*\n)+`)

func (d *Dumper) foreign(fs []Foreign) string {
	var out []string
	for _, f := range fs {
		v := f.Value
		if f.QName.Local != "" {
			v = "{" + f.QName.Space + "}" + f.QName.Local + f.Value
		}
		out = append(out, f.Name+"="+v)
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// Exp dumps a definition.
func (d *Dumper) Exp(r Res, st []*Type) string {
	st = append(st[:len(st):len(st)], r.Def)
	s := d.Set
	var b strings.Builder
	if c := r.Def.Complex; c != nil {
		fmt.Fprintf(&b, "complex abstract=%v mixed=%v extends=%v base=%s doc=%q", c.Abstract, s.Mixed(r), c.Extends,
			d.ExpRef(s.Base(r), st), blanks(r.Def.Docs, c.Docs))
		fs := s.Fields(c.Content, r.NS)
		for _, f := range fs {
			if f.Wild {
				fmt.Fprintf(&b, "\n any plural=%v optional=%v", f.Max < 0 || f.Max > 1, f.Min == 0 || f.Choice)
			}
		}
		for _, f := range fs {
			if !f.Wild {
				b.WriteString("\n " + d.expField(f, st))
			}
		}
		for _, a := range s.AttrFields(c.Attrs, r.NS) {
			fmt.Fprintf(&b, "\n attr {%s}%s optional=%v default=%q doc=%q foreign=%s type=%s", a.Name.Space, a.Name.Local, !a.Required,
				a.Default, blanks(a.Attr.Docs), d.foreign(a.Foreign), d.ExpRef(s.Resolve(a.Attr.Type, a.NS, "anySimpleType"), st))
		}
		return b.String()
	}
	sm := r.Def.Simple
	var members []string
	for _, m := range sm.Members {
		if m.Inline == nil {
			members = append(members, d.ExpRef(s.Resolve(m, r.NS, ""), st))
		}
	}
	for _, m := range sm.Members {
		if m.Inline != nil {
			members = append(members, d.ExpRef(s.Resolve(m, r.NS, ""), st))
		}
	}
	x := Facets{}
	if sm.Derive == "restriction" {
		x = ExpFacets(sm.Facets, s.AtomRoot(s.Base(r)), s.Base(r).Def == nil)
		x.Doc = blanks(sm.Docs)
	}
	fmt.Fprintf(&b, "simple list=%v union=[%s] base=%s doc=%q %s", sm.Derive == "list", strings.Join(members, " "), d.ExpRef(s.Base(r), st), blanks(r.Def.Docs), x)
	return b.String()
}

// ExpField describes an element of a type.
func (d *Dumper) expField(f Field, st []*Type) string {
	doc, def, anyDef := "", f.Elem.Default, false
	nillable, abstract := false, true
	var docs []string
	for _, e := range f.Elems {
		docs = append(docs, e.Docs...)
		if e.Default != "" {
			anyDef = true
		}
		if e.Default != def {
			def = ""
		}
		nillable = nillable || e.Nillable
		abstract = abstract && e.Abstract
	}
	doc = blanks(docs)
	space := f.Name.Space
	if x := d.QuirkSpace(f); x != space && !d.Strict {
		space = altOpen + space + altSep + x + altClose
	}
	return fmt.Sprintf("elem {%s}%s plural=%v optional=%v nillable=%v abstract=%v default=%q doc=%q foreign=%s type=%s",
		space, f.Name.Local, f.Max < 0 || f.Max > 1, f.Min == 0 || anyDef || f.Choice, nillable, abstract, def, doc,
		d.foreign(f.Elem.Foreign), d.ExpRef(d.Set.Resolve(f.Elem.Type, f.NS, "anyType"), st))
}

// An expected line may leave two possibilities for one namespace.
const altOpen, altSep, altClose = "<<", "||", ">>"

// QuirkSpace is the namespace an element gets because of K01: that of its
// type, when the type is a declared one.
func (d *Dumper) QuirkSpace(f Field) string { return QuirkSpace(f.Elem, f.Name.Space) }

func QuirkSpace(e *Elem, space string) string {
	if r := e.Type; r.Inline == nil && r.Name.Local != "" && r.Name.Space != XSD {
		return r.Name.Space
	}
	return space
}

// AtomRoot is the built-in a simple type restricts, "list" or "union" when
// there is one of those in between.
func (s *Set) AtomRoot(r Res) string {
	for r.Def != nil {
		if sm := r.Def.Simple; sm != nil && sm.Derive != "restriction" {
			return sm.Derive
		}
		r = s.Base(r)
	}
	return r.Builtin
}

// ExpSelf describes the document type of one schema element.
func (d *Dumper) ExpSelf(ns string, elems []string) []string {
	var out []string
	for _, n := range elems {
		e := d.Set.Elem(q(ns, n))
		out = append(out, d.expField(Field{Name: q(ns, n), Elem: e, NS: ns, Min: 1, Max: 1, Elems: []*Elem{e}}, nil))
	}
	return out
}

// Facets is the recorded form of a restriction.
type Facets struct {
	Enum                                           []string
	Length, MinLength, MaxLength, Precision, Total int
	Min, Max                                       float64
	MinDate, MaxDate                               time.Time
	Patterns                                       string
	Doc                                            string
	AnyBounds                                      bool // bounds are not compared
}

func (f Facets) String() string {
	s := fmt.Sprintf("enum=%q len=%d,%d,%d digits=%d,%d pattern=%q rdoc=%q", f.Enum, f.Length, f.MinLength, f.MaxLength, f.Precision, f.Total, f.Patterns, f.Doc)
	g := func(v float64) string {
		if math.IsNaN(v) {
			return "NaN"
		}
		return strconv.FormatFloat(v, 'g', -1, 64)
	}
	if f.AnyBounds {
		return s + " bounds=<any>"
	}
	return s + fmt.Sprintf(" bounds=%s..%s dates=%s..%s", g(f.Min), g(f.Max), f.MinDate.UTC().Format(time.RFC3339Nano), f.MaxDate.UTC().Format(time.RFC3339Nano))
}

func atoi(s string) int {
	n, err := strconv.Atoi(strings.TrimPrefix(strings.TrimSpace(s), "+"))
	if err != nil {
		panic("smodel: " + err.Error())
	}
	return n
}

// Instant reads an xs:date or xs:dateTime.
func Instant(s string) time.Time {
	for _, l := range []string{"2006-01-02", "2006-01-02Z07:00", "2006-01-02T15:04:05", "2006-01-02T15:04:05Z07:00"} {
		if t, err := time.Parse(l, s); err == nil {
			return t
		}
	}
	panic("smodel: bad instant " + s)
}

// ExpFacets computes the recorded form of facets over a built-in root.
func ExpFacets(fs []Facet, root string, direct bool) Facets {
	var x Facets
	x.Enum = nil
	var pats []string
	for _, f := range fs {
		switch f.Name {
		case "enumeration":
			x.Enum = append(x.Enum, f.Value)
		case "length":
			x.Length = atoi(f.Value)
		case "minLength":
			x.MinLength = atoi(f.Value)
		case "maxLength":
			x.MaxLength = atoi(f.Value)
		case "totalDigits":
			x.Total = atoi(f.Value)
		case "fractionDigits":
			x.Precision = atoi(f.Value)
		case "pattern":
			pats = append(pats, f.Value)
		case "minInclusive", "minExclusive", "maxInclusive", "maxExclusive":
			v := strings.TrimSpace(f.Value)
			switch Family(root) {
			case "date":
				if f.Name[:3] == "min" {
					x.MinDate = Instant(v)
				} else {
					x.MaxDate = Instant(v)
				}
			case "decimal", "float":
				n, err := strconv.ParseFloat(v, 64)
				if err != nil {
					panic("smodel: " + err.Error())
				}
				if f.Name[:3] == "min" {
					x.Min = n
				} else {
					x.Max = n
				}
			default:
				// Values that are neither numbers nor dates are not recorded, but
				// what a type derived from a declared one is at the end is
				// not known to the parser: some look like numbers.
				x.AnyBounds = !direct
			}
		}
	}
	x.Patterns = strings.Join(pats, "|")
	return x
}

// ---- actual ----

func (d *Dumper) ActRef(t xsd.Type, st []xsd.Type) string {
	switch t := t.(type) {
	case nil:
		return "<nil>"
	case xsd.Builtin:
		n := t.Name()
		if n.Space == XSD {
			return "xs:" + n.Local
		}
		return "builtin:{" + n.Space + "}" + n.Local
	case *xsd.SimpleType, *xsd.ComplexType:
		n := xsd.XMLName(t)
		if d.declared(n) {
			return "{" + n.Space + "}" + n.Local
		}
		for i := range st {
			if st[len(st)-1-i] == t {
				return fmt.Sprintf("(up %d)", i)
			}
		}
		return "(" + d.Act(t, st) + ")"
	}
	return fmt.Sprintf("<%T %v>", t, t)
}

// Act dumps a parsed type.
func (d *Dumper) Act(t xsd.Type, st []xsd.Type) string {
	st = append(st[:len(st):len(st)], t)
	var b strings.Builder
	switch t := t.(type) {
	case *xsd.ComplexType:
		fmt.Fprintf(&b, "complex abstract=%v mixed=%v extends=%v base=%s doc=%q", t.Abstract, t.Mixed, t.Extends, d.ActRef(t.Base, st), oneBlank(t.Doc))
		for _, e := range t.Elements {
			if e.Wildcard {
				fmt.Fprintf(&b, "\n any plural=%v optional=%v", e.Plural, e.Optional)
			}
		}
		for _, e := range t.Elements {
			if !e.Wildcard {
				b.WriteString("\n " + d.ActElem(e, st))
			}
		}
		for _, a := range t.Attributes {
			fmt.Fprintf(&b, "\n attr {%s}%s optional=%v default=%q doc=%q foreign=%s type=%s", a.Name.Space, a.Name.Local, a.Optional,
				a.Default, oneBlank(a.Doc), d.actForeign(a), d.ActRef(a.Type, st))
		}
	case *xsd.SimpleType:
		var members []string
		for _, m := range t.Union {
			members = append(members, d.ActRef(m, st))
		}
		r := t.Restriction
		x := Facets{Enum: r.Enum, Length: r.Length, MinLength: r.MinLength, MaxLength: r.MaxLength, Precision: r.Precision, Total: r.TotalDigits,
			Min: r.Min, Max: r.Max, MinDate: r.MinDate, MaxDate: r.MaxDate, Doc: oneBlank(r.Doc)}
		if r.Pattern != nil {
			x.Patterns = r.Pattern.String()
		}
		fmt.Fprintf(&b, "simple list=%v union=[%s] base=%s doc=%q %s", t.List, strings.Join(members, " "), d.ActRef(t.Base, st), oneBlank(t.Doc), x)
	case xsd.Builtin:
		return d.ActRef(t, st)
	default:
		return fmt.Sprintf("<%T>", t)
	}
	return b.String()
}

// ActElem describes a parsed element.
func (d *Dumper) ActElem(e xsd.Element, st []xsd.Type) string {
	var fs []string
	for _, a := range e.Attr {
		if a.Name.Space == Ext {
			fs = append(fs, foreignValue(a.Name.Local, a.Value, e.Resolve))
		}
	}
	sort.Strings(fs)
	return fmt.Sprintf("elem {%s}%s plural=%v optional=%v nillable=%v abstract=%v default=%q doc=%q foreign=%s type=%s",
		e.Name.Space, e.Name.Local, e.Plural, e.Optional, e.Nillable, e.Abstract, e.Default, oneBlank(e.Doc), strings.Join(fs, ","), d.ActRef(e.Type, st))
}

func (d *Dumper) actForeign(e xsd.Attribute) string {
	var fs []string
	for _, a := range e.Attr {
		if a.Name.Space == Ext {
			fs = append(fs, foreignValue(a.Name.Local, a.Value, e.Resolve))
		}
	}
	sort.Strings(fs)
	return strings.Join(fs, ",")
}

func foreignValue(local, v string, resolve func(string) QN) string {
	if local == "arrayType" {
		i := strings.IndexByte(v, '[')
		suffix := ""
		if i >= 0 {
			v, suffix = v[:i], v[i:]
		}
		n := resolve(v)
		v = "{" + n.Space + "}" + n.Local + suffix
	}
	return local + "=" + v
}

var anyBounds = regexp.MustCompile(`bounds=<any>|bounds=\S+ dates=[-0-9T:.]+Z[-0-9T:.]+Z`)

// SameDump compares dumps line by line.
func SameDump(want, got string) error {
	if want == got {
		return nil
	}
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "<nothing>", "<nothing>"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if i := strings.Index(a, altOpen); i >= 0 {
			j, k := strings.Index(a, altSep), strings.Index(a, altClose)
			one, two := a[:i]+a[i+len(altOpen):j]+a[k+len(altClose):], a[:i]+a[j+len(altSep):k]+a[k+len(altClose):]
			if one == b || two == b {
				continue
			}
		}
		if strings.Contains(a, "bounds=<any>") {
			a, b = anyBounds.ReplaceAllString(a, ""), anyBounds.ReplaceAllString(b, "")
		}
		if a != b {
			return fmt.Errorf("want: %s\n got: %s", a, b)
		}
	}
	return nil
}
