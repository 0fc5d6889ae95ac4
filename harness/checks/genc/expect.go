package genc

import (
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/types"
	"maps"
	"reflect"
	"sort"
	"strings"

	"aqwari.net/xml/verif/smodel"
)

// goBuiltin is the Go type a built-in maps to.
func goBuiltin(b string) string {
	switch b {
	case "boolean":
		return "bool"
	case "decimal", "double":
		return "float64"
	case "float":
		return "float32"
	case "long":
		return "int64"
	case "unsignedLong":
		return "uint64"
	case "unsignedInt", "unsignedShort", "unsignedByte":
		return "uint"
	case "byte":
		return "int8"
	case "hexBinary", "base64Binary":
		return "[]byte"
	case "date", "dateTime", "time", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth":
		return "time.Time"
	case "QName":
		return "encoding/xml.Name"
	case "NMTOKENS", "IDREFS", "ENTITIES":
		return "[]string"
	}
	if smodel.IsInt(b) {
		return "int"
	}
	return "string"
}

// nonTrivial built-ins need methods of their own.
func nonTrivial(b string) bool {
	switch b {
	case "NMTOKENS", "IDREFS", "ENTITIES":
		return true
	}
	switch smodel.Family(b) {
	case "binary", "date":
		return true
	case "time":
		return b != "duration"
	}
	return false
}

// expect knows what the generator has to declare for a set.
type expect struct {
	set  *smodel.Set
	opt  Options
	pkg  *types.Package
	attr map[string]bool // ignored
	elem map[string]bool

	also   map[string]bool // types that are for no schema type
	sel    *selection      // nil if every type is selected
	strict bool            // no allowance for known findings
}

func newExpect(set *smodel.Set, opt Options, pkg *types.Package) *expect {
	e := &expect{set: set, opt: opt, pkg: pkg, attr: map[string]bool{}, elem: map[string]bool{}}
	for _, a := range opt.ignoredAttrs() {
		e.attr[a] = true
	}
	for _, a := range opt.IgnoreElems {
		e.elem[a] = true
	}
	return e
}

type (
	Res = smodel.Res
	QN  = smodel.QN
)

// facetful says whether a restriction has a facet that earns it a Go type,
// itself or through what it restricts.
func (e *expect) facetful(r Res) bool {
	for ; r.Def != nil && r.Def.Simple != nil && r.Def.Simple.Derive == "restriction"; r = e.set.Base(r) {
		for _, f := range r.Def.Simple.Facets {
			switch f.Name {
			case "enumeration", "pattern":
				return true
			case "maxLength", "minLength":
				// A length of 0 is recorded as none
				if strings.Trim(f.Value, " +0\t\n") != "" {
					return true
				}
			}
		}
		// Only what it says itself counts.
		return false
	}
	return false
}

// eff follows types that get no declaration to what stands for them.
func (e *expect) eff(r Res) Res {
	if r.Def == nil {
		return r
	}
	if r.Def.Simple != nil {
		root := e.set.AtomRoot(r)
		if root == "list" || root == "union" || nonTrivial(root) || e.facetful(r) {
			return r
		}
		return Res{Builtin: root}
	}
	if e.unpacked(r) {
		return e.eff(e.set.Base(r))
	}
	return r
}

// unpacked says whether a complex type has nothing but simple content left.
func (e *expect) unpacked(r Res) bool {
	for r.Def != nil && r.Def.Complex != nil {
		if !r.Def.Complex.Simple {
			return false
		}
		for _, a := range e.set.AttrFields(r.Def.Complex.Attrs, r.NS) {
			if !e.attr[a.Name.Local] {
				return false
			}
		}
		r = e.set.Base(r)
	}
	return true
}

// field is a struct field to be found.
type field struct {
	tag    string
	typ    Res
	slice  bool
	maybe  bool // may be left out
	what   string
	nameOf string // local name
	alt    string // another tag that will do
	loose  bool   // how often it occurs is not compared
	wild   bool
	model  smodel.Field
	attr   *smodel.AttrField
	chard  bool
}

// elements lists the elements of a type with those it inherits.
func (e *expect) elements(r Res) []smodel.Field {
	if r.Def == nil || r.Def.Complex == nil {
		return nil
	}
	own := e.set.Fields(r.Def.Complex.Content, r.NS)
	var out []smodel.Field
	if !r.Def.Complex.Extends {
		return own
	}
	own2 := map[QN]int{}
	for _, f := range e.elements(e.set.Base(r)) {
		own2[key(f)] = len(out)
		out = append(out, f)
	}
	for _, f := range own {
		if i, ok := own2[key(f)]; ok {
			g := &out[i]
			g.Choice = (g.Min == 0 || g.Choice) && (f.Min == 0 || f.Choice)
			g.Min += f.Min
			g.Max = 2
			g.Elems = append(append([]*smodel.Elem(nil), g.Elems...), f.Elems...)
			continue
		}
		out = append(out, f)
	}
	return out
}

func key(f smodel.Field) QN {
	if f.Wild {
		return QN{Local: "*any*"}
	}
	return f.Name
}

// attributes lists the attributes of a type with those it inherits.
func (e *expect) attributes(r Res) []smodel.AttrField {
	var out []smodel.AttrField
	seen := map[QN]bool{}
	for r.Def != nil && r.Def.Complex != nil {
		for _, a := range e.set.AttrFields(r.Def.Complex.Attrs, r.NS) {
			if !seen[a.Name] {
				seen[a.Name] = true
				out = append(out, a)
			}
		}
		r = e.set.Base(r)
	}
	return out
}

// simpleBase is the simple type at the bottom of simple content.
func (e *expect) simpleBase(r Res) Res {
	for r.Def != nil && r.Def.Complex != nil {
		r = e.set.Base(r)
	}
	return r
}

// isRef says whether a namespaced attribute comes from a reference.
func isRef(a smodel.AttrField) bool { return a.Name.Space != "" && !a.Attr.Qualified }

func plural(f smodel.Field) bool { return f.Max < 0 || f.Max > 1 }

// leftOut lists what an extension may add to: what a restriction among
// its ancestors left out.
func (e *expect) leftOut(r Res) map[QN]bool {
	left := map[QN]bool{}
	if !r.Def.Complex.Extends {
		return left
	}
	restricted := false
	for b := e.set.Base(r); b.Def != nil && b.Def.Complex != nil; b = e.set.Base(b) {
		if restricted {
			for _, f := range e.elements(b) {
				left[key(f)] = true
			}
		}
		restricted = restricted || !b.Def.Complex.Extends
	}
	return left
}

// fields lists the struct fields of a complex type.
func (e *expect) fields(r Res) []field {
	var out []field
	if e.set.Mixed(r) {
		if b := e.simpleBase(r); b.Def != nil || b.Builtin != "anyType" {
			out = append(out, field{tag: ",chardata", typ: b, what: "character data", chard: true})
		}
	}
	els := e.elements(r)
	have := map[QN]bool{}
	add := func(f smodel.Field, maybe bool) {
		if have[key(f)] {
			return
		}
		have[key(f)] = true
		x := field{slice: plural(f), maybe: maybe, model: f}
		if f.Wild {
			x.tag, x.typ, x.wild, x.what = ",any", Res{Builtin: "string"}, true, "wildcard"
			if e.elem[""] {
				return
			}
			out = append(out, x)
			return
		}
		if e.elem[f.Name.Local] {
			return
		}
		opt := f.Min == 0 || f.Choice
		for _, el := range f.Elems {
			opt = opt || el.Nillable || el.Default != ""
		}
		for _, el := range f.Elems {
			x.loose = x.loose || el.Default != f.Elems[0].Default
		}
		x.tag = f.Name.Space + " " + f.Name.Local
		if opt && !x.slice {
			x.tag += ",omitempty"
		}
		x.typ = e.set.Resolve(f.Elem.Type, f.NS, "anyType")
		x.nameOf = f.Name.Local
		x.what = "element " + f.Name.Local
		out = append(out, x)
	}
	for _, f := range els {
		add(f, false)
	}
	// An extension may add to what a restriction of its base left out.
	left := e.leftOut(r)
	for i := range out {
		out[i].loose = out[i].loose || left[key(out[i].model)]
	}
	// What a restriction leaves out may still be there.
	for b := e.set.Base(r); b.Def != nil && b.Def.Complex != nil; b = e.set.Base(b) {
		left, n := e.leftOut(b), len(out)
		for _, f := range e.elements(b) {
			add(f, true)
		}
		for i := range out[n:] {
			out[n+i].loose = out[n+i].loose || left[key(out[n+i].model)]
		}
	}
	for _, a := range e.attributes(r) {
		if e.attr[a.Name.Local] {
			continue
		}
		a := a
		x := field{tag: a.Name.Local + ",attr", what: "attribute " + a.Name.Local, nameOf: a.Name.Local, attr: &a}
		if a.Name.Space != "" {
			x.tag = a.Name.Space + " " + x.tag
		}
		if !a.Required {
			x.tag += ",omitempty"
		}
		if isRef(a) && !e.strict {
			x.alt = strings.TrimPrefix(x.tag, a.Name.Space+" ") // K02
		}
		x.typ = e.set.Resolve(a.Attr.Type, a.NS, "anySimpleType")
		out = append(out, x)
	}
	return out
}

// soapSlice says whether the type must, or may, become a slice: that of
// its only field, a plural wildcard.
func (e *expect) soapSlice(fs []field) (item *field, must bool) {
	if !e.opt.Defaults {
		return nil, false
	}
	n := 0
	for i, f := range fs {
		if !f.maybe {
			n++
		}
		if f.wild && f.slice && item == nil {
			item = &fs[i]
		}
	}
	if item == nil || n > 1 || n == 1 && item.maybe {
		return nil, false
	}
	return item, len(fs) == 1 && !item.maybe
}

type pair struct {
	t *types.Named
	d *smodel.Type
}

func (e *expect) qualifier(p *types.Package) string {
	if p == e.pkg {
		return ""
	}
	return p.Path()
}

func (e *expect) str(t types.Type) string {
	s := types.TypeString(t, e.qualifier)
	return strings.ReplaceAll(s, "uint8", "byte")
}

func (e *expect) isBuiltin(t types.Type, b string) error {
	for _, w := range strings.Split(goBuiltin(b), "|") {
		if e.str(t) == w {
			return nil
		}
	}
	return fmt.Errorf("Go type %s, want %s for %s", e.str(t), goBuiltin(b), b)
}

// itemBuiltin is the built-in the items of a list are made of.
func (e *expect) itemBuiltin(r Res) string {
	for r.Def != nil && r.Def.Simple.Derive != "list" {
		r = e.set.Base(r)
	}
	item := e.set.Base(r)
	b := e.set.AtomRoot(item)
	if b == "union" {
		return "string"
	}
	return b
}

// match compares a Go type with the type it was made for.
func (e *expect) match(t types.Type, r Res, known map[pair]bool) error {
	r = e.eff(r)
	if r.Def == nil {
		return e.isBuiltin(t, r.Builtin)
	}
	if p, ok := t.(*types.Pointer); ok && r.Def.Complex != nil {
		t = p.Elem() // breaks recursion
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != e.pkg {
		return fmt.Errorf("Go type %s, want a declared type", e.str(t))
	}
	if known[pair{n, r.Def}] {
		return nil
	}
	known[pair{n, r.Def}] = true
	err := e.matchDecl(n, r, known)
	if err != nil {
		delete(known, pair{n, r.Def})
		return fmt.Errorf("type %s: %v", n.Obj().Name(), err)
	}
	return nil
}

func (e *expect) matchDecl(n *types.Named, r Res, known map[pair]bool) error {
	u := n.Underlying()
	if r.Def.Simple != nil {
		switch root := e.set.AtomRoot(r); root {
		case "list":
			s, ok := u.(*types.Slice)
			if !ok {
				return fmt.Errorf("list type is %s", e.str(u))
			}
			return e.isBuiltin(s.Elem(), e.itemBuiltin(r))
		case "union":
			return e.isBuiltin(u, "string")
		default:
			w := goBuiltin(root)
			if w == "time.Time" || w == "encoding/xml.Name" {
				if _, ok := u.(*types.Struct); !ok || !strings.Contains(e.str(u), map[string]string{"time.Time": "wall uint64", "encoding/xml.Name": "Local string"}[w]) {
					return fmt.Errorf("declared as %s, want %s", e.str(u), w)
				}
				return nil
			}
			return e.isBuiltin(u, root)
		}
	}
	fs := e.fields(r)
	if item, must := e.soapSlice(fs); item != nil {
		if s, ok := u.(*types.Slice); ok {
			return e.match(s.Elem(), item.typ, known)
		} else if must {
			return fmt.Errorf("a lone plural wildcard is %s, not a slice", e.str(u))
		}
	}
	st, ok := u.(*types.Struct)
	if !ok {
		return fmt.Errorf("complex type is %s", e.str(u))
	}
	byTag := map[string]*types.Var{}
	for i := 0; i < st.NumFields(); i++ {
		tag := strings.TrimLeft(reflect.StructTag(st.Tag(i)).Get("xml"), " ")
		if byTag[tag] != nil {
			return fmt.Errorf("two fields with tag %q", tag)
		}
		byTag[tag] = st.Field(i)
	}
	goNames := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		goNames[st.Field(i).Name()] = true
	}
	for _, f := range fs {
		f.tag = strings.TrimLeft(f.tag, " ") // no namespace
		if byTag[f.tag] == nil && f.loose {
			if t := strings.TrimSuffix(f.tag, ",omitempty"); t != f.tag {
				f.tag = t
			} else {
				f.tag += ",omitempty"
			}
		}
		if byTag[f.tag] == nil && f.alt != "" {
			f.tag = f.alt
		}
		v := byTag[f.tag]
		if v == nil {
			if f.maybe {
				continue
			}
			var have []string
			for t := range byTag {
				have = append(have, t)
			}
			sort.Strings(have)
			return fmt.Errorf("no field with tag %q for %s; have %q", f.tag, f.what, have)
		}
		delete(byTag, f.tag)
		t := v.Type()
		if s, ok := t.(*types.Slice); f.loose && !f.slice && ok && e.match(t, f.typ, maps.Clone(known)) != nil {
			t = s.Elem()
		}
		if f.slice {
			s, ok := t.(*types.Slice)
			if !ok {
				return fmt.Errorf("field %s for %s, which may be repeated, is %s", v.Name(), f.what, e.str(t))
			}
			t = s.Elem()
		}
		if err := e.match(t, f.typ, known); err != nil {
			return fmt.Errorf("field %s for %s: %v", v.Name(), f.what, err)
		}
		want := e.opt.ident(f.nameOf)
		if f.nameOf != "" && !ast.IsExported(want) {
			if !v.Exported() {
				return fmt.Errorf("field for %s is named %s, which encoding/xml ignores", f.what, v.Name())
			}
			continue
		}
		if f.nameOf != "" && v.Name() != want && !goNames[want] && !reserved[want] {
			return fmt.Errorf("field for %s is named %s, want %s", f.what, v.Name(), want)
		}
	}
	for tag, v := range byTag {
		return fmt.Errorf("field %s with tag %q is for nothing in the schema", v.Name(), tag)
	}
	return nil
}

// Names the generator may use for its own purposes.
var reserved = map[string]bool{"Value": true, "Item": true, "Items": true, "MarshalXML": true, "UnmarshalXML": true}

// decl is a type the set defines.
type decl struct {
	r     Res
	name  xml.Name // zero for anonymous types
	owner string   // of an anonymous type
}

// declared lists the type definitions of some namespaces.
func (e *expect) declared(in func(ns string) bool) []decl {
	var out []decl
	for i := range e.set.Schemas {
		sc := &e.set.Schemas[i]
		if !in(sc.NS) {
			continue
		}
		for _, t := range sc.Types {
			out = append(out, decl{r: Res{Def: t, NS: sc.NS}, name: xml.Name{Space: sc.NS, Local: t.Name}})
		}
		for _, a := range sc.Anons() {
			out = append(out, decl{r: Res{Def: a.Type, NS: sc.NS}, owner: a.Owner})
		}
	}
	return out
}

// needs says whether the type gets a declaration of its own.
func (e *expect) needs(r Res) bool { return e.eff(r).Def == r.Def }

// check compares the declarations of the package with all of the set.
func (e *expect) check(nameOf func(xml.Name) string) error {
	scope := e.pkg.Scope()
	goTypes := map[string]*types.Named{}
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			return fmt.Errorf("%s is not a type of its own", n)
		}
		if !helper(n) && !e.also[n] {
			goTypes[n] = named
		}
	}
	all := e.declared(func(string) bool { return true })
	idents := map[string]int{}
	for _, d := range all {
		if d.name.Local != "" {
			idents[e.opt.ident(d.name.Local)]++
		}
	}
	used := map[string]xml.Name{}
	for _, d := range all {
		if d.name.Local == "" || !e.needs(d.r) || !e.must(d.r) {
			continue
		}
		n := nameOf(d.name)
		t := goTypes[n]
		if t == nil {
			return fmt.Errorf("no declaration for type %v (NameOf says %q)", d.name, n)
		}
		if o, dup := used[n]; dup {
			return fmt.Errorf("types %v and %v are both declared as %s", o, d.name, n)
		}
		used[n] = d.name
		if want := e.opt.ident(d.name.Local); idents[want] == 1 && !e.anonIdent(want) && n != want {
			return fmt.Errorf("type %v is declared as %s, want %s", d.name, n, want)
		}
		if err := e.match(t, d.r, map[pair]bool{}); err != nil {
			return fmt.Errorf("%v: %v", d.name, err)
		}
	}
	// Anonymous types: each has a declaration, and what is left is for one.
	left := map[string]bool{}
	for n := range goTypes {
		if _, ok := used[n]; !ok {
			left[n] = true
		}
	}
	for _, d := range all {
		if d.name.Local != "" || !e.needs(d.r) || !e.must(d.r) {
			continue
		}
		found := false
		for n := range left {
			if e.match(goTypes[n], d.r, map[pair]bool{}) == nil {
				found = true
				break
			}
		}
		if !found {
			return fmt.Errorf("no declaration for an anonymous type %s", e.describe(d.r))
		}
	}
	for n := range left {
		found := false
		for _, d := range all {
			if !e.may(d, n) || d.name.Local != "" && e.needs(d.r) && e.must(d.r) {
				continue
			}
			if e.needs(d.r) && e.match(goTypes[n], d.r, map[pair]bool{}) == nil {
				found = true
			}
			// An intermediate simple type may be declared without need.
			if d.r.Def.Simple != nil && !e.needs(d.r) && e.isBuiltinDecl(goTypes[n], e.set.AtomRoot(d.r)) {
				found = true
			}
		}
		if !found {
			return fmt.Errorf("declared type %s is for nothing in the schema", n)
		}
	}
	return nil
}

func (e *expect) describe(r Res) string {
	if r.Def.Simple != nil {
		return fmt.Sprintf("simple %+v", *r.Def.Simple)
	}
	var tags []string
	for _, f := range e.fields(r) {
		tags = append(tags, f.tag)
	}
	return fmt.Sprintf("with fields %q", tags)
}

func (e *expect) isBuiltinDecl(n *types.Named, b string) bool {
	w := goBuiltin(b)
	if w == "time.Time" || w == "encoding/xml.Name" {
		_, ok := n.Underlying().(*types.Struct)
		return ok
	}
	return e.isBuiltin(n.Underlying(), b) == nil
}

// anonIdent says whether an anonymous type may have been given the name.
func (e *expect) anonIdent(want string) bool {
	for i := range e.set.Schemas {
		for _, a := range e.set.Schemas[i].Anons() {
			if a.Owner != "" && e.opt.ident(a.Owner) == want {
				return true
			}
		}
		_ = i
	}
	return strings.Contains(want, "anon")
}

func helper(n string) bool { return strings.HasPrefix(n, "xsd") && n != "xsd" }
