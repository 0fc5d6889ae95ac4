package genc

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
	"pgregory.net/rapid"
)

// effectCase is a set with options that select, leave out and rename.
type effectCase struct {
	Set   *smodel.Set
	Style smodel.Style
	Opt   Options
	// Ignore by a function given to ProcessTypes, not by the options for it
	Process bool
	Unknown string // a namespace there is no schema of
}

func typeNames(set *smodel.Set) (out []xml.Name) {
	for i := range set.Schemas {
		for _, t := range set.Schemas[i].Types {
			out = append(out, xml.Name{Space: set.Schemas[i].NS, Local: t.Name})
		}
	}
	return out
}

func genEffect(t *rapid.T) effectCase {
	c := effectCase{Set: smodel.Gen(t, GenOpts()), Style: smodel.GenStyle(t)}
	o := Options{Defaults: prop.Chance(t, 4), Pkg: prop.Pick(t, "", "foo")}
	if !o.Defaults {
		o.FieldNames = prop.Chance(t, 5)
		if prop.Chance(t, 8) {
			o.Replace = append(o.Replace, replacements[0])
		}
	}
	for k := []int{0, 0, 1, 2, 3}[prop.Int(t, 5)]; k > 0; k-- {
		o.Replace = append(o.Replace, replacements[prop.Int(t, len(replacements))])
	}
	some := func(pool []string) []string {
		out := []string{}
		for k := prop.Range(t, 1, 3); k > 0; k-- {
			out = append(out, pool[prop.Int(t, len(pool))])
		}
		return out
	}
	pool := []string{"a", "b", "c", "d", "Foo", "item", "x-y", "A", "none"}
	if prop.Chance(t, 4) {
		o.IgnoreAttrs = some(pool)
	}
	if prop.Chance(t, 4) {
		o.IgnoreElems = some(pool)
	}
	types := typeNames(c.Set)
	if prop.Chance(t, 3) {
		o.NS = []string{}
		for i := range c.Set.Schemas {
			if prop.Chance(t, 5) {
				o.NS = append(o.NS, c.Set.Schemas[i].NS)
			}
		}
		if len(o.NS) == 0 {
			o.NS = append(o.NS, c.Set.Schemas[prop.Int(t, len(c.Set.Schemas))].NS)
		}
	}
	switch prop.Int(t, 5) {
	case 0:
		o.OnlyPat = some([]string{"a", "^b$", "[A-Z]", "o+", ".", "^none", "Foo|bar"})
	case 1:
		o.Only = []string{"none"}
		for k := prop.Int(t, 3); k >= 0 && len(types) > 0; k-- {
			o.Only = append(o.Only, types[prop.Int(t, len(types))].Local)
		}
	}
	if prop.Chance(t, 3) {
		o.Allow = append(o.Allow, xml.Name{Space: "urn:none", Local: "none"})
		for k := prop.Int(t, 3); k >= 0 && len(types) > 0; k-- {
			o.Allow = append(o.Allow, types[prop.Int(t, len(types))])
		}
	}
	c.Opt = o
	// ProcessTypes sees the types of the namespaces selected only
	c.Process = o.NS == nil && (o.IgnoreAttrs != nil || o.IgnoreElems != nil) && prop.Chance(t, 4)
	if prop.Chance(t, 1) {
		c.Unknown = prop.Pick(t, "urn:none", "http://example.com/none")
	}
	return c
}

func checkEffect(c effectCase, r *prop.Rec) error {
	x := smodel.Render(c.Set, c.Style)
	o := c.Opt
	cfg := new(xsdgen.Config)
	seen := map[xml.Name]int{}
	watch := xsdgen.ProcessTypes(func(s xsd.Schema, t xsd.Type) xsd.Type {
		seen[xsd.XMLName(t)]++
		return t
	})
	var early *xml.Name
	after := xsdgen.ProcessTypes(func(s xsd.Schema, t xsd.Type) xsd.Type {
		if n := xsd.XMLName(t); seen[n] == 0 && early == nil {
			early = &n
		}
		return t
	})
	if c.Process {
		plain := o
		plain.IgnoreAttrs, plain.IgnoreElems = nil, nil
		cfg.Option(plain.list()...)
		cfg.Option(xsdgen.ProcessTypes(func(s xsd.Schema, t xsd.Type) xsd.Type {
			return without(t, o.IgnoreAttrs, o.IgnoreElems)
		}), watch, after)
		if o.Defaults { // these are ignored by an option
			o.IgnoreAttrs = append(append([]string{}, o.IgnoreAttrs...), "id", "href", "ref", "offset")
		}
	} else {
		cfg.Option(o.list()...)
		cfg.Option(watch, after)
	}
	if c.Unknown != "" {
		cfg.Option(xsdgen.Namespaces(append(append([]string{}, o.NS...), c.Unknown)...))
	}
	for n := range names(c.Set) {
		if got, want := cfg.NameOf(xml.Name{Space: "urn:a", Local: n}), o.ident(n); got != want {
			return fmt.Errorf("Config.NameOf says %q for %s, want %q with %+v", got, n, want, o)
		}
	}
	code, src, err := source(cfg, x.Docs)
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%s\noptions %+v, by ProcessTypes %v\n%s--- generated\n%s", fmt.Sprintf(format, a...), c.Opt, c.Process, show(x.Docs), src)
	}
	if c.Unknown != "" {
		r.Label("unknown namespace")
		if err == nil {
			return fail("there is no schema of namespace %s, and no error", c.Unknown)
		}
		return nil
	}
	if err != nil {
		if !allValid(c.Set, o) {
			r.Label("error: a name that is no identifier")
			return nil
		}
		if qnameList(c.Set) && strings.Contains(err.Error(), "don't know how to marshal/unmarshal <list> of QName") {
			r.Label("error: a list of QNames")
			return nil
		}
		return fail("generation failed: %v", cut(err.Error()))
	}
	f, pkg, err := compile(src)
	if err != nil {
		return fail("%v", err)
	}
	if want := c.Opt.Pkg; want != "" && f.Name.Name != want {
		return fail("package %s, want %s", f.Name.Name, want)
	}
	e := newExpect(c.Set, o, pkg)
	e.sel = e.selects()
	if early != nil {
		return fail("the second of two functions given to ProcessTypes was called with %v before the first one", *early)
	}
	// Preprocessing has seen every selected type.
	for _, d := range e.declared(func(ns string) bool { return o.NS == nil || has(o.NS, ns) }) {
		if d.name.Local == "" || e.sel != nil && !e.sel.picked[d.r.Def] {
			continue
		}
		if seen[d.name] == 0 {
			return fail("ProcessTypes was not called with %v", d.name)
		}
	}
	if err := e.check(code.NameOf); err != nil {
		return fail("%v", err)
	}
	for _, b := range []string{"string", "int", "boolean", "double", "unsignedByte", "date", "base64Binary"} {
		if got, want := code.NameOf(xml.Name{Space: smodel.XSD, Local: b}), goBuiltin(b); got != want {
			return fail("Code.NameOf says %q for %s, want %q", got, b, want)
		}
	}
	all := true
	if e.sel != nil {
		for _, d := range e.declared(func(string) bool { return true }) {
			all = all && (!e.needs(d.r) || e.sel.needed[d.r.Def])
		}
		r.LabelIf(!all, "a part of the types")
		r.LabelIf(len(e.sel.needed) > len(e.sel.picked), "dependencies that are not selected")
	}
	r.LabelIf(c.Process, "ignored by ProcessTypes")
	r.LabelIf(len(o.Replace) > 1, "several replacement rules")
	r.Nontrivial(strings.Count(string(src), "\n") > 12 && (!all || o.IgnoreAttrs != nil || o.IgnoreElems != nil || len(o.Replace) > 1))
	return nil
}

// without is a type without some of its fields.
func without(t xsd.Type, attrs, elems []string) xsd.Type {
	c, ok := t.(*xsd.ComplexType)
	if !ok {
		return t
	}
	var as []xsd.Attribute
	for _, a := range c.Attributes {
		if !has(attrs, a.Name.Local) {
			as = append(as, a)
		}
	}
	var es []xsd.Element
	for _, el := range c.Elements {
		if !has(elems, el.Name.Local) {
			es = append(es, el)
		}
	}
	c.Attributes, c.Elements = as, es
	return c
}

// step is a change to a configuration.
type step struct {
	Op   string // "undo", "gen", "other" or the name of an option
	Args []string
	Redo bool // after an undo: undo that, and undo again
}

// undoCase is a history of options, undone last in, first out.
type undoCase struct {
	Set, Other *smodel.Set
	Steps      []step
}

var undoOps = []string{"ns", "only", "allow", "ignoreattr", "ignoreelem", "replace", "replacebad", "pkg", "fieldnames", "process", "soaparray", "soapslice", "loglevel", "logoutput", "follow"}

func genSteps(t *rapid.T, ops []string, args func(op string) []string) []step {
	var out []step
	depth := 0
	for k := prop.Range(t, 3, 14); k > 0; k-- {
		if depth > 0 && prop.Chance(t, 5) {
			out = append(out, step{Op: "undo", Redo: prop.Chance(t, 3)})
			depth--
			continue
		}
		if prop.Chance(t, 2) {
			out = append(out, step{Op: "other"})
			continue
		}
		s := step{Op: ops[prop.Int(t, len(ops))]}
		s.Args = args(s.Op)
		out = append(out, s)
		depth++
	}
	for ; depth > 0; depth-- {
		out = append(out, step{Op: "undo"})
	}
	return out
}

func genUndo(t *rapid.T) undoCase {
	small := GenOpts()
	small.MaxTypes = 4
	c := undoCase{Set: smodel.Gen(t, small)}
	small.MaxTypes = 2
	c.Other = smodel.Gen(t, small)
	types := typeNames(c.Set)
	c.Steps = genSteps(t, undoOps, func(op string) []string {
		switch op {
		case "ns":
			var out []string
			for i := range c.Set.Schemas {
				if prop.Chance(t, 5) {
					out = append(out, c.Set.Schemas[i].NS)
				}
			}
			return out
		case "only":
			return []string{prop.Pick(t, "a", "^b$", "[A-Z]", "o+", ".", "(")}
		case "allow":
			if len(types) == 0 {
				return []string{"urn:a", "none"}
			}
			n := types[prop.Int(t, len(types))]
			return []string{n.Space, n.Local}
		case "ignoreattr", "ignoreelem":
			return []string{prop.Pick(t, "a", "b", "item"), prop.Pick(t, "c", "Foo")}
		case "replace":
			r := replacements[prop.Int(t, len(replacements))]
			return []string{r[0], r[1]}
		case "pkg":
			return []string{prop.Pick(t, "foo", "main", "ws", "")}
		case "loglevel", "logoutput", "process":
			return []string{prop.Pick(t, "0", "1", "5")}
		case "follow":
			return []string{prop.Pick(t, "", "1")}
		}
		return nil
	})
	return c
}

type countLog struct{ n int }

func (l *countLog) Printf(string, ...interface{}) { l.n++ }

// option is the option of a step.
func (s step) option(log *countLog) xsdgen.Option {
	switch s.Op {
	case "ns":
		return xsdgen.Namespaces(s.Args...)
	case "only":
		return xsdgen.OnlyTypes(s.Args...)
	case "allow":
		return xsdgen.AllowType(xml.Name{Space: s.Args[0], Local: s.Args[1]})
	case "ignoreattr":
		return xsdgen.IgnoreAttributes(s.Args...)
	case "ignoreelem":
		return xsdgen.IgnoreElements(s.Args...)
	case "replace":
		return xsdgen.Replace(s.Args[0], s.Args[1])
	case "replacebad":
		return xsdgen.Replace("(", "x")
	case "pkg":
		return xsdgen.PackageName(s.Args[0])
	case "fieldnames":
		return xsdgen.UseFieldNames()
	case "process":
		return xsdgen.ProcessTypes(func(_ xsd.Schema, t xsd.Type) xsd.Type {
			return without(t, []string{"b", "c"}[:len(s.Args[0])%3], []string{"a"})
		})
	case "soaparray":
		return xsdgen.HandleSOAPArrayType()
	case "soapslice":
		return xsdgen.SOAPArrayAsSlice()
	case "loglevel":
		return xsdgen.LogLevel(int(s.Args[0][0] - '0'))
	case "logoutput":
		if s.Args[0] == "0" {
			return xsdgen.LogOutput(nil)
		}
		return xsdgen.LogOutput(log)
	case "follow":
		return xsdgen.FollowImports(s.Args[0] != "")
	}
	panic("no option " + s.Op)
}

// history runs the steps on a configuration, and compares it after each with
// what fresh gives for the options in effect.
type history struct {
	apply func(s step) (undo func() (redo func() (undo func())))
	gen   func(other bool) outcome
	fresh func(stack []step, other bool) outcome
}

func (h history) run(steps []step, r *prop.Rec) error {
	var stack []step
	var undos []func() func() func()
	var before []outcome
	describe := func() string {
		var out []string
		for _, s := range stack {
			out = append(out, fmt.Sprintf("%s%q", s.Op, s.Args))
		}
		return strings.Join(out, " ")
	}
	other := false
	now := func(what string) (outcome, error) {
		got, want := h.gen(other), h.fresh(stack, other)
		if err := want.same(got); err != nil {
			return got, fmt.Errorf("after %s a configuration with the options [%s] generates something else than a fresh one: %v", what, describe(), err)
		}
		return got, nil
	}
	last, err := now("nothing")
	if err != nil {
		return err
	}
	changed := false
	for i, s := range steps {
		switch s.Op {
		case "other":
			other = true
			_, err := now("use for the first schema")
			other = false
			if err != nil {
				return err
			}
			r.Label("used for another schema")
			if last, err = now("use for another schema"); err != nil {
				return err
			}
		case "undo":
			n := len(stack) - 1
			undone, was := stack[n], before[n]
			redo := undos[n]()
			full := stack
			stack, undos, before = stack[:n], undos[:n], before[:n]
			after := last
			if last, err = now(fmt.Sprintf("undoing %s%q", undone.Op, undone.Args)); err != nil {
				return err
			}
			if err := was.same(last); err != nil {
				return fmt.Errorf("undoing %s%q gives something else than before: %v", undone.Op, undone.Args, err)
			}
			if s.Redo {
				r.Label("undo undone")
				again := redo()
				stack = full
				got, err := now(fmt.Sprintf("undoing the undoing of %s%q", undone.Op, undone.Args))
				if err != nil {
					return err
				}
				if err := after.same(got); err != nil {
					return fmt.Errorf("undoing the undoing of %s%q: %v", undone.Op, undone.Args, err)
				}
				again()
				stack = full[:n]
				if last, err = now("undoing that again"); err != nil {
					return err
				}
			}
		default:
			before = append(before, last)
			undos = append(undos, h.apply(s))
			stack = append(stack[:len(stack):len(stack)], s)
			prev := last
			if last, err = now(fmt.Sprintf("step %d", i)); err != nil {
				return err
			}
			if prev.same(last) != nil {
				changed = true
				r.Label(s.Op + " changes the output")
			}
		}
	}
	r.Nontrivial(changed)
	return nil
}

func checkUndo(c undoCase, r *prop.Rec) error {
	docs := smodel.Render(c.Set, smodel.Style{}).Docs
	other := smodel.Render(c.Other, smodel.Style{}).Docs
	cfg, log := new(xsdgen.Config), new(countLog)
	run := func(cfg *xsdgen.Config, docs [][]byte, log *countLog) outcome {
		log.n = 0
		_, src, err := source(cfg, docs)
		o := outcome{src: src, err: err}
		if log.n > 0 {
			o.src = append(append([]byte{}, o.src...), "\n// something is logged\n"...)
		}
		return o
	}
	h := history{
		apply: func(s step) func() func() func() {
			undo := cfg.Option(s.option(log))
			return func() func() func() {
				redo := cfg.Option(undo)
				return func() func() { again := cfg.Option(redo); return func() { cfg.Option(again) } }
			}
		},
		gen: func(useOther bool) outcome { return run(cfg, pick(docs, other, useOther), log) },
		fresh: func(stack []step, useOther bool) outcome {
			k, l := new(xsdgen.Config), new(countLog)
			for _, s := range stack {
				k.Option(s.option(l))
			}
			return run(k, pick(docs, other, useOther), l)
		},
	}
	if err := h.run(c.Steps, r); err != nil {
		return fmt.Errorf("%v\n%s", err, show(docs))
	}
	return nil
}

func pick[T any](a, b T, second bool) T {
	if second {
		return b
	}
	return a
}

// clientUndo is such a history for clients.
type clientUndo struct {
	Client clientCase
	Other  clientCase
	Steps  []step
}

var clientOps = []string{"pkg", "comment", "in", "out", "ports", "loglevel", "logoutput", "xsdignore", "xsdreplace"}

func genClientUndo(t *rapid.T) clientUndo {
	c := clientUndo{Client: genClient(t), Other: genClient(t)}
	var ports []string
	for _, s := range c.Client.Service.Services {
		for _, p := range s.Ports {
			ports = append(ports, p.Name)
		}
	}
	ports = append(ports, "none")
	c.Steps = genSteps(t, clientOps, func(op string) []string {
		switch op {
		case "pkg":
			return []string{prop.Pick(t, "foo", "main", "")}
		case "comment":
			return []string{prop.Pick(t, "Package foo calls.", "", "x")}
		case "in", "out", "loglevel", "logoutput":
			return []string{prop.Pick(t, "0", "1", "2", "5")}
		case "ports":
			return []string{ports[prop.Int(t, len(ports))], ports[prop.Int(t, len(ports))]}
		case "xsdreplace":
			return []string{prop.Pick(t, "^a$", "o", "[A-Z]"), "q"}
		}
		return []string{"a", "b"}
	})
	return c
}

func (s step) clientOption(log *countLog) (wsdlgen.Option, xsdgen.Option) {
	num := func() int { return int(s.Args[0][0] - '0') }
	switch s.Op {
	case "pkg":
		return wsdlgen.PackageName(s.Args[0]), nil
	case "comment":
		return wsdlgen.PackageComment(s.Args[0]), nil
	case "in":
		return wsdlgen.InputThreshold(num()), nil
	case "out":
		return wsdlgen.OutputThreshold(num()), nil
	case "ports":
		return wsdlgen.OnlyPorts(s.Args...), nil
	case "loglevel":
		return wsdlgen.LogLevel(num()), nil
	case "logoutput":
		if num() == 0 {
			return wsdlgen.LogOutput(nil), nil
		}
		return wsdlgen.LogOutput(log), nil
	case "xsdignore":
		return nil, xsdgen.IgnoreElements(s.Args...)
	case "xsdreplace":
		return nil, xsdgen.Replace(s.Args[0], s.Args[1])
	}
	panic("no option " + s.Op)
}

func checkClientUndo(c clientUndo, r *prop.Rec) error {
	doc, other := c.Client.Service.Render(), c.Other.Service.Render()
	cfg, log := c.Client.config(), new(countLog)
	var infra error
	run := func(cfg *wsdlgen.Config, doc []byte, log *countLog) outcome {
		log.n = 0
		src, err := clientSource(cfg, doc)
		if _, ok := err.(prop.InfraError); ok {
			infra = err
		}
		o := outcome{src: src, err: err}
		if log.n > 0 {
			o.src = append(append([]byte{}, o.src...), "\n// something is logged\n"...)
		}
		return o
	}
	h := history{
		apply: func(s step) func() func() func() {
			w, x := s.clientOption(log)
			if w != nil {
				undo := cfg.Option(w)
				return func() func() func() {
					redo := cfg.Option(undo)
					return func() func() { again := cfg.Option(redo); return func() { cfg.Option(again) } }
				}
			}
			undo := cfg.XSDOption(x)
			return func() func() func() {
				redo := cfg.XSDOption(undo)
				return func() func() { again := cfg.XSDOption(redo); return func() { cfg.XSDOption(again) } }
			}
		},
		gen: func(useOther bool) outcome { return run(cfg, pick(doc, other, useOther), log) },
		fresh: func(stack []step, useOther bool) outcome {
			k, l := c.Client.config(), new(countLog)
			for _, s := range stack {
				if w, x := s.clientOption(l); w != nil {
					k.Option(w)
				} else {
					k.XSDOption(x)
				}
			}
			return run(k, pick(doc, other, useOther), l)
		},
	}
	err := h.run(c.Steps, r)
	if infra != nil {
		return infra
	}
	if err != nil {
		return fmt.Errorf("%v\n%s", err, doc)
	}
	return nil
}

// manyCase applies several options at once: the value returned reverts the
// last of them.
type manyCase struct {
	Set   *smodel.Set
	Steps []step
}

func genMany(t *rapid.T) manyCase {
	u := genUndo(t)
	c := manyCase{Set: u.Set}
	for _, s := range u.Steps {
		if s.Op != "undo" && s.Op != "other" {
			c.Steps = append(c.Steps, s)
		}
	}
	return c
}

func checkMany(c manyCase, r *prop.Rec) error {
	if len(c.Steps) == 0 {
		return nil
	}
	docs := smodel.Render(c.Set, smodel.Style{}).Docs
	log := new(countLog)
	run := func(cfg *xsdgen.Config) outcome {
		_, src, err := source(cfg, docs)
		return outcome{src: src, err: err}
	}
	var opts []xsdgen.Option
	for _, s := range c.Steps {
		opts = append(opts, s.option(log))
	}
	n := len(opts)
	one := new(xsdgen.Config)
	for _, o := range opts {
		one.Option(o)
	}
	all := new(xsdgen.Config)
	undo := all.Option(opts...)
	if err := run(one).same(run(all)); err != nil {
		return fmt.Errorf("options given one by one and at once: %v", err)
	}
	all.Option(undo)
	butLast := new(xsdgen.Config)
	butLast.Option(opts[:n-1]...)
	want := run(butLast)
	if err := want.same(run(all)); err != nil {
		return fmt.Errorf("undoing the last of %d options: %v\n%s", n, err, show(docs))
	}
	r.Nontrivial(!bytes.Equal(want.src, run(one).src))
	return nil
}

func init() {
	prop.Register("C21", "effects", "an option leaves out or renames something of a file of more than a dozen lines", genEffect, checkEffect, prop.Counts(3000, 50000))
	prop.Register("C21", "undo", "an option changes the output", genUndo, checkUndo, prop.Counts(500, 10000))
	prop.Register("C21", "several at once", "the last option changes the output", genMany, checkMany, prop.Counts(400, 6000))
	prop.Register("C21", "undo for clients", "an option changes the output", genClientUndo, checkClientUndo, prop.Counts(120, 3000))
}
