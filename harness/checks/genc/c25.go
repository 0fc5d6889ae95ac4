package genc

import (
	"bytes"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsdgen"
	"pgregory.net/rapid"
)

// clientCase is a service description and how to generate a client for it.
type clientCase struct {
	Service smodel.Service
	Opt     Options // Pkg is wsdlgen's
	In, Out int     // thresholds
	Ports   []string
	Comment string
	Muts    []smodel.Mut `json:",omitempty"`
}

var (
	// Names of parts, all keywords among them
	partNames = []string{"a", "b", "parameters", "type", "ctx", "c", "input", "output", "err", "c-d", "x.y", "A", "string", "int", "result", "v", "öl", "body", "time", "xml", "error", "foo", "nil", "_u", "context",
		"break", "default", "func", "interface", "select", "case", "defer", "go", "map", "struct", "chan", "else", "goto", "package", "switch",
		"const", "fallthrough", "if", "range", "continue", "for", "import", "return", "var",
		"http", "fmt", "io", "bytes", "bool", "byte", "append", "len", "true", "iota", "init", "main"}
	opNames  = []string{"Get", "Put", "get", "do", "Do", "Get-it", "HTTPClient", "RequestHook", "type", "Foo", "x.y", "Client", "öl", "String", "Get2", "Error"}
	msgNames = []string{"GetIn", "GetOut", "Foo", "item", "Client", "foo", "x-y", "type", "get.out", "GetRequest", "a", "soapEnvelope", "xsdDate", "öl"}
)

func clientOpts() smodel.ClientOpts {
	o := GenOpts()
	o.MaxNS, o.MaxTypes = 2, 3
	o.Names = append([]string{"Client", "client", "soapEnvelope", "http"}, GoNames...)
	return smodel.ClientOpts{Types: o, PartNames: partNames, OpNames: opNames, MsgNames: msgNames, MaxParts: 4, OneWay: true}
}

func genClient(t *rapid.T) clientCase {
	c := clientCase{Service: smodel.GenClient(t, clientOpts()), Opt: genOptions(t), In: 3, Out: 2}
	if prop.Chance(t, 8) {
		c.In, c.Out = prop.Int(t, 5), prop.Int(t, 5)
	}
	if prop.Chance(t, 4) {
		c.Ports = []string{}
		for _, s := range c.Service.Services {
			for _, p := range s.Ports {
				if prop.Chance(t, 6) {
					c.Ports = append(c.Ports, p.Name)
				}
			}
		}
		if len(c.Ports) == 0 {
			c.Ports = append(c.Ports, "none such")
		}
	}
	c.Comment = prop.Pick(t, "", "", "Package x calls.", "Two\nlines */")
	return c
}

func (c clientCase) config() *wsdlgen.Config {
	cfg := new(wsdlgen.Config)
	cfg.Option(wsdlgen.InputThreshold(c.In), wsdlgen.OutputThreshold(c.Out))
	if c.Opt.Pkg != "" {
		cfg.Option(wsdlgen.PackageName(c.Opt.Pkg))
	}
	if c.Comment != "" {
		cfg.Option(wsdlgen.PackageComment(c.Comment))
	}
	if c.Ports != nil {
		cfg.Option(wsdlgen.OnlyPorts(c.Ports...))
	}
	o := c.Opt
	o.Pkg = ""
	cfg.XSDOption(o.list()...)
	return cfg
}

// clientSource generates a client for a document.
func clientSource(cfg *wsdlgen.Config, doc []byte) ([]byte, error) {
	dir, err := scratch()
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "svc.wsdl")
	if err := os.WriteFile(p, doc, 0o666); err != nil {
		return nil, prop.Infra("%v", err)
	}
	return cfg.GenSource(p)
}

// clientOp is an operation there has to be a method for.
type clientOp struct {
	info    smodel.OpInfo
	port    smodel.PortInfo
	in, out *smodel.Message
}

// operations lists the distinct operations of the selected ports, and says
// whether all have an input and an output.
func (c clientCase) operations() (ops []clientOp, complete bool) {
	complete = true
	type key struct {
		name    string
		in, out QN
	}
	seen := map[key]bool{}
	for _, p := range c.Service.Ports() {
		if c.Ports != nil {
			ok := false
			for _, n := range c.Ports {
				ok = ok || n == p.Name
			}
			if !ok {
				continue
			}
		}
		for _, o := range p.Ops {
			k := key{o.Name, o.In, o.Out}
			if seen[k] {
				continue
			}
			seen[k] = true
			x := clientOp{info: o, port: p, in: c.Service.Msg(o.In.Local), out: c.Service.Msg(o.Out.Local)}
			complete = complete && x.in != nil && x.out != nil
			ops = append(ops, x)
		}
	}
	return ops, complete
}

func (c clientCase) allValid(ops []clientOp) bool {
	o := c.Opt
	if !allValid(c.Service.Types, o) {
		return false
	}
	for _, op := range ops {
		if !validIdent(o.ident(op.info.Name)) {
			return false
		}
		for i, m := range []*smodel.Message{op.in, op.out} {
			if m == nil {
				continue
			}
			if len(m.Parts) > []int{c.In, c.Out}[i] && !validIdent(strings.Title(m.Name)) {
				return false
			}
			for _, p := range m.Parts {
				if !validIdent(strings.Title(p.Name)) {
					return false
				}
			}
		}
	}
	return true
}

func checkClient(c clientCase, r *prop.Rec) error {
	doc := c.Service.RenderMutated(c.Muts)
	src, err := clientSource(c.config(), append([]byte(nil), doc...))
	if f := os.Getenv("VERIF_DUMP"); f != "" { // to look into a replay
		os.WriteFile(f+".wsdl", doc, 0o666)
		os.WriteFile(f+".go", src, 0o666)
	}
	if _, ok := err.(prop.InfraError); ok {
		return err
	}
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%s\noptions %+v, thresholds %d and %d, ports %q\n%s\n--- generated\n%s", fmt.Sprintf(format, a...), c.Opt, c.In, c.Out, c.Ports, doc, src)
	}
	if c.Muts != nil {
		r.LabelIf(err != nil, "refused")
		if err != nil {
			return nil
		}
		r.Nontrivial(true)
		if _, _, err := compile(src); err != nil {
			return fail("%v", err)
		}
		return nil
	}
	ops, complete := c.operations()
	if err != nil {
		if !complete {
			r.Label("error: one-way operation")
			return nil
		}
		if !c.allValid(ops) {
			r.Label("error: a name that is no identifier")
			return nil
		}
		if qnameList(c.Service.Types) && strings.Contains(err.Error(), "don't know how to marshal/unmarshal <list> of QName") {
			r.Label("error: a list of QNames")
			return nil
		}
		return fail("generation failed: %v", cut(err.Error()))
	}
	r.Nontrivial(len(ops) > 0)
	r.Labelf("%d operations", len(ops))
	r.LabelIf(c.Ports != nil, "some ports")
	f, pkg, err := compile(src)
	if err != nil {
		return fail("%v", err)
	}
	want := c.Opt.Pkg
	if want == "" {
		want = "ws"
	}
	if f.Name.Name != want {
		return fail("package %s, want %s", f.Name.Name, want)
	}
	if err := formatted(src); err != nil {
		return fail("%v", err)
	}
	xcfg := c.Opt
	xcfg.Pkg = ""
	code, err := xcfg.config().GenCode(append([]byte(nil), doc...))
	if err != nil {
		return fail("xsdgen: %v", err)
	}
	if err := c.judge(pkg, ops, code, r); err != nil {
		return fail("%v", err)
	}
	return nil
}

func (c clientCase) judge(pkg *types.Package, ops []clientOp, code *xsdgen.Code, r *prop.Rec) error {
	e := newExpect(c.Service.Types, c.Opt, pkg)
	client := clientType(pkg)
	if client == nil {
		return fmt.Errorf("no client type")
	}
	e.also = map[string]bool{client.Obj().Name(): true}
	declared := map[string]bool{}
	for _, n := range pkg.Scope().Names() {
		declared[n] = true
	}
	// The client makes way for a type of its name.
	if n := client.Obj().Name(); n != "Client" && !declared["Client"] {
		return fmt.Errorf("the client is called %s", n)
	}
	for _, n := range []string{"soapEnvelope", "soapEnvelope2"} {
		if declared[n] {
			e.also[n] = true
			break
		}
	}
	methods := map[string]*types.Signature{}
	for i := 0; i < client.NumMethods(); i++ {
		if m := client.Method(i); m.Exported() {
			methods[m.Name()] = m.Type().(*types.Signature)
		}
	}
	var names []string
	for n := range methods {
		names = append(names, n)
	}
	sort.Strings(names)
	if len(methods) != len(ops) {
		return fmt.Errorf("%d methods %q, want %d", len(methods), names, len(ops))
	}
	idents := map[string]int{"HTTPClient": 1, "RequestHook": 1, "ResponseHook": 1}
	for _, o := range ops {
		idents[c.Opt.ident(o.info.Name)]++
	}
	left := map[string]bool{}
	for _, n := range names {
		left[n] = true
	}
	// A name of its own is given unchanged, unless it may be taken by an
	// operation that shares its name.
	sure := func(id string) bool {
		for other, n := range idents {
			if n > 1 && strings.HasPrefix(id, other) {
				return false
			}
		}
		return true
	}
	try := func(o clientOp, n string) error {
		also := map[string]bool{}
		if err := c.signature(e, methods[n], o, also); err != nil {
			return fmt.Errorf("method %s: %v", n, err)
		}
		for n := range also {
			e.also[n] = true
		}
		return nil
	}
	var rest []clientOp
	for _, o := range ops {
		id := c.Opt.ident(o.info.Name)
		if !sure(id) {
			rest = append(rest, o)
			continue
		}
		if !left[id] {
			return fmt.Errorf("no method %s, only %q", id, names)
		}
		if err := try(o, id); err != nil {
			return err
		}
		delete(left, id)
	}
	r.LabelIf(len(rest) > 0, "operations of the same name")
	var failed error
	var assign func(rest []clientOp) bool
	assign = func(rest []clientOp) bool {
		if len(rest) == 0 {
			return true
		}
		for _, n := range names {
			if !left[n] || !strings.HasPrefix(n, c.Opt.ident(rest[0].info.Name)) {
				continue
			}
			if err := try(rest[0], n); err != nil {
				failed = err
				continue
			}
			left[n] = false
			if assign(rest[1:]) {
				return true
			}
			left[n] = true
		}
		return false
	}
	if !assign(rest) {
		return fmt.Errorf("the methods %q are not those of the operations (%v)", names, failed)
	}
	return e.check(code.NameOf)
}

// clientType finds the type operations are called on: a struct one can set
// the hooks and the http.Client of.
func clientType(pkg *types.Package) *types.Named {
	for _, n := range pkg.Scope().Names() {
		obj, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := obj.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := named.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var have int
		for i := 0; i < st.NumFields(); i++ {
			switch f := st.Field(i); f.Name() + " " + f.Type().String() {
			case "HTTPClient *net/http.Client", "ResponseHook func(*net/http.Response) *net/http.Response", "RequestHook func(*net/http.Request) *net/http.Request":
				have++
			}
		}
		if have == 3 {
			return named
		}
	}
	return nil
}

// signature compares a method with its operation.
func (c clientCase) signature(e *expect, sig *types.Signature, o clientOp, also map[string]bool) error {
	if sig.Variadic() {
		return fmt.Errorf("it is variadic")
	}
	var params, results []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		params = append(params, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		results = append(results, sig.Results().At(i).Type())
	}
	if len(params) == 0 || e.str(params[0]) != "context.Context" {
		return fmt.Errorf("first parameter is not a context.Context: %v", e.str(sig))
	}
	if n := len(results); n == 0 || e.str(results[n-1]) != "error" {
		return fmt.Errorf("last result is not an error: %v", e.str(sig))
	}
	if err := c.values(e, params[1:], o.in, c.In, also); err != nil {
		return fmt.Errorf("input: %v in %v", err, e.str(sig))
	}
	if err := c.values(e, results[:len(results)-1], o.out, c.Out, also); err != nil {
		return fmt.Errorf("output: %v in %v", err, e.str(sig))
	}
	return nil
}

func (c clientCase) values(e *expect, ts []types.Type, m *smodel.Message, max int, also map[string]bool) error {
	var parts []smodel.MsgPart
	if m != nil {
		parts = m.Parts
	}
	if len(parts) > max {
		if len(ts) != 1 {
			return fmt.Errorf("%d values, want one for %d parts", len(ts), len(parts))
		}
		n, ok := ts[0].(*types.Named)
		if !ok {
			return fmt.Errorf("%d parts are in a %s, not in a declared type", len(parts), e.str(ts[0]))
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return fmt.Errorf("%d parts are in a %s, not in a struct", len(parts), e.str(n.Underlying()))
		}
		also[n.Obj().Name()] = true
		ts = nil
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() && strings.Title(parts[min(i, len(parts)-1)].Name)[0] != '_' {
				return fmt.Errorf("field %s is not exported", st.Field(i).Name())
			}
			ts = append(ts, st.Field(i).Type())
		}
	}
	if len(ts) != len(parts) {
		return fmt.Errorf("%d values, want %d", len(ts), len(parts))
	}
	for i, p := range parts {
		r := c.partType(p)
		err := e.match(ts[i], r, map[pair]bool{})
		if n, ok := ts[i].(*types.Named); err != nil && ok && n.Obj().Pkg() == e.pkg && r.Def != nil && r.Def.Simple != nil && !e.needs(r) && e.isBuiltinDecl(n, e.set.AtomRoot(r)) {
			err = nil // may be declared without need
		}
		if err != nil {
			return fmt.Errorf("part %s: %v", p.Name, err)
		}
	}
	return nil
}

// partType is the schema type of a part.
func (c clientCase) partType(p smodel.MsgPart) Res {
	set := c.Service.Types
	if p.Element.Local != "" {
		return set.Resolve(set.Elem(p.Element).Type, p.Element.Space, "anyType")
	}
	return set.Resolve(smodel.Ref{Name: p.Type}, "", "anyType")
}

// genBroken changes a description at random.
func genBroken(t *rapid.T) clientCase {
	c := genClient(t)
	c.Muts = smodel.GenMuts(t, 1, 3)
	return c
}

// clientOrder generates a client again, as C20 does with schemas.
func checkClientRepeat(c clientCase, r *prop.Rec) error {
	doc := c.Service.Render()
	cfg := c.config()
	var first outcome
	for i := 0; i < 4; i++ {
		k := c.config()
		if i > 1 {
			k = cfg
		}
		src, err := clientSource(k, append([]byte(nil), doc...))
		o := outcome{src: src, err: err}
		if i == 0 {
			first = o
			r.Nontrivial(err == nil && bytes.Contains(src, []byte("func (c *Client)")))
			continue
		}
		if err := first.same(o); err != nil {
			return fmt.Errorf("generated %d times, %v\n%s", i+1, err, doc)
		}
	}
	return nil
}

func init() {
	prop.Register("C25", "clients", "there is an operation", genClient, checkClient, prop.Counts(2500, 40000))
	prop.Register("C25", "broken descriptions", "generation succeeds", genBroken, checkClient, prop.Counts(800, 15000))
	prop.Register("C20", "clients", "there is a method", genClient, checkClientRepeat, prop.Counts(300, 6000))
}
