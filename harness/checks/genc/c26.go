package genc

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"pgregory.net/rapid"
)

const envNS = "http://schemas.xmlsoap.org/soap/envelope/"

// callCase is a service description, how to generate a client for it, and
// calls to make with the client.
type callCase struct {
	clientCase
	Calls    []svcCall
	Parallel bool
	Default  bool // no http.Client is given
	ReqHook  bool
	RspHook  bool

	Strict bool `json:",omitempty"` // no allowance for known findings
}

type svcCall struct {
	Op     int // among those that can be called
	Args   []*smodel.Node
	Outs   []*smodel.Node
	Mode   string
	Status int
	Cut    int // where the response ends, in thousandths
	Style  int // of the values
	Noise  int // of the response
	NewReq bool
	NewRsp bool
}

var callModes = []string{"ok", "ok", "ok", "ok", "fault", "fault", "transport", "cancelled before", "cancelled during", "truncated", "reset", "not XML", "another document", "bad value", "empty"}

func genCalls(t *rapid.T) callCase {
	o := clientOpts()
	o.OneWay, o.Busy = false, true
	o.Types.Wild, o.Types.NoQuirk, o.Types.NoNS = false, true, false
	o.PartNames = append([]string{"XMLName", "Args", "日本", "_"}, partNames...)
	c := callCase{clientCase: clientCase{Service: smodel.GenClient(t, o), In: 3, Out: 2}}
	if prop.Chance(t, 6) {
		c.In, c.Out = prop.Int(t, 5), prop.Int(t, 5)
	}
	c.Opt = Options{Defaults: prop.Chance(t, 4)}
	if !prop.Chance(t, 1) {
		c.Opt.Replace = append(c.Opt.Replace, replacements[0])
	}
	c.Parallel = prop.Chance(t, 4)
	c.Default = prop.Chance(t, 4)
	c.ReqHook = prop.Chance(t, 6)
	c.RspHook = prop.Chance(t, 6)
	ops := c.callable()
	for k := prop.Pick(t, 3, 1, 6, 10); k > 0 && len(ops) > 0; k-- {
		x := svcCall{Op: prop.Uniform(t, len(ops)), Mode: prop.Any(t, callModes...), Style: 2 * prop.Int(t, 16), Noise: prop.Int(t, 64)}
		x.NewReq = c.ReqHook && prop.Chance(t, 4)
		x.NewRsp = c.RspHook && x.Mode != "reset" && prop.Chance(t, 4)
		x.Cut = prop.Uniform(t, 1000)
		x.Status = 200
		if x.Mode != "ok" {
			x.Status = prop.Pick(t, 500, 200, 404, 400)
		}
		ok := true
		values := func(m *smodel.Message) []*smodel.Node {
			var out []*smodel.Node
			for _, p := range m.Parts {
				n := c.Service.Types.GenDoc(t, c.partType(p), QN{Space: c.Service.TNS, Local: p.Name}, smodel.DocOpts{MaxDepth: 3})
				ok = ok && n != nil
				out = append(out, n)
			}
			return out
		}
		x.Args, x.Outs = values(ops[x.Op].in), values(ops[x.Op].out)
		if ok {
			c.Calls = append(c.Calls, x)
		}
	}
	return c
}

// callable lists the operations whose methods are known by their names.
func (c callCase) callable() []clientOp {
	ops, _ := c.operations()
	idents := map[string]int{"HTTPClient": 1, "RequestHook": 1, "ResponseHook": 1, "Do": 0}
	for _, o := range ops {
		idents[c.Opt.ident(o.info.Name)]++
	}
	var out []clientOp
	for _, o := range ops {
		id, sure := c.Opt.ident(o.info.Name), true
		for other, n := range idents {
			if n > 1 && strings.HasPrefix(id, other) {
				sure = false
			}
		}
		if sure && o.in != nil && o.out != nil && validIdent(id) {
			out = append(out, o)
		}
	}
	return out
}

// response writes what the server answers.
func (x svcCall) response(c callCase, o clientOp) string {
	if x.Mode == "empty" {
		return ""
	}
	if x.Mode == "not XML" {
		return []string{"Bad gateway", "<!DOCTYPE html><html><p>Bad gateway<br></html>", "{\"fault\": 1}"}[x.Cut%3]
	}
	env := []string{"soap", "SOAP-ENV", ""}[x.Noise%3]
	p, decl := env+":", " xmlns:"+env
	if env == "" {
		p, decl = "", " xmlns"
	}
	var b strings.Builder
	if x.Noise&4 != 0 {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- <Envelope/> -->")
	}
	root := "Envelope"
	if x.Mode == "another document" {
		root = "Error"
	}
	fmt.Fprintf(&b, `<%s%s%s="%s">`, p, root, decl, envNS)
	if x.Noise&8 != 0 {
		fmt.Fprintf(&b, `<%sHeader><t:id xmlns:t="urn:trace" %smustUnderstand="0">17</t:id></%sHeader>`, p, map[bool]string{true: p}[env != ""], p)
	}
	space := ""
	if x.Noise&16 != 0 {
		space = "\n  "
	}
	fmt.Fprintf(&b, `%s<%sBody>%s`, space, p, space)
	if x.Mode == "fault" {
		code, text := x.fault()
		k := fmt.Sprintf(`<faultcode xmlns="">%s</faultcode>`, code)
		m := fmt.Sprintf(`<faultstring xmlns="">%s</faultstring>`, strings.ReplaceAll(text, "<", "&lt;"))
		switch x.Cut % 16 {
		case 4:
			k, m = m, k
		case 5:
			k = ""
		case 6:
			m = ""
		}
		fmt.Fprintf(&b, "<%sFault>%s%s", p, k, m)
		if x.Noise&32 != 0 {
			b.WriteString(`<faultactor xmlns="">urn:me</faultactor><detail xmlns=""><e:why xmlns:e="urn:e">because</e:why></detail>`)
		}
		fmt.Fprintf(&b, `</%sFault>`, p)
	} else {
		tns := strings.ReplaceAll(c.Service.TNS, "&", "&amp;")
		outs := append([]*smodel.Node(nil), x.Outs...)
		name, inner := o.info.Name, o.out.Name
		if c.Strict { // K11
			name, inner = name+"Response", ""
		}
		fmt.Fprintf(&b, `<r:%s xmlns:r="%s">%s`, name, tns, space)
		if inner != "" {
			fmt.Fprintf(&b, `<r:%s>%s`, inner, space)
		}
		for i, n := range outs {
			k := *n
			if c.Strict {
				k.Name.Space = ""
			}
			if x.Mode == "bad value" && badFor(k.Kind) != "" && firstBad(outs) == i {
				k.Text = badFor(k.Kind)
			}
			b.WriteString(k.Write(x.Style) + space)
		}
		if inner != "" {
			fmt.Fprintf(&b, `</r:%s>%s`, inner, space)
		}
		fmt.Fprintf(&b, `</r:%s>`, name)
	}
	fmt.Fprintf(&b, `%s</%sBody></%s%s>`, space, p, p, root)
	if x.Mode == "truncated" {
		return b.String()[:b.Len()*x.Cut/1000]
	}
	return b.String()
}

// fault gives the code and the text of a fault, either may be empty.
func (x svcCall) fault() (code, text string) {
	code, text = fmt.Sprintf("Server.x%d", x.Noise), fmt.Sprintf("it <broke %d", x.Cut)
	switch x.Cut % 16 {
	case 0, 6:
		text = ""
	case 1, 5:
		code = ""
	case 2:
		code, text = "", ""
	}
	return code, text
}

// badFor gives a text that is no value of a kind.
func badFor(kind string) string {
	switch smodel.Family(kind) {
	case "decimal", "float", "boolean":
		return "x1"
	}
	return ""
}

func firstBad(ns []*smodel.Node) int {
	for i, n := range ns {
		if badFor(n.Kind) != "" {
			return i
		}
	}
	return -1
}

// fails says whether a call has to give an error.
func (x svcCall) fails() bool {
	return x.Mode != "ok" && (x.Mode != "bad value" || firstBad(x.Outs) >= 0)
}

func (x svcCall) driverCall(c callCase, o clientOp) call {
	k := call{
		Method: c.Opt.ident(o.info.Name), Mode: x.Mode, Status: x.Status, NewReq: x.NewReq, NewRsp: x.NewRsp,
		WrapIn: len(o.in.Parts) > c.In, WrapOut: len(o.out.Parts) > c.Out,
		Response: x.response(c, o),
	}
	k.Cut = len(k.Response) * x.Cut / 1000
	for _, n := range x.Args {
		a := callArg{Doc: n.Write(x.Style)}
		if n.Kind != "" {
			a.Value = goValue(n.Kind, n.Text)
		}
		k.Args = append(k.Args, a)
	}
	for _, n := range x.Outs {
		k.OutNames = append(k.OutNames, n.Name)
	}
	return k
}

func checkCalls(cs []callCase, rs []*prop.Rec) []error {
	errs := make([]error, len(cs))
	var units []unit
	var reqs []request
	var src []int
	srcs := make([][]byte, len(cs))
	docs := make([][]byte, len(cs))
	for i, c := range cs {
		docs[i] = c.Service.Render()
		text, err := clientSource(c.config(), append([]byte(nil), docs[i]...))
		srcs[i] = text
		if _, ok := err.(prop.InfraError); ok {
			errs[i] = err
			continue
		}
		if err != nil {
			rs[i].Label("refused")
			continue // C25
		}
		_, pkg, err := compile(text)
		if err != nil {
			errs[i] = fmt.Errorf("does not compile: %v\n%s\n%s", err, docs[i], text)
			continue
		}
		client := clientType(pkg)
		if client == nil {
			errs[i] = fmt.Errorf("no client\n%s", text)
			continue
		}
		k := &calls{Parallel: c.Parallel, Default: c.Default, ReqHook: c.ReqHook, RspHook: c.RspHook}
		ops := c.callable()
		for _, x := range c.Calls {
			k.List = append(k.List, x.driverCall(c, ops[x.Op]))
		}
		reqs = append(reqs, request{Pkg: len(units), Type: client.Obj().Name(), Calls: k})
		src = append(src, i)
		units = append(units, unit{src: text, types: []string{client.Obj().Name()}})
	}
	p, err := build(units)
	if err != nil {
		for i := range errs {
			errs[i] = err
		}
		return errs
	}
	defer p.close()
	var live []request
	var at []int
	for k, r := range reqs {
		if p.bad[r.Pkg] != nil {
			errs[src[k]] = fmt.Errorf("generated source does not compile: %v\n%s", p.bad[r.Pkg], srcs[src[k]])
			continue
		}
		live = append(live, r)
		at = append(at, src[k])
	}
	res, err := p.do(live)
	if err != nil {
		for i := range errs {
			errs[i] = err
		}
		return errs
	}
	for j, a := range res {
		i := at[j]
		c := cs[i]
		rs[i].Nontrivial(len(c.Calls) > 0)
		rs[i].LabelIf(c.Parallel, "in parallel")
		rs[i].LabelIf(c.Default, "http.DefaultClient")
		if a.Crash != "" || len(a.Calls) != len(c.Calls) {
			errs[i] = fmt.Errorf("%d of %d calls, crashed: %s\n%s\n--- generated\n%s", len(a.Calls), len(c.Calls), a.Crash, docs[i], srcs[i])
			continue
		}
		ops := c.callable()
		for k, x := range c.Calls {
			rs[i].Work++
			rs[i].Label("server: " + x.Mode)
			r := a.Calls[k]
			err := c.judge(x, ops[x.Op], r)
			if err == nil && k == 0 && r.Stray > 0 {
				err = fmt.Errorf("a request or response is without the context of its call")
			}
			if err != nil {
				got, _ := json.MarshalIndent(r, "", " ")
				errs[i] = fmt.Errorf("call %d of %s (server: %s): %v\n--- arguments %+v\n--- happened\n%s\n--- response\n%s\n%s\n--- generated\n%s",
					k, ops[x.Op].info.Name, x.Mode, err, live[j].Calls.List[k].Args, got, x.response(c, ops[x.Op]), docs[i], srcs[i])
				break
			}
		}
	}
	return errs
}

func (c callCase) judge(x svcCall, o clientOp, r callResult) error {
	if r.Crash != "" {
		return fmt.Errorf("crashed: %s", r.Crash)
	}
	early := x.Mode == "cancelled before"
	// One request, unless the context says not to.
	if n := len(r.Requests); n != 1 && !(early && n == 0) {
		return fmt.Errorf("%d requests were made", n)
	}
	if c.ReqHook {
		if n := len(r.ReqHooks); n != 1 && !(early && n == 0) {
			return fmt.Errorf("the request hook was called %d times", n)
		}
	}
	if c.RspHook && r.RspHooks != r.Opened {
		return fmt.Errorf("the response hook was called %d times for %d responses", r.RspHooks, r.Opened)
	}
	if r.Opened != r.Closed {
		return fmt.Errorf("the response body is not closed")
	}
	// The hook sees the request, the server what the hook makes of it.
	for _, s := range r.ReqHooks {
		if err := c.target(o, s); err != nil {
			return fmt.Errorf("what the request hook sees: %v", err)
		}
	}
	for _, s := range r.Requests {
		if s.New != x.NewReq {
			return fmt.Errorf("the request hook's request is not used")
		}
		if x.NewReq {
			if s.URL != "http://replaced.example/x" {
				return fmt.Errorf("the request hook's address is not used: %s", s.URL)
			}
		} else if err := c.target(o, s); err != nil {
			return err
		}
		if s.Method == "GET" {
			if s.Body != "" {
				return fmt.Errorf("GET with a body: %s", s.Body)
			}
			continue
		}
		if err := c.sent(x, o, s.Body); err != nil {
			return fmt.Errorf("%v\n--- request\n%s", err, s.Body)
		}
	}
	if x.fails() {
		if r.Err == "" {
			return fmt.Errorf("there is no error")
		}
		if x.Mode == "fault" {
			code, text := x.fault()
			for _, w := range []string{code, text} {
				if !strings.Contains(r.Err, w) {
					return fmt.Errorf("the error does not say %q: %s", w, r.Err)
				}
			}
		}
		return nil
	}
	if r.Err != "" {
		return fmt.Errorf("failed: %s", r.Err)
	}
	if len(r.Values) != len(x.Outs) {
		return fmt.Errorf("%d values are returned, want %d", len(r.Values), len(x.Outs))
	}
	for i, n := range x.Outs {
		var v interface{}
		if err := json.Unmarshal(r.Values[i], &v); err != nil {
			return err
		}
		if err := sameReturned(n, v, r.Outs[i]); err != nil {
			return fmt.Errorf("result %s: %v", n.Name.Local, err)
		}
	}
	return nil
}

// sameReturned compares a result with what was sent.
func sameReturned(n *smodel.Node, v interface{}, out string) error {
	if _, ok := v.(map[string]interface{}); n.Kind != "" && len(n.Attrs) == 0 && !ok {
		return sameGo(n.Kind, n.Text, v)
	}
	if strings.HasPrefix(out, "error: ") {
		return fmt.Errorf("cannot be encoded: %s", out)
	}
	got, err := smodel.ReadDoc(out)
	if err != nil {
		return fmt.Errorf("what was encoded does not parse: %v", err)
	}
	w := *n
	w.Name = got.Name
	if err := sameDoc(&w, got, ""); err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	return nil
}

// target compares a request with what the ports say. An operation that is
// bound several times may be sent to any of the ports.
func (c callCase) target(o clientOp, s callSeen) error {
	var last error
	for _, p := range c.Service.Ports() {
		for _, op := range p.Ops {
			if op.Name != o.info.Name || op.In != o.info.In || op.Out != o.info.Out {
				continue
			}
			addr := p.Address
			if u, err := url.Parse(addr); err == nil {
				addr = u.String()
			}
			switch {
			case s.Method != p.Method:
				last = fmt.Errorf("method %s, want %s", s.Method, p.Method)
			case s.URL != addr:
				last = fmt.Errorf("request to %s, want %s", s.URL, addr)
			case s.Action != op.Action && s.Action != `"`+op.Action+`"`:
				last = fmt.Errorf("action %q, want %q", s.Action, op.Action)
			default:
				return nil
			}
		}
	}
	return last
}

// sent compares a request with the arguments.
func (c callCase) sent(x svcCall, o clientOp, text string) error {
	root, err := smodel.ReadDoc(text)
	if err != nil {
		return fmt.Errorf("the request does not parse: %v", err)
	}
	if (root.Name != QN{Space: envNS, Local: "Envelope"}) {
		return fmt.Errorf("the request is a %v", root.Name)
	}
	var body *smodel.Node
	for _, k := range root.Kids {
		switch k.Name {
		case QN{Space: envNS, Local: "Body"}:
			if body != nil {
				return fmt.Errorf("two bodies")
			}
			body = k
		case QN{Space: envNS, Local: "Header"}:
			if body != nil {
				return fmt.Errorf("the header follows the body")
			}
		default:
			return fmt.Errorf("%v in the envelope", k.Name)
		}
	}
	if body == nil {
		return fmt.Errorf("no body")
	}
	if len(body.Kids) != 1 {
		return fmt.Errorf("%d elements in the body", len(body.Kids))
	}
	op := body.Kids[0]
	if (op.Name != QN{Space: c.Service.TNS, Local: o.info.Name}) {
		return fmt.Errorf("the body has a %v", op.Name)
	}
	args := op.Kids
	if !c.Strict && len(args) == 1 && (args[0].Name == QN{Space: c.Service.TNS, Local: o.in.Name}) { // K11
		args = args[0].Kids
	}
	if len(args) != len(x.Args) {
		return fmt.Errorf("%d arguments are sent, want %d", len(args), len(x.Args))
	}
	for i, a := range x.Args {
		w := *a
		if c.Strict {
			w.Name.Space = ""
		}
		if !c.Strict && args[i].Name.Space == "" {
			w.Name.Space = ""
		}
		if err := sameDoc(&w, args[i], ""); err != nil {
			return fmt.Errorf("argument: %v", err)
		}
	}
	return nil
}

func checkCall(c callCase, r *prop.Rec) error {
	return checkCalls([]callCase{c}, []*prop.Rec{r})[0]
}

func init() {
	prop.Register("C26", "calls", "a method is called", genCalls, checkCall, prop.Counts(640, 20000), prop.Batch(40, checkCalls))
}
