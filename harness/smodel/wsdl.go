package smodel

import (
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"pgregory.net/rapid"
)

// Namespaces of WSDL 1.1 and its bindings.
const (
	WSDL   = "http://schemas.xmlsoap.org/wsdl/"
	SOAP   = "http://schemas.xmlsoap.org/wsdl/soap/"
	SOAP12 = "http://schemas.xmlsoap.org/wsdl/soap12/"
	HTTP   = "http://schemas.xmlsoap.org/wsdl/http/"
)

// Service is a WSDL 1.1 document.
type Service struct {
	TNS       string
	Types     *Set `json:",omitempty"`
	Messages  []Message
	PortTypes []PortType
	Bindings  []Binding
	Services  []Endpoint
	Style     Style
}

type Message struct {
	Name  string
	Parts []MsgPart
}

type MsgPart struct {
	Name          string
	Type, Element QN // one of them
}

type PortType struct {
	Name string
	Ops  []Op
}

type Op struct {
	Name    string
	Docs    []string
	In, Out string // local names of messages, may be empty
	Fault   string
}

type Binding struct {
	Name, PortType string
	Kind           string   // soap, soap12, http, none
	Verb           string   // http
	Actions        []string // of the operations of the port type; "-": not bound
}

type Endpoint struct {
	Name  string
	Docs  []string
	Ports []ServicePort
}

type ServicePort struct{ Name, Binding, Address string }

func (s *Service) portType(name string) *PortType {
	for i := range s.PortTypes {
		if s.PortTypes[i].Name == name {
			return &s.PortTypes[i]
		}
	}
	return nil
}

func (s *Service) binding(name string) *Binding {
	for i := range s.Bindings {
		if s.Bindings[i].Name == name {
			return &s.Bindings[i]
		}
	}
	return nil
}

// PortInfo is what is to be known about a port.
type PortInfo struct {
	Name, Address, Method string
	Ops                   []OpInfo
}

type OpInfo struct {
	Name, Action string
	Docs         []string
	In, Out      QN
}

// Ports gives the ports of all services, in order.
func (s *Service) Ports() []PortInfo {
	var out []PortInfo
	name := func(l string) QN {
		if l == "" {
			return QN{}
		}
		return q(s.TNS, l)
	}
	for _, svc := range s.Services {
		for _, p := range svc.Ports {
			i := PortInfo{Name: p.Name, Address: p.Address, Method: "POST"}
			if b := s.binding(p.Binding); b != nil {
				if b.Kind == "http" {
					i.Method = b.Verb
				}
				if pt := s.portType(b.PortType); pt != nil {
					for k, op := range pt.Ops {
						o := OpInfo{Name: op.Name, Docs: op.Docs, In: name(op.In), Out: name(op.Out)}
						if b.Actions[k] != "-" && b.Kind != "http" && b.Kind != "none" {
							o.Action = b.Actions[k]
						}
						i.Ops = append(i.Ops, o)
					}
				}
			}
			out = append(out, i)
		}
	}
	return out
}

// GenService draws a service description.
func GenService(t *rapid.T) Service {
	s := Service{
		TNS:   prop.Pick(t, "urn:svc", "http://example.com/s?a=1&b=2", "urn:svc", "http://tempuri.org/", ""),
		Style: GenStyle(t),
	}
	docs := func() []string {
		var out []string
		for k := []int{0, 0, 0, 1, 1, 2}[prop.Int(t, 6)]; k > 0; k-- {
			out = append(out, prop.Pick(t, "Gets it.", "a < b & c", "two\nlines", "ünï"))
		}
		return out
	}
	pool := []string{"Get", "Put", "get", "message", "A", "B", "Get_In", "Get_Out", "x.y", "ö-l", "Q"}
	names := prop.Perm(t, len(pool))
	next := 0
	fresh := func() string { next++; return pool[names[(next-1)%len(names)]] }
	spaces := []string{XSD, s.TNS, "urn:types", ""}
	for k := prop.Int(t, 6); k > 0; k-- {
		m := Message{Name: fresh()}
		for j := prop.Int(t, 4); j > 0; j-- {
			p := MsgPart{Name: prop.Pick(t, "a", "b", "parameters", "part", "c-d")}
			n := q(spaces[prop.Int(t, len(spaces))], prop.Pick(t, "string", "Req", "T"))
			if prop.Chance(t, 8) {
				p.Type = n
			} else {
				p.Element = n
			}
			m.Parts = append(m.Parts, p)
		}
		s.Messages = append(s.Messages, m)
	}
	msg := func(k int) string {
		if len(s.Messages) == 0 || prop.Chance(t, k) {
			return ""
		}
		return s.Messages[prop.Int(t, len(s.Messages))].Name
	}
	next = prop.Int(t, 4)
	for k := prop.Range(t, 1, 3); k > 0; k-- {
		pt := PortType{Name: fresh()}
		off := prop.Int(t, len(pool))
		for j := prop.Int(t, 5); j > 0; j-- {
			off++
			pt.Ops = append(pt.Ops, Op{Name: pool[off%len(pool)], Docs: docs(), In: msg(2), Out: msg(3), Fault: msg(12)})
		}
		s.PortTypes = append(s.PortTypes, pt)
	}
	next = prop.Int(t, 4)
	for k := prop.Range(t, 1, 4); k > 0; k-- {
		pt := s.PortTypes[prop.Int(t, len(s.PortTypes))]
		b := Binding{Name: fresh(), PortType: pt.Name, Kind: prop.Pick(t, "soap", "soap12", "http", "soap", "none"), Verb: prop.Pick(t, "GET", "POST", "PUT", "DELETE")}
		for range pt.Ops {
			b.Actions = append(b.Actions, prop.Pick(t, "urn:act", "", "http://example.com/act?x=1&y=2", "\"q\"", "-"))
		}
		s.Bindings = append(s.Bindings, b)
	}
	next = prop.Int(t, 4)
	for k := []int{1, 1, 1, 2, 3, 0}[prop.Int(t, 6)]; k > 0; k-- {
		e := Endpoint{Name: fresh(), Docs: docs()}
		for j := prop.Int(t, 4); j > 0; j-- {
			p := ServicePort{Name: fresh(), Address: prop.Pick(t, "http://example.com/svc", "https://example.com/s?x=1&y=2", "http://h/ü")}
			p.Binding = s.Bindings[prop.Int(t, len(s.Bindings))].Name
			e.Ports = append(e.Ports, p)
		}
		s.Services = append(s.Services, e)
	}
	return s
}

// Render writes the document.
func (s *Service) Render() []byte { return s.RenderMutated(nil) }

func (s *Service) RenderMutated(muts []Mut) []byte {
	set := &Set{Schemas: []Schema{{NS: s.TNS}}}
	if s.Types != nil {
		set = s.Types
	}
	x := newRenderer(set, s.Style)
	x.main = WSDL
	x.also = []string{WSDL, SOAP, SOAP12, HTTP}
	w := func(l string) *node { return &node{name: q(WSDL, l)} }
	el := func(ns, l string) *node { return &node{name: q(ns, l)} }
	tns := func(l string) QN { return q(s.TNS, l) }
	docs := func(n *node, ds []string) {
		for _, d := range ds {
			k := w("documentation")
			k.text = d
			k.cdata = x.r.Intn(4) == 0
			n.add(k)
		}
	}
	noise := func(n *node) {
		if x.st.Annot && x.r.Intn(4) == 0 {
			k := el(Ext, []string{"documentation", "message", "port", "address", "operation", "input", "service"}[x.r.Intn(7)])
			k.set("name", "Get").set("location", "http://no")
			k.text = "No."
			n.add(k)
		}
	}
	var top []*node
	if s.Types == nil && x.r.Intn(2) == 0 {
		sc := xs("schema").set("targetNamespace", "urn:types")
		for _, l := range []string{"message", "service", "Req"} {
			sc.add(xs("element").set("name", l).qset("type", X("string")))
		}
		top = append(top, w("types").add(sc))
	}
	if s.Types != nil {
		types := w("types")
		for i := range s.Types.Schemas {
			types.add(x.schema(&s.Types.Schemas[i]))
		}
		top = append(top, types)
	}
	for _, m := range s.Messages {
		n := w("message").set("name", m.Name)
		for _, p := range m.Parts {
			k := w("part").set("name", p.Name)
			if p.Type.Local != "" {
				k.qset("type", p.Type)
			} else {
				k.qset("element", p.Element)
			}
			n.add(k)
		}
		noise(n)
		top = append(top, n)
	}
	for _, pt := range s.PortTypes {
		n := w("portType").set("name", pt.Name)
		for _, op := range pt.Ops {
			k := w("operation").set("name", op.Name)
			docs(k, op.Docs)
			var io []*node
			add := func(kind, msg string) {
				if msg != "" {
					e := w(kind).qset("message", tns(msg))
					if kind == "fault" || x.r.Intn(4) == 0 {
						e.set("name", kind)
					}
					io = append(io, e)
				}
			}
			add("input", op.In)
			add("output", op.Out)
			if x.r.Intn(4) == 0 && len(io) == 2 {
				io[0], io[1] = io[1], io[0]
			}
			add("fault", op.Fault)
			k.add(io...)
			noise(k)
			n.add(k)
		}
		top = append(top, n)
	}
	for _, b := range s.Bindings {
		n := w("binding").set("name", b.Name).qset("type", tns(b.PortType))
		ns := map[string]string{"soap": SOAP, "soap12": SOAP12, "http": HTTP, "none": Ext}[b.Kind]
		bb := el(ns, "binding")
		if b.Kind == "http" {
			verb := b.Verb
			switch x.r.Intn(4) {
			case 0, 1:
				verb = strings.ToLower(verb)
			case 2:
				verb = verb[:1] + strings.ToLower(verb[1:])
			}
			bb.set("verb", verb)
		} else {
			bb.set("style", "document").set("transport", "http://schemas.xmlsoap.org/soap/http")
		}
		n.add(bb)
		pt := s.portType(b.PortType)
		order := x.r.Perm(len(pt.Ops))
		for _, i := range order {
			if b.Actions[i] == "-" {
				continue
			}
			o := w("operation").set("name", pt.Ops[i].Name)
			oo := el(ns, "operation")
			if b.Kind == "http" {
				oo.set("location", "/"+pt.Ops[i].Name)
			} else {
				oo.set("soapAction", b.Actions[i])
			}
			o.add(oo)
			if b.Kind != "http" {
				io := w("input").add(el(ns, "body").set("use", "literal"))
				if pt.Ops[i].In != "" && x.r.Intn(4) == 0 {
					io.add(el(ns, "header").qset("message", tns(pt.Ops[i].In)).set("part", "a").set("use", "literal"))
				}
				o.add(io, w("output").add(el(ns, "body").set("use", "literal")))
			}
			noise(o)
			n.add(o)
		}
		top = append(top, n)
	}
	for _, svc := range s.Services {
		n := w("service").set("name", svc.Name)
		docs(n, svc.Docs)
		for _, p := range svc.Ports {
			k := w("port").set("name", p.Name).qset("binding", tns(p.Binding))
			kind := "soap"
			if b := s.binding(p.Binding); b != nil {
				kind = b.Kind
			}
			ns := map[string]string{"soap": SOAP, "soap12": SOAP12, "http": HTTP, "none": SOAP}[kind]
			k.add(el(ns, "address").set("location", p.Address))
			noise(k)
			n.add(k)
		}
		noise(n)
		top = append(top, n)
	}
	if x.st.Shuffle {
		// The services keep their order, which is that of the ports.
		var svc []*node
		for _, n := range top {
			if n.name.Local == "service" {
				svc = append(svc, n)
			}
		}
		x.r.Shuffle(len(top), func(i, j int) { top[i], top[j] = top[j], top[i] })
		for i, n := range top {
			if n.name.Local == "service" {
				top[i], svc = svc[0], svc[1:]
			}
		}
	}
	root := w("definitions").set("name", "Defs")
	if s.TNS != "" {
		root.set("targetNamespace", s.TNS)
	}
	if x.r.Intn(5) == 0 {
		root.add(w("documentation"))
	}
	if x.r.Intn(3) == 0 {
		root.add(w("import").set("namespace", "urn:imp").set("location", "imp.wsdl"))
	}
	root.add(top...)
	mutate([]*node{root}, muts)
	return x.document(root, s.TNS)
}

func (m Message) String() string { return fmt.Sprintf("%s%v", m.Name, m.Parts) }
