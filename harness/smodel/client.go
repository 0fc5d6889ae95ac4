package smodel

import (
	"fmt"

	"aqwari.net/xml/verif/prop"
	"pgregory.net/rapid"
)

// ClientOpts bound a service description clients are generated for.
type ClientOpts struct {
	Types     Opts
	PartNames []string
	OpNames   []string
	MsgNames  []string
	MaxParts  int
	OneWay    bool // operations may lack an input or output
	Busy      bool // there are operations and ports
	Plain     bool // one port type, parts of named types only
}

// GenClient draws a service description with schemas, all of whose references
// resolve. An operation of the same name, input and output has the same
// action wherever it is bound.
func GenClient(t *rapid.T, o ClientOpts) Service {
	s := Service{
		TNS:   prop.Pick(t, "urn:svc", "http://example.com/s?a=1&b=2", "urn:a", "http://tempuri.org/"),
		Style: GenStyle(t),
		Types: Gen(t, o.Types),
	}
	least := 0
	if o.Busy {
		least = 1
	}
	type target struct {
		typ, elem QN
	}
	var targets []target
	for i := range s.Types.Schemas {
		sc := &s.Types.Schemas[i]
		for _, d := range sc.Types {
			targets = append(targets, target{typ: q(sc.NS, d.Name)})
		}
		for _, d := range sc.Elems {
			targets = append(targets, target{elem: q(sc.NS, d.Name)})
		}
	}
	docs := func() []string {
		var out []string
		for k := []int{0, 0, 1, 2}[prop.Int(t, 4)]; k > 0; k-- {
			out = append(out, prop.Pick(t, "Gets it.", "a < b & c */", "two\nlines", "ünï `x`"))
		}
		return out
	}
	fresh := func(pool []string) func() string {
		order := prop.Perm(t, len(pool))
		return func() string {
			if len(order) == 0 {
				return ""
			}
			k := order[0]
			order = order[1:]
			return pool[k]
		}
	}
	msgName := fresh(o.MsgNames)
	for k := prop.Range(t, 1, 6); k > 0; k-- {
		m := Message{Name: msgName()}
		partName := fresh(o.PartNames)
		for j := prop.Int(t, o.MaxParts+1); j > 0; j-- {
			p := MsgPart{Name: partName()}
			if p.Name == "" {
				break
			}
			if len(targets) == 0 || prop.Chance(t, 5) {
				p.Type = X(o.Types.Builtins[prop.Uniform(t, len(o.Types.Builtins))])
			} else {
				x := targets[prop.Int(t, len(targets))]
				p.Type, p.Element = x.typ, x.elem
			}
			m.Parts = append(m.Parts, p)
		}
		if m.Name != "" {
			s.Messages = append(s.Messages, m)
		}
	}
	msg := func() string {
		if o.OneWay && prop.Chance(t, 1) {
			return ""
		}
		return s.Messages[prop.Int(t, len(s.Messages))].Name
	}
	for k := prop.Range(t, 1, 3); k > 0; k-- {
		pt := PortType{Name: fmt.Sprintf("PT%d", k)}
		opName := fresh(o.OpNames)
		for j := prop.Range(t, least, 4); j > 0; j-- {
			op := Op{Name: opName(), Docs: docs(), In: msg(), Out: msg()}
			if op.Name == "" {
				break
			}
			pt.Ops = append(pt.Ops, op)
		}
		s.PortTypes = append(s.PortTypes, pt)
	}
	style := prop.Int(t, 3)
	for k := prop.Range(t, 1, 4); k > 0; k-- {
		pt := s.PortTypes[prop.Int(t, len(s.PortTypes))]
		b := Binding{Name: fmt.Sprintf("B%d", k), PortType: pt.Name, Kind: prop.Pick(t, "soap", "soap12", "soap", "http"), Verb: prop.Pick(t, "GET", "POST", "PUT")}
		for _, op := range pt.Ops {
			b.Actions = append(b.Actions, []string{"", "urn:act#" + op.Name, "http://x/?o=" + op.Name + "&q=\"\\" + op.In + op.Out}[style])
		}
		s.Bindings = append(s.Bindings, b)
	}
	for k := []int{1, 1, 1, 2}[prop.Int(t, 4)]; k > 0; k-- {
		e := Endpoint{Name: fmt.Sprintf("S%d", k), Docs: docs()}
		for j := prop.Range(t, least, 3); j > 0; j-- {
			e.Ports = append(e.Ports, ServicePort{
				Name:    fmt.Sprintf("P%d%d", k, j),
				Binding: s.Bindings[prop.Int(t, len(s.Bindings))].Name,
				Address: prop.Pick(t, "http://example.com/svc", "https://example.com/s?x=1&y=2", "http://h/ü\"\\"),
			})
		}
		s.Services = append(s.Services, e)
	}
	return s
}

// Msg finds a message by its local name.
func (s *Service) Msg(name string) *Message {
	for i := range s.Messages {
		if s.Messages[i].Name == name {
			return &s.Messages[i]
		}
	}
	return nil
}
