package genc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsdgen"
	"pgregory.net/rapid"
)

// detCase is generated several times over.
type detCase struct {
	Set   *smodel.Set
	Style smodel.Style
	Opt   Options
}

// detGen prefers sets with much that could be enumerated in another order.
func detGen(t *rapid.T) detCase {
	o := GenOpts()
	o.MaxTypes += 2
	if prop.Chance(t, 8) {
		// Few names, so that they must be told apart.
		o.Names = []string{"a", "b", "A", "x-y", "Foo", "item"}
	}
	return detCase{Set: smodel.Gen(t, o), Style: smodel.GenStyle(t), Opt: genOptions(t)}
}

type outcome struct {
	src   []byte
	err   error
	names string
}

func (o outcome) same(p outcome) error {
	if (o.err == nil) != (p.err == nil) {
		return fmt.Errorf("error is %v, then %v", o.err, p.err)
	}
	if !bytes.Equal(o.src, p.src) {
		return fmt.Errorf("the source differs: %s", firstDiff(string(o.src), string(p.src)))
	}
	if o.names != p.names {
		return fmt.Errorf("the names differ: %s", firstDiff(o.names, p.names))
	}
	return nil
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := "nothing"
			if i < len(y) {
				z = fmt.Sprintf("%q", y[i])
			}
			return fmt.Sprintf("line %d is %q, then %s", i+1, x[i], z)
		}
	}
	return "one ends early"
}

func generate(cfg *xsdgen.Config, set *smodel.Set, docs [][]byte) outcome {
	code, src, err := source(cfg, docs)
	o := outcome{src: src, err: err}
	if err == nil {
		var b strings.Builder
		for i := range set.Schemas {
			for _, t := range set.Schemas[i].Types {
				n := smodel.QN{Space: set.Schemas[i].NS, Local: t.Name}
				fmt.Fprintf(&b, "%v: %s\n", n, code.NameOf(n))
			}
		}
		o.names = b.String()
	}
	return o
}

func checkRepeat(c detCase, r *prop.Rec) error {
	docs := smodel.Render(c.Set, c.Style).Docs
	labelSet(c.Set, r)
	first := generate(c.Opt.config(), c.Set, docs)
	r.Nontrivial(first.err == nil && strings.Count(string(first.src), "\ntype ") > 1)
	r.LabelIf(first.err != nil, "generation fails")
	for i := 0; i < 3; i++ {
		if err := first.same(generate(c.Opt.config(), c.Set, docs)); err != nil {
			return fmt.Errorf("generated twice, %v\n%s", err, show(docs))
		}
	}
	// The same configuration again.
	cfg := c.Opt.config()
	for i := 0; i < 3; i++ {
		if err := first.same(generate(cfg, c.Set, docs)); err != nil {
			return fmt.Errorf("generated %d times with one configuration, %v\n%s", i+1, err, show(docs))
		}
	}
	// Other configurations at the same time.
	ch := make(chan outcome)
	const n = 4
	for i := 0; i < n; i++ {
		go func() {
			defer func() {
				if p := recover(); p != nil {
					ch <- outcome{err: fmt.Errorf("panic: %v", p)}
				}
			}()
			ch <- generate(c.Opt.config(), c.Set, docs)
		}()
	}
	var bad error
	for i := 0; i < n; i++ {
		if err := first.same(<-ch); err != nil && bad == nil {
			bad = fmt.Errorf("generated concurrently, %v\n%s", err, show(docs))
		}
	}
	return bad
}

// SourceMain generates the source of the case on standard input, for the
// facet that compares processes.
func SourceMain() {
	var c detCase
	b, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	_, src, err := source(c.Opt.config(), smodel.Render(c.Set, c.Style).Docs)
	if err != nil {
		os.Exit(4)
	}
	os.Stdout.Write(src)
}

func checkProcess(c detCase, r *prop.Rec) error {
	docs := smodel.Render(c.Set, c.Style).Docs
	first := generate(c.Opt.config(), c.Set, docs)
	r.Nontrivial(first.err == nil && strings.Count(string(first.src), "\ntype ") > 1)
	exe, err := os.Executable()
	if err != nil {
		return prop.Infra("%v", err)
	}
	b, err := json.Marshal(c)
	if err != nil {
		return prop.Infra("%v", err)
	}
	cmd := exec.Command(exe, "source")
	cmd.Stdin = bytes.NewReader(b)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err = cmd.Run()
	if e, ok := err.(*exec.ExitError); err != nil && !(ok && e.ExitCode() == 4) {
		return prop.Infra("source process: %v %s", err, errs.String())
	}
	second := outcome{src: out.Bytes(), err: err, names: first.names}
	if first.err != nil {
		first.src = second.src
	}
	if err := first.same(second); err != nil {
		return fmt.Errorf("generated in another process, %v\n%s", err, show(docs))
	}
	return nil
}

// orderCase is written and configured in two orders.
type orderCase struct {
	Set   *smodel.Set
	Style smodel.Style
	Opt   Options
	Seed  int64
}

func genOrder(t *rapid.T) orderCase {
	o := GenOpts()
	o.Anon = false // anonymous types are numbered in the order of the document
	o.MaxTypes += 2
	return orderCase{Set: smodel.Gen(t, o), Style: smodel.GenStyle(t), Opt: genOptions(t), Seed: int64(prop.Int(t, 1000))}
}

// declarations lists the top-level declarations of a file in order of their text.
func declarations(src []byte) ([]string, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "out.go", src, 0)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		var b bytes.Buffer
		if err := printer.Fprint(&b, fs, d); err != nil {
			return nil, err
		}
		out = append(out, b.String())
	}
	sort.Strings(out)
	return out, nil
}

func shuffled(set *smodel.Set, rnd *rand.Rand) *smodel.Set {
	out := set.Clone()
	for i := range out.Schemas {
		s := &out.Schemas[i]
		rnd.Shuffle(len(s.Types), func(i, j int) { s.Types[i], s.Types[j] = s.Types[j], s.Types[i] })
		rnd.Shuffle(len(s.Elems), func(i, j int) { s.Elems[i], s.Elems[j] = s.Elems[j], s.Elems[i] })
		rnd.Shuffle(len(s.Attrs), func(i, j int) { s.Attrs[i], s.Attrs[j] = s.Attrs[j], s.Attrs[i] })
		rnd.Shuffle(len(s.Groups), func(i, j int) { s.Groups[i], s.Groups[j] = s.Groups[j], s.Groups[i] })
		rnd.Shuffle(len(s.AttrGroups), func(i, j int) { s.AttrGroups[i], s.AttrGroups[j] = s.AttrGroups[j], s.AttrGroups[i] })
	}
	rnd.Shuffle(len(out.Schemas), func(i, j int) { out.Schemas[i], out.Schemas[j] = out.Schemas[j], out.Schemas[i] })
	return out
}

// reordered applies options in another order, replacements among themselves
// and what overrides the defaults excepted.
func (o Options) reordered(rnd *rand.Rand) *xsdgen.Config {
	cfg := new(xsdgen.Config)
	if o.Defaults {
		cfg.Option(xsdgen.DefaultOptions...)
	}
	d := o
	d.Defaults, d.Replace = false, nil
	rest := d.list()
	rnd.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	at := 0
	for _, r := range o.Replace {
		at += rnd.Intn(len(rest) - at + 1)
		rest = append(rest[:at:at], append([]xsdgen.Option{xsdgen.Replace(r[0], r[1])}, rest[at:]...)...)
		at++
	}
	cfg.Option(rest...)
	return cfg
}

func checkOrder(c orderCase, r *prop.Rec) error {
	labelSet(c.Set, r)
	docs := smodel.Render(c.Set, c.Style).Docs
	_, a, err := source(c.Opt.config(), docs)
	rnd := rand.New(rand.NewSource(c.Seed))
	docs2 := smodel.Render(shuffled(c.Set, rnd), c.Style).Docs
	rnd.Shuffle(len(docs2), func(i, j int) { docs2[i], docs2[j] = docs2[j], docs2[i] })
	_, b, err2 := source(c.Opt.reordered(rnd), docs2)
	if (err == nil) != (err2 == nil) {
		return fmt.Errorf("error is %v, in another order %v\n%s%s", err, err2, show(docs), show(docs2))
	}
	if err != nil {
		r.Label("generation fails")
		return nil
	}
	x, err := declarations(a)
	if err != nil {
		return err
	}
	y, err := declarations(b)
	if err != nil {
		return err
	}
	r.Nontrivial(len(x) > 2)
	if s, t := strings.Join(x, "\n"), strings.Join(y, "\n"); s != t {
		return fmt.Errorf("declarations depend on the order: %s\n%s--- and\n%s", firstDiff(s, t), show(docs), show(docs2))
	}
	return nil
}

func init() {
	prop.Register("C20", "repeat", "more than one type was generated", detGen, checkRepeat, prop.Counts(800, 25000))
	prop.Register("C20", "process", "more than one type was generated", detGen, checkProcess, prop.Counts(160, 2000))
	prop.Register("C20", "order", "more than two declarations were generated", genOrder, checkOrder, prop.Counts(2000, 40000))
}
