package genc

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsdgen"
	"pgregory.net/rapid"
)

// clientFiles is a service description in files, and a command line.
type clientFiles struct {
	Client clientCase
	Split  bool // the schemas are in files of their own
	Rules  []int
	Out    int
	Verb   int
	Old    bool
	AbsArg bool
	Flags  int
	Fault  string
	Where  int
}

func genClientFiles(t *rapid.T) clientFiles {
	o := clientOpts()
	o.Types.Anon = false
	c := clientFiles{
		Split: prop.Chance(t, 8), Out: prop.Int(t, len(outFiles)), Verb: prop.Int(t, 4),
		Old: prop.Chance(t, 5), AbsArg: prop.Chance(t, 4), Flags: prop.Int(t, 100),
	}
	c.Client = clientCase{Service: smodel.GenClient(t, o), In: 3, Out: 2}
	c.Client.Opt = Options{Defaults: true, Pkg: prop.Pick(t, "", "", "foo", "main")}
	for k := prop.Int(t, 3); k > 0; k-- {
		c.Rules = append(c.Rules, prop.Int(t, len(fileRules)))
	}
	for _, r := range c.Rules {
		c.Client.Opt.Replace = append(c.Client.Opt.Replace, fileRules[r])
	}
	if prop.Chance(t, 4) {
		for _, s := range c.Client.Service.Services {
			for _, p := range s.Ports {
				if prop.Chance(t, 6) {
					c.Client.Ports = append(c.Client.Ports, p.Name)
				}
			}
		}
	}
	c.Client.Comment = prop.Pick(t, "", "", "Package x calls.", "Does.")
	return c
}

func genClientFaults(t *rapid.T) clientFiles {
	c := genClientFiles(t)
	c.Fault = prop.Pick(t, "missing argument", "directory argument", "dangling link", "malformed argument", "bad rule", "rule without arrow",
		"output directory missing", "output is a directory", "disk full", "no file", "bad flag", "device full")
	c.Where = prop.Int(t, 100)
	return c
}

func (c clientFiles) layout(dir string) *layout {
	l := &layout{dir: dir}
	s := c.Client.Service
	if c.Split {
		types := s.Types
		s.Types = new(smodel.Set)
		l.docs = append(l.docs, s.Render())
		l.docs = append(l.docs, smodel.Render(types, s.Style).Docs...)
	} else {
		l.docs = [][]byte{s.Render()}
	}
	var flags [][]string
	for _, p := range c.Client.Ports {
		flags = append(flags, []string{"-port", p})
	}
	if p := c.Client.Opt.Pkg; p != "" {
		flags = append(flags, []string{"-pkg", p})
	}
	if c.Client.Comment != "" {
		flags = append(flags, []string{"-c", c.Client.Comment})
	}
	if c.Verb > 1 {
		flags = append(flags, []string{[]string{"-v", "-vv"}[c.Verb-2]})
	}
	l.out = outFiles[c.Out%len(outFiles)]
	if strings.HasPrefix(l.out, "ABS/") {
		l.out = filepath.Join(dir, l.out[4:])
	}
	if l.out != "" {
		flags = append(flags, []string{"-o", l.out})
	} else {
		l.out = "wsdlgen_output.go"
	}
	if len(flags) > 0 {
		k := c.Flags % len(flags)
		flags = append(flags[k:len(flags):len(flags)], flags[:k]...)
	}
	for _, f := range flags {
		l.args = append(l.args, f...)
	}
	for i, r := range c.Rules {
		rep := fileRules[r%len(fileRules)]
		l.args = append(l.args, "-r", rep[0]+[]string{" -> ", "->", "  ->"}[(r+i)%3]+rep[1])
	}
	for i := range l.docs {
		name := fmt.Sprintf("s%d.xsd", i)
		if i == 0 {
			name = "service.wsdl"
		} else if i%2 == 1 {
			name = "sub/" + name
		}
		l.names = append(l.names, name)
		l.roots = append(l.roots, i)
		l.read = append(l.read, i)
		if c.AbsArg {
			name = filepath.Join(dir, name)
		}
		l.args = append(l.args, name)
	}
	return l
}

// config is what the command line asks for.
func (c clientFiles) config() *wsdlgen.Config {
	cfg := new(wsdlgen.Config)
	cfg.Option(wsdlgen.DefaultOptions...)
	cfg.XSDOption(xsdgen.DefaultOptions...)
	if p := c.Client.Opt.Pkg; p != "" {
		cfg.Option(wsdlgen.PackageName(p))
		cfg.XSDOption(xsdgen.PackageName(p))
	}
	if c.Client.Comment != "" {
		cfg.Option(wsdlgen.PackageComment(c.Client.Comment))
	}
	if len(c.Client.Ports) > 0 {
		cfg.Option(wsdlgen.OnlyPorts(c.Client.Ports...))
	}
	for _, r := range c.Rules {
		rep := fileRules[r%len(fileRules)]
		cfg.XSDOption(xsdgen.Replace(rep[0], rep[1]))
	}
	return cfg
}

func checkClientFiles(c clientFiles, r *prop.Rec) error {
	dir, err := scratch()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	l := c.layout(dir)
	if err := l.write(); err != nil {
		return err
	}
	must := func(err error) {
		if err != nil {
			panic(prop.Infra("%v", err))
		}
	}
	out := l.out
	if !filepath.IsAbs(out) {
		out = filepath.Join(dir, out)
	}
	if c.Old {
		must(os.WriteFile(out, []byte(strings.Repeat(oldOutput, 400)), 0o666))
	}
	var paths []string
	for _, n := range l.names {
		paths = append(paths, filepath.Join(dir, n))
	}
	want, wantErr := c.config().GenSource(paths...)
	limit := false
	victim := filepath.Join(dir, l.names[c.Where%len(l.names)])
	switch c.Fault {
	case "missing argument":
		must(os.Remove(victim))
	case "directory argument":
		must(os.Remove(victim))
		must(os.Mkdir(victim, 0o777))
	case "dangling link":
		must(os.Remove(victim))
		must(os.Symlink(filepath.Join(dir, "nowhere"), victim))
	case "malformed argument":
		b := bytes.TrimRight(l.docs[c.Where%len(l.docs)], " \n")
		k := bytes.LastIndexByte(b, '<')
		if bytes.HasSuffix(b, []byte("/>")) {
			k = len(b) - 2
		}
		must(os.WriteFile(victim, b[:k], 0o666))
	case "bad rule":
		l.args = append([]string{"-r", []string{"( -> x", "a[ -> b", "*->y"}[c.Where%3]}, l.args...)
	case "rule without arrow":
		l.args = append([]string{"-r", []string{"foo", "a = b", ""}[c.Where%3]}, l.args...)
	case "output directory missing":
		l.args = withOut(l.args, "nodir/out.go")
	case "output is a directory":
		l.args = withOut(l.args, "sub")
	case "device full":
		l.args = withOut(l.args, "/dev/full")
	case "disk full":
		limit = true
		if len(want) <= 1024 {
			return nil
		}
		if c.Old {
			must(os.WriteFile(out, []byte(strings.Repeat(oldOutput, 3)), 0o666))
		}
	case "no file":
		l.args = l.args[:len(l.args)-len(l.names)]
	case "bad flag":
		l.args = append([]string{"-nosuchflag"}, l.args...)
	}
	before, err := snapshot(dir)
	must(err)
	res, err := runIn(dir, "wsdlgen", l.args, limit)
	if err != nil {
		return err
	}
	after, err := snapshot(dir)
	must(err)
	rel, _ := filepath.Rel(dir, out)
	r.LabelIf(c.Split, "schemas in other files")
	if c.Fault != "" {
		r.Label(c.Fault)
		r.Nontrivial(wantErr == nil)
		if limit && after[rel] == "" {
			delete(before, rel) // the old one may have been given up
		}
		return refused(l, res, before, after, "", "there is a fault: "+c.Fault)
	}
	if wantErr != nil {
		r.Label("the library refuses")
		return refused(l, res, before, after, rel, fmt.Sprintf("the library says %v", cut(wantErr.Error())))
	}
	r.Nontrivial(c.Client.Ports != nil || c.Rules != nil || c.Client.Opt.Pkg != "" || c.Client.Comment != "" || len(l.docs) > 1)
	if res.status != 0 {
		return fmt.Errorf("exit status %d: %s\n%s", res.status, cut(res.stderr), l.show())
	}
	if ch := changed(before, after, rel); ch != nil {
		return fmt.Errorf("changed other files: %q\n%s", ch, l.show())
	}
	got, ok := after[rel]
	if !ok {
		return fmt.Errorf("no output file %s\n%s", rel, l.show())
	}
	got = strings.TrimPrefix(got, "file ")
	if x, y := string(header.ReplaceAll(want, nil)), header.ReplaceAllString(got, ""); x != y {
		return fmt.Errorf("output is not what the library generates: %s\n%s", firstDiff(x, y), l.show())
	}
	pkg := c.Client.Opt.Pkg
	if pkg == "" {
		pkg = "ws"
	}
	if !strings.Contains("\n"+got, "\npackage "+pkg+"\n") {
		return fmt.Errorf("output is not in package %s\n%s", pkg, l.show())
	}
	comment := c.Client.Comment
	if comment == "" {
		comment = "Package " + pkg
	}
	if !strings.Contains("\n"+got, "\n// "+comment+"\n") {
		return fmt.Errorf("the package comment does not begin with %q\n%s%s", comment, l.show(), cut(got))
	}
	if !c.Split {
		return nil
	}
	// The same description in one file declares the same.
	whole := c
	whole.Split = false
	one := filepath.Join(dir, "whole.wsdl")
	must(os.WriteFile(one, whole.layout(dir).docs[0], 0o666))
	src, err := c.config().GenSource(one)
	if err != nil {
		return fmt.Errorf("in one file: %v\n%s", err, l.show())
	}
	x, err := declarations(src)
	if err != nil {
		return err
	}
	y, err := declarations([]byte(got))
	if err != nil {
		return fmt.Errorf("output: %v\n%s", err, l.show())
	}
	if s, t := strings.Join(x, "\n"), strings.Join(y, "\n"); s != t {
		return fmt.Errorf("declarations are not those of the description in one file: %s\n%s", firstDiff(s, t), l.show())
	}
	return nil
}

func init() {
	prop.Register("C23", "client files", "there are flags or several files", genClientFiles, checkClientFiles, prop.Counts(800, 12000), prop.Cleanup(dropCommands))
	prop.Register("C23", "client faults", "the fault is all that is wrong", genClientFaults, checkClientFiles, prop.Counts(500, 6000), prop.Cleanup(dropCommands))
}
