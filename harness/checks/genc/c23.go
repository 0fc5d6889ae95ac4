package genc

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"pgregory.net/rapid"
)

var (
	cmdOnce sync.Once
	cmdDir  string
	cmdErr  error
)

// command gives the path of one of the repository's commands, built from its
// working tree.
func command(name string) (string, error) {
	if dir := os.Getenv("VERIF_BIN"); dir != "" {
		return filepath.Join(dir, name), nil
	}
	cmdOnce.Do(func() {
		cmdDir, cmdErr = os.MkdirTemp("", "verif-cmd-")
		if cmdErr != nil {
			return
		}
		c := exec.Command("go", "build", "-o", cmdDir+"/", "aqwari.net/xml/cmd/xsdgen", "aqwari.net/xml/cmd/wsdlgen")
		c.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "harness")
		if out, err := c.CombinedOutput(); err != nil {
			cmdErr = prop.Infra("go build: %v\n%s", err, out)
		}
	})
	return filepath.Join(cmdDir, name), cmdErr
}

func dropCommands() {
	if cmdDir != "" {
		os.RemoveAll(cmdDir)
	}
}

// run is one invocation of a command.
type run struct {
	status int
	stderr string
}

func runIn(dir, name string, args []string, limit bool) (run, error) {
	exe, err := command(name)
	if err != nil {
		return run{}, err
	}
	cmd := exec.Command(exe, args...)
	if limit {
		cmd = exec.Command("bash", append([]string{"-c", `ulimit -f 1; exec "$@"`, "bash", exe}, args...)...)
	}
	cmd.Dir = dir
	var errs bytes.Buffer
	cmd.Stderr = &errs
	cmd.Stdout = &errs
	if err := cmd.Start(); err != nil {
		return run{}, prop.Infra("%v", err)
	}
	timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	err = cmd.Wait()
	var e *exec.ExitError
	if err != nil && !errors.As(err, &e) {
		return run{}, prop.Infra("%v", err)
	}
	return run{cmd.ProcessState.ExitCode(), errs.String()}, nil
}

// filesCase is a schema in files that import each other, and a command line.
type filesCase struct {
	Set    *smodel.Set
	Style  smodel.Style
	Dirs   []int    // of the documents, modulo
	Links  [][3]int // from, to, and where
	Chain  bool     // every document imports the next
	Abs    int      // bit i: link i is given as an absolute path
	Roots  []int    // documents on the command line; nil: all
	Follow bool
	NS     []int // namespaces named with -ns
	NoNS   bool  // name a namespace that does not exist
	Pkg    string
	Rules  []int
	Out    int
	Verb   int
	Old    bool // there is an output file already
	AbsArg bool
	Dots   bool // name files in roundabout ways
	Flags  int  // order of the flags
	Fault  string
	Where  int
}

var (
	fileDirs = []string{"", "sub", "sub/deep", "other dir"}
	outFiles = []string{"", "out.go", "sub/out.go", "./x.out", "ABS/abs.go"}
)

func genFiles(t *rapid.T) filesCase {
	o := GenOpts()
	o.Anon = false
	c := filesCase{
		Set: smodel.Gen(t, o), Style: smodel.GenStyle(t),
		Follow: prop.Chance(t, 8), Chain: prop.Chance(t, 10),
		Abs: prop.Int(t, 2) * prop.Int(t, 256),
		Pkg: prop.Pick(t, "", "", "foo", "main"), Out: prop.Int(t, len(outFiles)), Verb: prop.Int(t, 4),
		Old: prop.Chance(t, 5), AbsArg: prop.Chance(t, 4), Dots: prop.Chance(t, 4), Flags: prop.Int(t, 100),
	}
	c.Style.Split = c.Style.Split || prop.Chance(t, 8)
	for i := 0; i < 6; i++ {
		c.Dirs = append(c.Dirs, prop.Int(t, len(fileDirs)))
	}
	for k := prop.Int(t, 6); k > 0; k-- {
		c.Links = append(c.Links, [3]int{prop.Int(t, 8), prop.Int(t, 8), prop.Int(t, 8)})
	}
	if c.Follow {
		c.Roots = []int{prop.Int(t, 3) * prop.Int(t, 6)}
		for prop.Chance(t, 4) {
			c.Roots = append(c.Roots, prop.Int(t, 8))
		}
	} else if prop.Chance(t, 2) {
		c.Roots = []int{prop.Int(t, 8), prop.Int(t, 8)}
	}
	if prop.Chance(t, 4) {
		for k := prop.Range(t, 1, 2); k > 0; k-- {
			c.NS = append(c.NS, prop.Int(t, 4))
		}
	}
	for k := prop.Int(t, 3); k > 0; k-- {
		c.Rules = append(c.Rules, prop.Int(t, len(fileRules)))
	}
	return c
}

type layout struct {
	dir   string
	docs  [][]byte
	names []string // relative paths
	edges [][]int
	read  []int // documents that must be read, roots first
	roots []int
	args  []string
	out   string // relative to dir, or absolute
}

func (c filesCase) layout(dir string) *layout {
	l := &layout{dir: dir}
	pos := func(i int) string {
		d := 0
		if len(c.Dirs) > 0 {
			d = c.Dirs[i%len(c.Dirs)]
		}
		// Some have the same name in different directories.
		return filepath.Join(fileDirs[d], fmt.Sprintf("s%d.xsd", i/len(fileDirs)*len(fileDirs)+(i-d+8*len(fileDirs))%len(fileDirs)))
	}
	x := smodel.RenderLinked(c.Set, c.Style, func(n int) []smodel.Link {
		l.edges = make([][]int, n)
		var names = map[string]bool{}
		for i := 0; i < n; i++ {
			name := pos(i)
			for names[name] {
				name = strings.TrimSuffix(name, ".xsd") + "x.xsd"
			}
			names[name] = true
			l.names = append(l.names, name)
		}
		var out []smodel.Link
		link := func(from, to, at int, abs bool) {
			l.edges[from] = append(l.edges[from], to)
			loc, err := filepath.Rel(filepath.Dir(l.names[from]), l.names[to])
			if err != nil {
				panic(err)
			}
			if abs {
				loc = filepath.Join(dir, l.names[to])
			}
			out = append(out, smodel.Link{From: from, To: to, Loc: loc, At: at})
		}
		for i, e := range c.Links {
			link(e[0]%n, e[1]%n, e[2], c.Abs>>i&1 == 1)
		}
		if c.Chain {
			for i := 0; i < n; i++ {
				link(i, (i+1)%n, i, c.Abs>>(i+4)&1 == 1)
			}
		}
		return out
	})
	l.docs = x.Docs
	n := len(l.docs)
	have := map[int]bool{}
	for _, r := range c.Roots {
		if r %= n; !have[r] {
			have[r] = true
			l.roots = append(l.roots, r)
		}
	}
	if c.Roots == nil {
		for i := range l.docs {
			l.roots = append(l.roots, i)
		}
	}
	seen := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		l.read = append(l.read, i)
		if c.Follow {
			for _, k := range l.edges[i] {
				visit(k)
			}
		}
	}
	for _, r := range l.roots {
		visit(r)
	}
	var flags [][]string
	if c.Follow {
		flags = append(flags, []string{"-f"})
	}
	for _, k := range c.NS {
		flags = append(flags, []string{"-ns", c.Set.Schemas[k%len(c.Set.Schemas)].NS})
	}
	if c.NoNS {
		flags = append(flags, []string{"-ns", "urn:none"})
	}
	if c.Pkg != "" {
		flags = append(flags, []string{"-pkg", c.Pkg})
	}
	if c.Verb > 1 {
		flags = append(flags, []string{[]string{"-v", "-vv"}[c.Verb-2]})
	}
	l.out = outFiles[c.Out%len(outFiles)]
	if strings.HasPrefix(l.out, "ABS/") {
		l.out = filepath.Join(dir, l.out[4:])
	}
	if l.out != "" {
		flags = append(flags, []string{"-o", l.out})
	} else {
		l.out = "xsdgen_output.go"
	}
	if len(flags) > 0 {
		k := c.Flags % len(flags)
		flags = append(flags[k:len(flags):len(flags)], flags[:k]...)
	}
	for _, f := range flags {
		l.args = append(l.args, f...)
	}
	for i, r := range c.Rules {
		rep := fileRules[r%len(fileRules)]
		rule := rep[0] + []string{" -> ", "->", "  ->"}[(r+i)%3] + rep[1]
		l.args = append(l.args, "-r", rule)
	}
	for _, r := range l.roots {
		name := l.names[r]
		switch {
		case c.AbsArg:
			name = filepath.Join(dir, name)
		case c.Dots:
			name = "./sub/../" + name
		}
		l.args = append(l.args, name)
	}
	return l
}

// fileRules are the rules of command lines: what replaces may have arrows too.
var fileRules = append(replacements[:len(replacements):len(replacements)],
	[2]string{"a", "a->b"}, [2]string{"^b", "->x"}, [2]string{"o$", "o -> y->z"}, [2]string{`(\w)e`, "${1}->"})

func (c filesCase) options() Options {
	o := Options{Defaults: true, Pkg: c.Pkg}
	for _, k := range c.NS {
		o.NS = append(o.NS, c.Set.Schemas[k%len(c.Set.Schemas)].NS)
	}
	if c.NoNS {
		o.NS = append(o.NS, "urn:none")
	}
	for _, r := range c.Rules {
		o.Replace = append(o.Replace, fileRules[r%len(fileRules)])
	}
	return o
}

func (l *layout) write() error {
	for _, d := range fileDirs {
		if err := os.MkdirAll(filepath.Join(l.dir, d), 0o777); err != nil {
			return prop.Infra("%v", err)
		}
	}
	for i, d := range l.docs {
		if err := os.WriteFile(filepath.Join(l.dir, l.names[i]), d, 0o666); err != nil {
			return prop.Infra("%v", err)
		}
	}
	return nil
}

func (l *layout) show() string {
	var b strings.Builder
	fmt.Fprintf(&b, "arguments %q, files read should be %v\n", l.args, l.read)
	for i, d := range l.docs {
		fmt.Fprintf(&b, "--- %s\n%s\n", l.names[i], d)
	}
	return b.String()
}

// snapshot lists the files below a directory with their content.
func snapshot(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if i.IsDir() {
			out[rel] = "directory"
			return nil
		}
		if !i.Mode().IsRegular() {
			out[rel] = i.Mode().String()
			return nil
		}
		b, err := os.ReadFile(p)
		out[rel] = "file " + string(b)
		return err
	})
	return out, err
}

// changed lists what differs apart from the given file.
func changed(a, b map[string]string, except string) []string {
	var out []string
	for n, s := range a {
		if n != except && b[n] != s {
			out = append(out, n)
		}
	}
	for n := range b {
		if _, ok := a[n]; !ok && n != except {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// header names the program that generated a file.
var header = regexp.MustCompile(`(?m)\A// Code generated by .*\n\n?`)

const oldOutput = "// Left over from before.\npackage old\n"

func scratch() (string, error) {
	dir, err := os.MkdirTemp("", "verif-c23-")
	if err != nil {
		return "", prop.Infra("%v", err)
	}
	real, err := filepath.EvalSymlinks(dir)
	if err != nil {
		return "", prop.Infra("%v", err)
	}
	return real, nil
}

func checkFiles(c filesCase, r *prop.Rec) error {
	dir, err := scratch()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	l := c.layout(dir)
	if err := l.write(); err != nil {
		return err
	}
	out := l.out
	if !filepath.IsAbs(out) {
		out = filepath.Join(dir, out)
	}
	if c.Old {
		if err := os.WriteFile(out, []byte(strings.Repeat(oldOutput, 400)), 0o666); err != nil {
			return prop.Infra("%v", err)
		}
	}
	var docs [][]byte
	for _, i := range l.read {
		docs = append(docs, l.docs[i])
	}
	_, want, wantErr := source(c.options().config(), docs)
	before, err := snapshot(dir)
	if err != nil {
		return prop.Infra("%v", err)
	}
	res, err := runIn(dir, "xsdgen", l.args, false)
	if err != nil {
		return err
	}
	after, err := snapshot(dir)
	if err != nil {
		return prop.Infra("%v", err)
	}
	rel, _ := filepath.Rel(dir, out)
	r.Labelf("%d documents", len(l.docs))
	r.LabelIf(c.Follow, "imports followed")
	r.LabelIf(len(l.read) < len(l.docs), "some documents not read")
	if wantErr != nil {
		r.Label("the library refuses")
		return refused(l, res, before, after, rel, fmt.Sprintf("the library says %v", cut(wantErr.Error())))
	}
	r.Nontrivial(len(l.read) > 1)
	if res.status != 0 {
		return fmt.Errorf("exit status %d: %s\n%s", res.status, cut(res.stderr), l.show())
	}
	if ch := changed(before, after, rel); ch != nil {
		return fmt.Errorf("changed other files: %q\n%s", ch, l.show())
	}
	got, ok := after[rel]
	if !ok {
		return fmt.Errorf("no output file %s\n%s", rel, l.show())
	}
	got = header.ReplaceAllString(strings.TrimPrefix(got, "file "), "")
	want = header.ReplaceAll(want, nil)
	if !c.Follow {
		if got != string(want) {
			return fmt.Errorf("output is not what the library generates: %s\n%s", firstDiff(string(want), got), l.show())
		}
		return nil
	}
	x, err := declarations(want)
	if err != nil {
		return err
	}
	y, err := declarations([]byte(got))
	if err != nil {
		return fmt.Errorf("output: %v\n%s", err, l.show())
	}
	pkg := c.Pkg
	if pkg == "" {
		pkg = "ws"
	}
	if !strings.HasPrefix(got, "// ") && !strings.HasPrefix(got, "package ") || !strings.Contains("\n"+got, "\npackage "+pkg+"\n") {
		return fmt.Errorf("output is not in package %s\n%s", pkg, l.show())
	}
	if s, t := strings.Join(x, "\n"), strings.Join(y, "\n"); s != t {
		return fmt.Errorf("declarations are not what the library generates: %s\n%s", firstDiff(s, t), l.show())
	}
	return formatted([]byte(got))
}

// refused judges a run that had to fail.
func refused(l *layout, res run, before, after map[string]string, out, why string) error {
	if res.status == 0 {
		return fmt.Errorf("no error, but %s\n%s", why, l.show())
	}
	if res.status < 0 {
		return fmt.Errorf("killed (%s) where %s\n%s", cut(res.stderr), why, l.show())
	}
	if strings.TrimSpace(res.stderr) == "" {
		return fmt.Errorf("nothing reported, but %s\n%s", why, l.show())
	}
	if strings.Contains(res.stderr, "goroutine ") || strings.Contains(res.stderr, "panic:") {
		return fmt.Errorf("crashed where %s: %s\n%s", why, cut(res.stderr), l.show())
	}
	if ch := changed(before, after, ""); ch != nil {
		return fmt.Errorf("left changed %q, but %s\n%s", ch, why, l.show())
	}
	return nil
}

// faults are what can go wrong with a command line.
var faults = []string{
	"missing argument", "directory argument", "unreadable argument", "malformed argument", "missing import", "directory import", "malformed import", "dangling link",
	"bad rule", "rule without arrow", "output directory missing", "output is a directory", "disk full", "no file", "bad flag", "missing namespace", "device full",
}

func genFaults(t *rapid.T) filesCase {
	c := genFiles(t)
	c.Fault = faults[prop.Int(t, len(faults))]
	c.Where = prop.Int(t, 100)
	if strings.Contains(c.Fault, "import") {
		c.Follow, c.Chain = true, true
		c.Style.Split, c.Style.Wrap = true, false
		c.Roots = c.Roots[:min(1, len(c.Roots))]
		if c.Roots == nil {
			c.Roots = []int{0}
		}
	}
	if c.Fault == "missing namespace" {
		c.NoNS = true
	}
	return c
}

func checkFaults(c filesCase, r *prop.Rec) error {
	dir, err := scratch()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	l := c.layout(dir)
	if err := l.write(); err != nil {
		return err
	}
	must := func(err error) {
		if err != nil {
			panic(prop.Infra("%v", err))
		}
	}
	args := l.args
	out := l.out
	if !filepath.IsAbs(out) {
		out = filepath.Join(dir, out)
	}
	if c.Old {
		must(os.WriteFile(out, []byte(oldOutput), 0o666))
	}
	victim := func(imported bool) string {
		set := l.roots
		if imported {
			set = nil
			for _, i := range l.read {
				if !contains(l.roots, i) {
					set = append(set, i)
				}
			}
			if set == nil {
				return ""
			}
		}
		return filepath.Join(dir, l.names[set[c.Where%len(set)]])
	}
	limit := false
	switch c.Fault {
	case "missing argument", "missing import":
		p := victim(strings.Contains(c.Fault, "import"))
		if p == "" {
			return nil
		}
		must(os.Remove(p))
	case "directory argument", "directory import":
		p := victim(strings.Contains(c.Fault, "import"))
		if p == "" {
			return nil
		}
		must(os.Remove(p))
		must(os.Mkdir(p, 0o777))
	case "dangling link", "unreadable argument":
		p := victim(false)
		must(os.Remove(p))
		must(os.Symlink(filepath.Join(dir, "nowhere"), p))
	case "malformed argument", "malformed import":
		p := victim(strings.Contains(c.Fault, "import"))
		if p == "" {
			return nil
		}
		b, err := os.ReadFile(p)
		must(err)
		b = bytes.TrimRight(b, " \n")
		k := bytes.LastIndexByte(b, '<')
		if bytes.HasSuffix(b, []byte("/>")) {
			k = len(b) - 2
		}
		must(os.WriteFile(p, b[:k], 0o666))
	case "bad rule":
		args = append([]string{"-r", []string{"( -> x", "a[ -> b", "*->y"}[c.Where%3]}, args...)
	case "rule without arrow":
		args = append([]string{"-r", []string{"foo", "a = b", ""}[c.Where%3]}, args...)
	case "output directory missing":
		args = withOut(args, "nodir/out.go")
	case "output is a directory":
		args = withOut(args, "sub")
	case "device full":
		args = withOut(args, "/dev/full")
	case "disk full":
		limit = true
		if c.Old {
			must(os.WriteFile(out, []byte(strings.Repeat(oldOutput, 3)), 0o666))
		}
	case "no file":
		args = args[:len(args)-len(l.roots)]
	case "bad flag":
		args = append([]string{"-nosuchflag"}, args...)
	}
	var docs [][]byte
	for _, i := range l.read {
		docs = append(docs, l.docs[i])
	}
	_, src, err := source(c.options().config(), docs)
	if limit && err == nil && len(src) <= 1024 {
		return nil
	}
	r.Label(c.Fault)
	r.Nontrivial(err == nil || c.Fault == "missing namespace") // the fault is all that is wrong
	l.args = args
	before, err := snapshot(dir)
	must(err)
	res, err := runIn(dir, "xsdgen", args, limit)
	if err != nil {
		return err
	}
	after, err := snapshot(dir)
	must(err)
	if rel, _ := filepath.Rel(dir, out); limit && after[rel] == "" {
		delete(before, rel) // the old one may have been given up
	}
	return refused(l, res, before, after, "", "there is a fault: "+c.Fault)
}

// withOut sets the output file.
func withOut(args []string, out string) []string {
	var res []string
	for i := 0; i < len(args); i++ {
		if args[i] == "-o" {
			i++
			continue
		}
		res = append(res, args[i])
	}
	return append([]string{"-o", out}, res...)
}

func contains(xs []int, x int) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func init() {
	prop.Register("C23", "files", "more than one document is read", genFiles, checkFiles, prop.Counts(1200, 20000), prop.Cleanup(dropCommands))
	prop.Register("C23", "faults", "the fault is all that is wrong", genFaults, checkFaults, prop.Counts(800, 10000), prop.Cleanup(dropCommands))
}
