package xsdc

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
	"pgregory.net/rapid"
)

var (
	cmdOnce sync.Once
	cmdDir  string
	cmdErr  error
)

// printer gives the path of the xsdparse command, built from the repository's
// working tree.
func printer() (string, error) {
	if dir := os.Getenv("VERIF_BIN"); dir != "" {
		return filepath.Join(dir, "xsdparse"), nil
	}
	cmdOnce.Do(func() {
		cmdDir, cmdErr = os.MkdirTemp("", "verif-cmd-")
		if cmdErr != nil {
			return
		}
		c := exec.Command("go", "build", "-o", cmdDir+"/", "aqwari.net/xml/cmd/xsdparse")
		c.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "harness")
		if out, err := c.CombinedOutput(); err != nil {
			cmdErr = prop.Infra("go build: %v\n%s", err, out)
		}
	})
	return filepath.Join(cmdDir, "xsdparse"), cmdErr
}

func dropPrinter() {
	if cmdDir != "" {
		os.RemoveAll(cmdDir)
	}
}

// printCase is a set of schema documents to be printed.
type printCase struct {
	schemaCase
	NS    string // the kind of namespace asked for
	Which int
	Fault string
	Where int
	Dirs  []int
}

func genPrint(t *rapid.T) printCase {
	c := printCase{schemaCase: genSchema(t)}
	c.NS = prop.Pick(t, "", "", "own", "standard", "unknown", "twice")
	c.Which = prop.Int(t, 8)
	if prop.Chance(t, 3) {
		c.Fault = prop.Pick(t, "missing", "directory", "malformed", "dangling", "no arguments", "unknown flag")
		c.Where = prop.Int(t, 8)
	}
	for k := prop.Range(t, 1, 4); k > 0; k-- {
		c.Dirs = append(c.Dirs, prop.Int(t, 3))
	}
	return c
}

// split gives the XML documents that follow each other in data.
func split(data []byte) ([][]byte, error) {
	var out [][]byte
	d := xml.NewDecoder(bytes.NewReader(data))
	depth, start := 0, int64(0)
	for {
		at := d.InputOffset()
		tok, err := d.Token()
		if err == io.EOF && depth == 0 {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			if depth == 0 {
				start = at
			}
			depth++
		case xml.EndElement:
			depth--
			if depth == 0 {
				out = append(out, data[start:d.InputOffset()])
			}
		case xml.CharData:
			if depth == 0 && len(bytes.TrimSpace(tok)) > 0 {
				return nil, fmt.Errorf("text %q between the documents", tok)
			}
		}
	}
}

func checkPrint(c printCase, r *prop.Rec) error {
	exe, err := printer()
	if err != nil {
		return err
	}
	x := smodel.Render(c.Set, c.Style)
	dir, err := os.MkdirTemp("", "verif-print-")
	if err != nil {
		return prop.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	docs := clone(x.Docs)
	fault := c.Fault
	at := c.Where % len(docs)
	if fault == "dangling" {
		i := bytes.LastIndex(docs[at], []byte("</"))
		if p := bytes.LastIndex(docs[at], []byte("schema>")); p > 0 {
			i = bytes.LastIndex(docs[at][:p], []byte("<"))
		}
		if i < 0 {
			fault = ""
		} else {
			extra := `<q:element xmlns:q="` + smodel.XSD + `" name="dangling-one" xmlns:u="urn:undeclared" type="u:missing"/>`
			docs[at] = append(append(append([]byte(nil), docs[at][:i]...), extra...), docs[at][i:]...)
			if _, err := xsd.Normalize(clone(docs)...); err == nil {
				// Normalising does not look at the types of elements
				fault = ""
				docs = clone(x.Docs)
			}
		}
	}
	if fault == "malformed" {
		docs[at] = docs[at][:bytes.LastIndexByte(docs[at], '<')]
	}
	var args, names []string
	for i := range docs {
		d := []string{"", "sub", "other dir"}[c.Dirs[i%len(c.Dirs)]%3]
		if err := os.MkdirAll(filepath.Join(dir, d), 0777); err != nil {
			return prop.Infra("%v", err)
		}
		name := filepath.Join(d, fmt.Sprintf("s%d.xsd", i))
		names = append(names, name)
		if fault == "missing" && i == at {
			continue
		}
		if fault == "directory" && i == at {
			err = os.Mkdir(filepath.Join(dir, name), 0777)
		} else {
			err = os.WriteFile(filepath.Join(dir, name), docs[i], 0666)
		}
		if err != nil {
			return prop.Infra("%v", err)
		}
	}
	standard := map[string]bool{}
	var standards []string
	for _, doc := range xsd.StandardSchema {
		root, err := xmltree.Parse(doc)
		if err != nil {
			return prop.Infra("%v", err)
		}
		ns := root.Attr("", "targetNamespace")
		standard[ns] = true
		standards = append(standards, ns)
	}
	ns := ""
	switch c.NS {
	case "own", "twice":
		ns = x.Parts[c.Which%len(x.Parts)].NS
	case "standard":
		ns = standards[c.Which%len(standards)]
	case "unknown":
		ns = "urn:of/nobody"
	}
	if ns != "" {
		switch {
		case c.NS == "twice": // the last one counts
			args = append(args, "-ns", "urn:other", "-ns", ns)
		case c.Which%2 == 0:
			args = append(args, "-ns", ns)
		default:
			args = append(args, "-ns="+ns)
		}
	}
	if fault == "unknown flag" {
		args = append(args, "-x")
	}
	if fault != "no arguments" {
		args = append(args, names...)
	}
	var stdout, stderr bytes.Buffer
	cmd := exec.Command(exe, args...)
	cmd.Dir, cmd.Stdout, cmd.Stderr = dir, &stdout, &stderr
	if err := cmd.Start(); err != nil {
		return prop.Infra("%v", err)
	}
	timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	err = cmd.Wait()
	var e *exec.ExitError
	if err != nil && !errors.As(err, &e) {
		return prop.Infra("%v", err)
	}
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%s\n--- command line %q\n%s--- output\n%s--- errors\n%s", fmt.Sprintf(format, a...), args, show(docs), &stdout, &stderr)
	}
	if bytes.Contains(stderr.Bytes(), []byte("goroutine ")) {
		return fail("the command crashed")
	}
	r.LabelIf(fault != "", "fault: "+fault)
	r.LabelIf(fault == "" && ns != "", "-ns "+c.NS)
	if fault != "" {
		r.Nontrivial(true)
		if cmd.ProcessState.ExitCode() == 0 {
			return fail("it succeeds with a fault (%s)", fault)
		}
		if stdout.Len() > 0 {
			return fail("there is output with a fault (%s)", fault)
		}
		if stderr.Len() == 0 {
			return fail("there is no message for a fault (%s)", fault)
		}
		if (fault == "missing" || fault == "directory") && !strings.Contains(stderr.String(), names[at]) {
			return fail("the message does not say which file")
		}
		return nil
	}
	if n := cmd.ProcessState.ExitCode(); n != 0 {
		return fail("exit status %d", n)
	}
	trees, err := xsd.Normalize(clone(docs)...)
	if err != nil {
		return fail("Normalize: %v", err)
	}
	printed, err := split(stdout.Bytes())
	if err != nil {
		return fail("the output is not XML: %v", err)
	}
	var want []*xmltree.Element
	own := 0 // of the caller's schemas
	for i, t := range trees {
		tns := t.Attr("", "targetNamespace")
		if ns != "" && tns == ns || ns == "" && !standard[tns] {
			want = append(want, t)
			if i < len(x.Parts) {
				own++
			}
		}
	}
	if len(printed) != len(want) {
		return fail("%d schemas are printed, want %d", len(printed), len(want))
	}
	for i, data := range printed {
		got, err := xmltree.Parse(clone([][]byte{data})[0])
		if err != nil {
			return fail("printed schema %d: %v", i, err)
		}
		var a, b strings.Builder
		canon(&a, want[i], 0, false)
		canon(&b, got, 0, false)
		if a.String() != b.String() {
			return fail("printed schema %d is not the normal form: %s", i, firstDiff(a.String(), b.String()))
		}
	}
	if ns == "" {
		// What is printed means what the documents mean.
		parsed, err := xsd.Parse(clone(printed)...)
		if err != nil {
			return fail("parsing what is printed: %v", err)
		}
		if err := checkParsed(c.Set, x, parsed, nil); err != nil {
			return fail("what is printed means something else: %v", err)
		}
	}
	classify(c.Set, r)
	r.Nontrivial(own > 0 && len(trees) > len(want))
	return nil
}

func init() {
	prop.Register("C28", "printed schemas", "one of the caller's schemas is printed, or there is a fault", genPrint, checkPrint, prop.Counts(1200, 20000), prop.Cleanup(dropPrinter))
}
