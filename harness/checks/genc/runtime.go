package genc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"go/types"

	"aqwari.net/xml/verif/prop"
)

// program is a set of generated packages compiled into one program that
// decodes and encodes documents with their types.
type program struct {
	dir string
	bad map[int]error // packages that do not compile
	exe string
}

// request asks for a document to be decoded as a type and encoded again.
type request struct {
	Pkg   int
	Type  string
	Name  xml.Name // of the element it is encoded as
	Doc   string
	Twice bool   `json:",omitempty"` // decode and encode the output once more
	Calls *calls `json:",omitempty"`
}

type response struct {
	Err    string          `json:",omitempty"` // of decoding
	EncErr string          `json:",omitempty"` // of encoding
	Out    string          `json:",omitempty"`
	Value  json.RawMessage `json:",omitempty"` // the decoded Go value
	Err2   string          `json:",omitempty"`
	Out2   string          `json:",omitempty"`
	Crash  string          `json:",omitempty"`
	Calls  []callResult    `json:",omitempty"`
}

var (
	toolOnce sync.Once
	toolDir  string
	toolErr  error
)

func tool(name string) (string, error) {
	toolOnce.Do(func() {
		out, err := exec.Command("go", "env", "GOTOOLDIR").Output()
		if err != nil {
			toolErr = prop.Infra("go env: %v", err)
		}
		toolDir = strings.TrimSpace(string(out))
	})
	return filepath.Join(toolDir, name), toolErr
}

func (p *program) close() { os.RemoveAll(p.dir) }

// unit is generated source to be compiled.
type unit struct {
	src   []byte
	types []string // that can be decoded
	extra string   // more source for the package
}

// declaredTypes lists the types of a package that can be decoded into.
func declaredTypes(pkg *types.Package) []string {
	var out []string
	for _, n := range pkg.Scope().Names() {
		if t, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok {
			if _, ok := t.Type().Underlying().(*types.Interface); !ok {
				out = append(out, n)
			}
		}
	}
	return out
}

func runTool(name string, args ...string) error {
	path, err := tool(name)
	if err != nil {
		return err
	}
	if out, err := exec.Command(path, args...).CombinedOutput(); err != nil {
		return fmt.Errorf("%s: %v\n%s", name, err, out)
	}
	return nil
}

// build compiles packages together with the driver.
func build(units []unit) (p *program, err error) {
	if _, err := stdlib(); err != nil {
		return nil, err
	}
	dir, err := os.MkdirTemp("", "verif-rt-")
	if err != nil {
		return nil, prop.Infra("%v", err)
	}
	p = &program{dir: dir, bad: map[int]error{}}
	defer func() {
		if err != nil {
			p.close()
			p = nil
		}
	}()
	write := func(name, s string) string {
		path := filepath.Join(dir, name)
		if e := os.WriteFile(path, []byte(s), 0o666); e != nil {
			panic(prop.Infra("%v", e))
		}
		return path
	}
	var std []string
	for n, f := range exports {
		if f != "" {
			std = append(std, "packagefile "+n+"="+f+"\n")
		}
	}
	sort.Strings(std)
	cfg := write("importcfg", strings.Join(std, ""))
	var wg sync.WaitGroup
	var mu sync.Mutex
	slots := make(chan bool, 3)
	for i, u := range units {
		var reg strings.Builder
		fmt.Fprintf(&reg, "package %s\n", packageOf(u.src))
		reg.WriteString(u.extra)
		reg.WriteString("\nfunc VerifNew_(name string) interface{} {\n\tswitch name {\n")
		for _, t := range u.types {
			fmt.Fprintf(&reg, "\tcase %q:\n\t\treturn new(%s)\n", t, t)
		}
		reg.WriteString("\t}\n\treturn nil\n}\n")
		a := write(fmt.Sprintf("g%d.go", i), string(u.src))
		b := write(fmt.Sprintf("r%d.go", i), reg.String())
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			if e := runTool("compile", "-p", fmt.Sprintf("c%d", i), "-importcfg", cfg, "-pack", "-o", filepath.Join(dir, fmt.Sprintf("c%d.a", i)), a, b); e != nil {
				mu.Lock()
				p.bad[i] = e
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	var imports, cases strings.Builder
	all := strings.Join(std, "")
	for i, u := range units {
		if p.bad[i] != nil {
			continue
		}
		fmt.Fprintf(&imports, "\tc%d \"c%d\"\n", i, i)
		fmt.Fprintf(&cases, "\t%d: c%d.VerifNew_,\n", i, i)
		all += fmt.Sprintf("packagefile c%d=%s\n", i, filepath.Join(dir, fmt.Sprintf("c%d.a", i)))
		_ = u
	}
	main := strings.Replace(driver, "//IMPORTS", imports.String(), 1)
	main = strings.Replace(main, "//PACKAGES", cases.String(), 1)
	cfg2 := write("importcfg2", all)
	obj := filepath.Join(dir, "main.a")
	if err := runTool("compile", "-p", "main", "-importcfg", cfg2, "-pack", "-o", obj, write("main.go", main)); err != nil {
		return nil, prop.Infra("driver: %v", err)
	}
	p.exe = filepath.Join(dir, "driver")
	if err := runTool("link", "-importcfg", cfg2, "-s", "-w", "-o", p.exe, obj); err != nil {
		return nil, prop.Infra("driver: %v", err)
	}
	return p, nil
}

func packageOf(src []byte) string {
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "package ") {
			return strings.Fields(l)[1]
		}
	}
	return "ws"
}

// do runs requests. A request that ends the program or does not come to an
// end is answered with Crash.
func (p *program) do(reqs []request) ([]response, error) {
	var out []response
	for len(out) < len(reqs) {
		rest := reqs[len(out):]
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, r := range rest {
			if err := enc.Encode(r); err != nil {
				return nil, prop.Infra("%v", err)
			}
		}
		cmd := exec.Command(p.exe)
		cmd.Dir = p.dir
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=1GiB", "GOTRACEBACK=single")
		cmd.Stdin = &in
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			return nil, prop.Infra("%v", err)
		}
		if err := cmd.Start(); err != nil {
			return nil, prop.Infra("%v", err)
		}
		// The time is for one request.
		timer := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
		rd := bufio.NewReaderSize(pipe, 1<<20)
		n := 0
		for n < len(rest) {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				break
			}
			timer.Reset(30 * time.Second)
			var r response
			if err := json.Unmarshal(line, &r); err != nil {
				cmd.Process.Kill()
				cmd.Wait()
				return nil, prop.Infra("driver: %v in %s", err, line)
			}
			out = append(out, r)
			n++
		}
		io.Copy(io.Discard, rd)
		cmd.Wait()
		timer.Stop()
		if n < len(rest) {
			s := stderr.String()
			if s == "" {
				s = "no answer: " + cmd.ProcessState.String()
			}
			out = append(out, response{Crash: cut(s)})
		}
	}
	return out, nil
}

// calls asks for methods of a generated client.
type calls struct {
	List     []call
	Parallel bool
	Default  bool
	ReqHook  bool
	RspHook  bool
}

type call struct {
	Method   string
	Args     []callArg
	WrapIn   bool
	WrapOut  bool
	Mode     string
	Response string
	Status   int
	Cut      int
	NewReq   bool
	NewRsp   bool
	OutNames []xml.Name
}

type callArg struct {
	Doc   string
	Value interface{}
}

type callResult struct {
	Requests []callSeen
	ReqHooks []callSeen
	RspHooks int
	Opened   int
	Closed   int
	Err      string
	Values   []json.RawMessage
	Outs     []string
	Crash    string
	Stray    int // uses of a context that is not that of a call
}

type callSeen struct {
	Method, URL, Action, Body string
	New                       bool
}
