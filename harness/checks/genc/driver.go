package genc

// driver is the main package of the programs made from generated source.
const driver = `package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
//IMPORTS
)

var packages = map[int]func(string) interface{}{
//PACKAGES
}

type request struct {
	Pkg   int
	Type  string
	Name  xml.Name
	Doc   string
	Twice bool
	Calls *calls
}

type response struct {
	Err    string      ` + "`json:\",omitempty\"`" + `
	EncErr string      ` + "`json:\",omitempty\"`" + `
	Out    string      ` + "`json:\",omitempty\"`" + `
	Value  interface{} ` + "`json:\",omitempty\"`" + `
	Err2   string      ` + "`json:\",omitempty\"`" + `
	Out2   string      ` + "`json:\",omitempty\"`" + `
	Crash  string      ` + "`json:\",omitempty\"`" + `
	Calls  []*callResult ` + "`json:\",omitempty\"`" + `
}

func main() {
	dec := json.NewDecoder(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	for {
		var req request
		if err := dec.Decode(&req); err != nil {
			return
		}
		b, err := json.Marshal(answer(req))
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func answer(req request) (r response) {
	defer func() {
		if p := recover(); p != nil {
			r.Crash = fmt.Sprint("panic: ", p)
		}
	}()
	v := packages[req.Pkg](req.Type)
	if v == nil {
		r.Crash = "no type " + req.Type
		return r
	}
	if req.Calls != nil {
		r.Calls = req.Calls.run(v)
		return r
	}
	if err := xml.Unmarshal([]byte(req.Doc), v); err != nil {
		r.Err = "error: " + err.Error()
		return r
	}
	r.Value = value(reflect.ValueOf(v).Elem())
	s, err := encode(v, req.Name)
	r.Out = s
	if err != nil {
		r.EncErr = "error: " + err.Error()
		return r
	}
	if req.Twice {
		v := packages[req.Pkg](req.Type)
		if err := xml.Unmarshal([]byte(s), v); err != nil {
			r.Err2 = "error: " + err.Error()
			return r
		}
		if r.Out2, err = encode(v, req.Name); err != nil {
			r.Err2 = "error: " + err.Error()
		}
	}
	return r
}

func encode(v interface{}, name xml.Name) (string, error) {
	var b bytes.Buffer
	enc := xml.NewEncoder(&b)
	if err := enc.EncodeElement(v, xml.StartElement{Name: name}); err != nil {
		return b.String(), err
	}
	err := enc.Flush()
	return b.String(), err
}

var timeType = reflect.TypeOf(time.Time{})

// value gives a Go value in plain terms.
func value(v reflect.Value) interface{} {
	if v.Kind() == reflect.Struct && v.Type().ConvertibleTo(timeType) {
		return v.Convert(timeType).Interface().(time.Time).Format("2006-01-02T15:04:05.999999999Z07:00")
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return value(v.Elem())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return "x" + hex.EncodeToString(v.Bytes())
		}
		out := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, value(v.Index(i)))
		}
		return out
	case reflect.Struct:
		out := map[string]interface{}{}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out[v.Type().Field(i).Name] = value(v.Field(i))
			}
		}
		return out
	case reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'g', -1, 32)
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Bool:
		return v.Bool()
	}
	return v.String()
}

type calls struct {
	List     []*call
	Parallel bool
	Default  bool // http.DefaultClient
	ReqHook  bool
	RspHook  bool
}

type call struct {
	Method   string
	Args     []arg
	WrapIn   bool
	WrapOut  bool
	Mode     string
	Response string
	Status   int
	Cut      int
	NewReq   bool // the request hook replaces the request
	NewRsp   bool // the response hook replaces the response
	OutNames []xml.Name
}

type arg struct {
	Doc   string
	Value interface{}
}

type callResult struct {
	Requests []seen
	ReqHooks []seen
	RspHooks int
	Opened   int
	Closed   int
	Err      string ` + "`json:\",omitempty\"`" + `
	Values   []interface{}
	Outs     []string
	Crash    string ` + "`json:\",omitempty\"`" + `
	Stray    int
}

type seen struct {
	Method, URL, Action, Body string
	New                       bool
}

type callKey struct{}

// exchange is one call while it is made.
type exchange struct {
	call   *call
	result *callResult
	cancel context.CancelFunc
}

type world struct {
	sync.Mutex
	current *exchange
	stray   int
}

func (w *world) of(ctx context.Context) *exchange {
	w.Lock()
	defer w.Unlock()
	if x, ok := ctx.Value(callKey{}).(*exchange); ok {
		return x
	}
	w.stray++
	return w.current
}

type body struct {
	io.Reader
	once   sync.Once
	closed *int
}

func (b *body) Close() error {
	b.once.Do(func() { *b.closed++ })
	return nil
}

type failing struct {
	s string
}

func (f *failing) Read(p []byte) (int, error) {
	if f.s == "" {
		return 0, errors.New("connection reset")
	}
	n := copy(p, f.s)
	f.s = f.s[n:]
	return n, nil
}

func see(r *http.Request) seen {
	s := seen{Method: r.Method, URL: r.URL.String(), Action: r.Header.Get("SOAPAction"), New: r.Header.Get("X-Verif") != ""}
	if r.Header["Soapaction"] == nil {
		s.Action = "no header"
	}
	return s
}

func (w *world) RoundTrip(r *http.Request) (*http.Response, error) {
	x := w.of(r.Context())
	s := see(r)
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return nil, err
		}
		s.Body = string(b)
	}
	w.Lock()
	x.result.Requests = append(x.result.Requests, s)
	w.Unlock()
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	text := x.call.Response
	switch x.call.Mode {
	case "transport":
		return nil, errors.New("no route to host")
	case "cancelled during":
		x.cancel()
		select {
		case <-r.Context().Done():
			return nil, r.Context().Err()
		case <-time.After(2 * time.Second):
		}
	}
	var rd io.Reader = strings.NewReader(text)
	if x.call.Mode == "reset" {
		rd = &failing{text[:x.call.Cut]}
	}
	if x.call.NewRsp {
		rd = strings.NewReader("not for you")
	}
	x.result.Opened++
	return &http.Response{
		Status: strconv.Itoa(x.call.Status), StatusCode: x.call.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &body{Reader: rd, closed: &x.result.Closed}, ContentLength: -1, Request: r,
	}, nil
}

func (c *calls) run(client interface{}) []*callResult {
	w := new(world)
	v := reflect.ValueOf(client).Elem()
	hc := &http.Client{Transport: w}
	if c.Default {
		http.DefaultClient = hc
		http.DefaultTransport = w
	} else {
		http.DefaultClient = &http.Client{}
		http.DefaultTransport = nil
		v.FieldByName("HTTPClient").Set(reflect.ValueOf(hc))
	}
	if c.ReqHook {
		v.FieldByName("RequestHook").Set(reflect.ValueOf(func(r *http.Request) *http.Request {
			x := w.of(r.Context())
			w.Lock()
			x.result.ReqHooks = append(x.result.ReqHooks, see(r))
			w.Unlock()
			if x.call.NewReq {
				r = r.Clone(r.Context())
				r.URL, _ = url.Parse("http://replaced.example/x")
				r.Header.Set("X-Verif", "1")
			}
			return r
		}))
	}
	if c.RspHook {
		v.FieldByName("ResponseHook").Set(reflect.ValueOf(func(r *http.Response) *http.Response {
			x := w.of(r.Request.Context())
			x.result.RspHooks++
			if x.call.NewRsp {
				n := *r
				n.Body = io.NopCloser(strings.NewReader(x.call.Response))
				return &n
			}
			return r
		}))
	}
	var out []*callResult
	var wg sync.WaitGroup
	for _, k := range c.List {
		x := &exchange{call: k, result: new(callResult)}
		out = append(out, x.result)
		if !c.Parallel {
			w.current = x
			x.do(reflect.ValueOf(client))
			continue
		}
		if w.current == nil {
			w.current = x
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.do(reflect.ValueOf(client))
		}()
	}
	wg.Wait()
	if len(out) > 0 {
		out[0].Stray = w.stray
	}
	return out
}

var (
	bytesType   = reflect.TypeOf([]byte(nil))
	stringsType = reflect.TypeOf([]string(nil))
)

func (a arg) set(v reflect.Value) {
	switch v.Type() {
	case timeType:
		t, err := time.Parse(time.RFC3339Nano, a.Value.(string))
		if err != nil {
			panic(err)
		}
		v.Set(reflect.ValueOf(t))
	case bytesType:
		b, err := hex.DecodeString(a.Value.(string)[1:])
		if err != nil {
			panic(err)
		}
		v.SetBytes(b)
	case stringsType:
		for _, s := range a.Value.([]interface{}) {
			v.Set(reflect.Append(v, reflect.ValueOf(s)))
		}
	default:
		if err := xml.Unmarshal([]byte(a.Doc), v.Addr().Interface()); err != nil {
			panic(err)
		}
	}
}

func (x *exchange) do(client reflect.Value) {
	r := x.result
	defer func() {
		if p := recover(); p != nil {
			r.Crash = fmt.Sprint("panic: ", p)
		}
	}()
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), callKey{}, x))
	defer cancel()
	x.cancel = cancel
	if x.call.Mode == "cancelled before" {
		cancel()
	}
	m := client.MethodByName(x.call.Method)
	args := []reflect.Value{reflect.ValueOf(ctx)}
	if x.call.WrapIn {
		v := reflect.New(m.Type().In(1)).Elem()
		for i, a := range x.call.Args {
			a.set(v.Field(i))
		}
		args = append(args, v)
	} else {
		for i, a := range x.call.Args {
			v := reflect.New(m.Type().In(i + 1)).Elem()
			a.set(v)
			args = append(args, v)
		}
	}
	results := m.Call(args)
	if err, _ := results[len(results)-1].Interface().(error); err != nil {
		r.Err = "error: " + err.Error()
		return
	}
	results = results[:len(results)-1]
	if x.call.WrapOut {
		s := results[0]
		results = nil
		for i := 0; i < s.NumField(); i++ {
			results = append(results, s.Field(i))
		}
	}
	for i, v := range results {
		r.Values = append(r.Values, value(v))
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		s, err := encode(p.Interface(), x.call.OutNames[i])
		if err != nil {
			s = "error: " + err.Error()
		}
		r.Outs = append(r.Outs, s)
	}
}
`
