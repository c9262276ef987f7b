package hins

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/go-bond/bond/zzverif/nd"
	"github.com/go-resty/resty/v2"
)

// ---- a server ----

// serve makes the handler reachable under the returned address.
func serve(f http.Handler) (string, func()) {
	s := httptest.NewServer(f)
	return s.URL, s.Close
}

var servers = map[string]http.Handler{}

//verif:redirect github.com/go-bond/bond/zzverif/hins.serve
func serveModel(f http.Handler) (string, func()) {
	host := "host" + string(rune('0'+len(servers)))
	servers[host] = f
	return "http://" + host, func() { delete(servers, host) }
}

// ---- standard output ----

// printed is what f prints.
func printed(f func() error) (string, error) {
	file, err := os.CreateTemp("", "c27")
	must(err)
	defer os.Remove(file.Name())
	stdout := os.Stdout
	os.Stdout = file
	err = f()
	os.Stdout = stdout
	b, err2 := os.ReadFile(file.Name())
	must(err2)
	file.Close()
	return string(b), err
}

var output string

//verif:redirect github.com/go-bond/bond/zzverif/hins.printed
func printedModel(f func() error) (string, error) {
	output, os.Args = "", []string{"bond-cli"}
	err := f()
	return output, err
}

//verif:redirect fmt.Print
func print(a ...any) (int, error) {
	s := fmt.Sprint(a...)
	output += s
	return len(s), nil
}

// ---- the HTTP client: a request is handled at once ----

//verif:redirect github.com/go-resty/resty/v2.New
func restyNew() *resty.Client { return &resty.Client{} }

// answer collects what a handler writes.
type answer struct {
	header http.Header
	status int
	body   []byte
}

func (a *answer) Header() http.Header { return a.header }

func (a *answer) WriteHeader(code int) {
	if a.status == 0 {
		a.status = code
	}
}

func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(http.StatusOK)
	a.body = append(a.body, b...)
	return len(b), nil
}

type reply struct {
	raw  *http.Response
	body []byte
}

var replies []reply

//verif:redirect (*github.com/go-resty/resty/v2.Request).Execute
func restyExecute(r *resty.Request, method, to string) (*resty.Response, error) {
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	rest, ok := strings.CutPrefix(to, "http://")
	if !ok {
		return nil, errors.New("resty: unsupported address")
	}
	host, path, _ := strings.Cut(rest, "/")
	path, query, _ := strings.Cut("/"+path, "?")
	handler := servers[host]
	if handler == nil {
		return nil, errors.New("resty: connection refused")
	}
	var body []byte
	switch b := r.Body.(type) {
	case nil:
	case []byte:
		body = append(body, b...)
	case string:
		body = []byte(b)
	default:
		var err error
		if body, err = jsonMarshal(b); err != nil {
			return nil, err
		}
	}
	req := &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: query}, Header: r.Header, Host: host,
		ContentLength: int64(len(body)), Body: io.NopCloser(bytes.NewReader(body))}
	a := &answer{header: http.Header{}}
	if !handled(handler, a, req.WithContext(context.Background())) {
		return nil, errors.New("resty: connection closed")
	}
	a.WriteHeader(http.StatusOK)
	raw := &http.Response{StatusCode: a.status, Status: strconv.Itoa(a.status) + " " + http.StatusText(a.status), Header: a.header}
	replies = append(replies, reply{raw, a.body})
	resp := &resty.Response{Request: r, RawResponse: raw}
	if r.Result != nil && a.status < 300 {
		return resp, jsonUnmarshal(a.body, r.Result)
	}
	return resp, nil
}

// handled reports whether the handler came to an end.
func handled(f http.Handler, a *answer, r *http.Request) (ok bool) {
	defer func() {
		if !ok {
			recover()
		}
	}()
	f.ServeHTTP(a, r)
	return true
}

//verif:redirect (*github.com/go-resty/resty/v2.Response).Body
func restyBody(r *resty.Response) []byte {
	for _, p := range replies {
		if p.raw == r.RawResponse {
			return p.body
		}
	}
	return nil
}

// ---- JSON: a document stands for its tree ----

type (
	uintNum uint64
	intNum  int64
	object  struct {
		names []string
		vals  []any
	}
)

var docs []any

var errJSON = errors.New("json: invalid document")

//verif:redirect encoding/json.Marshal
func jsonMarshal(v any) ([]byte, error) {
	t, err := tree(reflect.ValueOf(v))
	if err != nil {
		return nil, err
	}
	docs = append(docs, t)
	return []byte{'{', byte(len(docs) - 1)}, nil
}

//verif:redirect encoding/json.Unmarshal
func jsonUnmarshal(b []byte, v any) error {
	b = bytes.TrimRight(b, "\n")
	if len(b) != 2 || b[0] != '{' || int(b[1]) >= len(docs) {
		return errJSON
	}
	p := reflect.ValueOf(v)
	if !p.IsValid() || p.Kind() != reflect.Ptr || p.IsNil() {
		return errors.New("json: target is no pointer")
	}
	return put(docs[b[1]], p.Elem())
}

func tree(v reflect.Value) (any, error) {
	if !v.IsValid() {
		return nil, nil
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return nil, nil
		}
		return tree(v.Elem())
	case reflect.Bool:
		return v.Convert(reflect.TypeOf(false)).Interface(), nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return v.Convert(reflect.TypeOf(uintNum(0))).Interface(), nil
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		return v.Convert(reflect.TypeOf(intNum(0))).Interface(), nil
	case reflect.Float64, reflect.Float32:
		return v.Convert(reflect.TypeOf(float64(0))).Interface(), nil
	case reflect.String:
		return v.String(), nil
	case reflect.Slice:
		if v.IsNil() {
			return nil, nil
		}
		list := make([]any, v.Len())
		for i := range list {
			t, err := tree(v.Index(i))
			if err != nil {
				return nil, err
			}
			list[i] = t
		}
		return list, nil
	case reflect.Map:
		if v.IsNil() {
			return nil, nil
		}
		o := &object{}
		for _, k := range v.MapKeys() {
			t, err := tree(v.MapIndex(k))
			if err != nil {
				return nil, err
			}
			o.names, o.vals = append(o.names, k.String()), append(o.vals, t)
		}
		return o, nil
	case reflect.Struct:
		o := &object{}
		return o, members(v, func(name string, f reflect.Value) error {
			t, err := tree(f)
			o.names, o.vals = append(o.names, name), append(o.vals, t)
			return err
		})
	}
	return nil, errors.New("json: unsupported type " + v.Type().String())
}

// members visits the fields of a struct under their names in JSON.
func members(v reflect.Value, f func(string, reflect.Value) error) error {
	for i := 0; i < v.NumField(); i++ {
		sf := v.Type().Field(i)
		name, _, _ := strings.Cut(sf.Tag.Get("json"), ",")
		if name == "-" {
			continue
		}
		var err error
		if sf.Anonymous && name == "" {
			err = members(v.Field(i), f)
		} else if sf.PkgPath == "" {
			if name == "" {
				name = sf.Name
			}
			err = f(name, v.Field(i))
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func mismatch(v reflect.Value) error {
	return errors.New("json: cannot unmarshal into " + v.Type().String())
}

// fits reports whether the number t can be stored in a value of the kind.
func fits(t any, k reflect.Kind) bool {
	bits := uint(64)
	switch k {
	case reflect.Float64, reflect.Float32:
		return true
	case reflect.Int8, reflect.Uint8:
		bits = 8
	case reflect.Int16, reflect.Uint16:
		bits = 16
	case reflect.Int32, reflect.Uint32:
		bits = 32
	case reflect.Int64, reflect.Uint64, reflect.Int, reflect.Uint:
	default:
		return false
	}
	signed := k >= reflect.Int && k <= reflect.Int64
	switch x := t.(type) {
	case uintNum:
		if signed {
			bits--
		}
		return bits == 64 || uint64(x)>>bits == 0
	case intNum:
		if !signed {
			return x >= 0 && (bits == 64 || uint64(x)>>bits == 0)
		}
		return bits == 64 || int64(x)>>(bits-1) == 0 || int64(x)>>(bits-1) == -1
	}
	return true
}

// put stores the tree t in v.
func put(t any, v reflect.Value) error {
	if v.Kind() == reflect.Interface {
		if x := loose(t); x != nil {
			v.Set(reflect.ValueOf(x))
		} else {
			v.Set(reflect.Zero(v.Type()))
		}
		return nil
	}
	switch x := t.(type) {
	case nil:
		switch v.Kind() {
		case reflect.Slice, reflect.Map, reflect.Ptr:
			v.Set(reflect.Zero(v.Type()))
		}
		return nil
	case bool:
		if v.Kind() != reflect.Bool {
			return mismatch(v)
		}
		v.Set(reflect.ValueOf(x).Convert(v.Type()))
	case string:
		if v.Kind() != reflect.String {
			return mismatch(v)
		}
		v.Set(reflect.ValueOf(x).Convert(v.Type()))
	case uintNum, intNum, float64:
		if !fits(t, v.Kind()) {
			return mismatch(v)
		}
		v.Set(reflect.ValueOf(x).Convert(v.Type()))
	case []any:
		if v.Kind() != reflect.Slice {
			return mismatch(v)
		}
		s := reflect.MakeSlice(v.Type(), len(x), len(x))
		for i := range x {
			if err := put(x[i], s.Index(i)); err != nil {
				return err
			}
		}
		v.Set(s)
	case *object:
		switch v.Kind() {
		case reflect.Ptr:
			p := reflect.New(v.Type().Elem())
			if err := put(t, p.Elem()); err != nil {
				return err
			}
			v.Set(p)
		case reflect.Map:
			if v.IsNil() {
				v.Set(reflect.MakeMap(v.Type()))
			}
			for i, name := range x.names {
				e := reflect.New(v.Type().Elem()).Elem()
				if err := put(x.vals[i], e); err != nil {
					return err
				}
				v.SetMapIndex(reflect.ValueOf(name).Convert(v.Type().Key()), e)
			}
		case reflect.Struct:
			return members(v, func(name string, f reflect.Value) error {
				for i := range x.names {
					if strings.EqualFold(x.names[i], name) {
						return put(x.vals[i], f)
					}
				}
				return nil
			})
		default:
			return mismatch(v)
		}
	}
	return nil
}

// loose is the tree as a value of no given type.
func loose(t any) any {
	switch x := t.(type) {
	case uintNum:
		return float64(x)
	case intNum:
		return float64(x)
	case []any:
		list := make([]any, len(x))
		for i := range x {
			list[i] = loose(x[i])
		}
		return list
	case *object:
		m := map[string]any{}
		for i, name := range x.names {
			m[name] = loose(x.vals[i])
		}
		return m
	}
	return t
}

// ascii keeps to the characters that are the same in JSON.
func ascii(ss ...string) {
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			nd.Assume(s[i] < 0x80)
		}
	}
}

// jsonText is the request as the handler reads it.
func jsonText(s string) (string, error) { return s, nil }

//verif:redirect github.com/go-bond/bond/zzverif/hins.jsonText
func jsonTextModel(s string) (string, error) {
	if !strings.HasSuffix(s, "}") {
		return s, errJSON
	}
	b, err := jsonMarshal(map[string]any{"table": "x"})
	return string(b), err
}

//verif:redirect github.com/urfave/cli/v2.compileTime
func compileTime() time.Time { return time.Time{} }

//verif:redirect time.Now
func now() time.Time { return time.Time{} }

//verif:redirect context.WithDeadline
func withDeadline(ctx context.Context, _ time.Time) (context.Context, context.CancelFunc) {
	return context.WithCancel(ctx)
}

//verif:redirect os.NewFile
func newFile(uintptr, string) *os.File { return &os.File{} }
