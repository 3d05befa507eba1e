package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"net/http"
	"net/rpc"
	"net/url"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
)

// ---- RPC ----

type capCodec struct {
	method string
	arg    string
	err    string
	body   any
	wire   []byte
	encErr error
	fail   bool // the connection breaks while the response is written
}

func (c *capCodec) ReadRequestHeader(r *rpc.Request) error {
	r.ServiceMethod = c.method
	r.Seq = 1
	return nil
}

func (c *capCodec) ReadRequestBody(b any) error {
	if p, ok := b.(*string); ok {
		*p = c.arg
	}
	return nil
}

func (c *capCodec) WriteResponse(r *rpc.Response, b any) error {
	if c.fail {
		return errors.New("connection broken")
	}
	c.err = r.Error
	c.body = b
	if r.Error != "" {
		return nil
	}
	var buf bytes.Buffer
	c.encErr = gob.NewEncoder(&buf).Encode(b)
	c.wire = buf.Bytes()
	return c.encErr
}

func (c *capCodec) Close() error { return nil }

func rpcCall(c *capCodec) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	if err := rpc.DefaultServer.ServeRequest(c); err != nil {
		return err
	}
	if c.encErr != nil {
		return fmt.Errorf("cannot encode: %v", c.encErr)
	}
	if c.err != "" {
		return errors.New(c.err)
	}
	return nil
}

// rpcList calls MetricsServer.ListMetrics and decodes the wire form.
func rpcList(path string) (messages.MetricList, error) {
	c := &capCodec{method: "MetricsServer.ListMetrics", arg: path}
	if err := rpcCall(c); err != nil {
		return nil, err
	}
	var l messages.MetricList
	if err := gob.NewDecoder(bytes.NewReader(c.wire)).Decode(&l); err != nil {
		return nil, fmt.Errorf("cannot decode: %v", err)
	}
	return l, nil
}

func rpcGet(path string) (*messages.Metric, error) {
	c := &capCodec{method: "MetricsServer.GetMetric", arg: path}
	if err := rpcCall(c); err != nil {
		return nil, err
	}
	var m messages.Metric
	if err := gob.NewDecoder(bytes.NewReader(c.wire)).Decode(&m); err != nil {
		return nil, fmt.Errorf("cannot decode: %v", err)
	}
	return &m, nil
}

// ---- HTTP ----

type resp struct {
	Code   int
	Hdr    http.Header
	Body   []byte
	Panic  string
	writes int
	failAt int // number of the write that fails, 1 based; 0 never
	wrote  bool
}

func (r *resp) Header() http.Header { return r.Hdr }

func (r *resp) WriteHeader(c int) {
	if !r.wrote {
		r.wrote = true
		r.Code = c
		r.Hdr = r.Hdr.Clone()
	}
}

func (r *resp) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.writes++
	if r.failAt > 0 && r.writes >= r.failAt {
		return 0, errors.New("connection broken")
	}
	r.Body = append(r.Body, b...)
	return len(b), nil
}

// serve runs one request for an URL against the default mux without following redirects.
func serve(u *url.URL, failAt int, hdr ...string) (r *resp) {
	r = &resp{Hdr: http.Header{}, failAt: failAt}
	req := &http.Request{Method: "GET", URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Host: "localhost", RequestURI: u.RequestURI(), RemoteAddr: "127.0.0.1:1"}
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	defer func() {
		if e := recover(); e != nil {
			r.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
		if r.Code == 0 {
			r.Code = 200
		}
	}()
	http.DefaultServeMux.ServeHTTP(r, req)
	return
}

// fetch follows redirects as a browser does.
func fetch(rawurl string, hdr ...string) *resp {
	u, err := url.Parse(rawurl)
	if err != nil {
		return &resp{Code: -1, Hdr: http.Header{}, Body: []byte(err.Error())}
	}
	for i := 0; i < 5; i++ {
		r := serve(u, 0, hdr...)
		if r.Code/100 == 3 && r.Hdr.Get("Location") != "" {
			n, err := url.Parse(r.Hdr.Get("Location"))
			if err != nil {
				return r
			}
			u = u.ResolveReference(n)
			continue
		}
		return r
	}
	return &resp{Code: -2, Hdr: http.Header{}}
}

func escPath(p string) string { return (&url.URL{Path: p}).EscapedPath() }

func jsonURL(path string) string    { return "/metricsapi" + escPath(path) }
func jsonOneURL(path string) string { return "/metricsapi" + escPath(path) + "?singleton=true" }
func htmlURL(path string) string    { return "/metrics" + escPath(path) }
func textURL(path string) string    { return "/metrics" + escPath(path) + "?format=text" }

// jm is a JSON metric as decoded by a client.
type jm struct {
	Path        string          `json:"path"`
	Description string          `json:"description"`
	Unit        string          `json:"unit"`
	Kind        string          `json:"kind"`
	SubType     string          `json:"subType"`
	Bits        int             `json:"bits"`
	Value       json.RawMessage `json:"value"`
	TimeStamp   string          `json:"timestamp"`
	GroupId     int             `json:"groupId"`
}

func jsonList(path string) ([]*jm, error) {
	r := fetch(jsonURL(path))
	return parseJSONList(r)
}

func parseJSONList(r *resp) ([]*jm, error) {
	if r.Panic != "" {
		return nil, errors.New("panic: " + r.Panic)
	}
	if r.Code != 200 {
		return nil, fmt.Errorf("status %d", r.Code)
	}
	var l []*jm
	if err := json.Unmarshal(r.Body, &l); err != nil {
		return nil, fmt.Errorf("bad JSON: %v: %s", err, clipTo(string(r.Body), 200))
	}
	return l, nil
}

func jsonOne(path string) (*jm, error) {
	r := fetch(jsonOneURL(path))
	return parseJSONOne(r)
}

func parseJSONOne(r *resp) (*jm, error) {
	if r.Panic != "" {
		return nil, errors.New("panic: " + r.Panic)
	}
	if r.Code != 200 {
		return nil, fmt.Errorf("status %d", r.Code)
	}
	var m jm
	if err := json.Unmarshal(r.Body, &m); err != nil {
		return nil, fmt.Errorf("bad JSON: %v: %s", err, clipTo(string(r.Body), 200))
	}
	return &m, nil
}

// tsString is the JSON form of a time stamp, computed independently.
func tsString(t time.Time) string {
	return stampText(t)
}

// ---- uniform view of one response, for group checks ----

// obs is one observed metric value: path, integer value and time stamp ("" if not reported).
type obs struct {
	Path string
	Val  int64
	TS   string
	Gid  int
}

// accessKinds are all ways to read metrics. "1" kinds read the single metric given.
var accessKinds = []string{"inproc", "inproc1", "rpc", "rpc1", "json", "json1", "jsonL1", "html", "html1", "text", "text1"}

func isSingle(kind string) bool { return strings.HasSuffix(kind, "1") }

// readInts performs a request of the given kind for directory dir (or metric dir/one) whose metrics are integers.
func readInts(kind, dir, one string) ([]obs, error) {
	return readIntsFail(kind, dir, one, 0)
}

func readIntsFail(kind, dir, one string, failAt int) (result []obs, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	path := dir
	if isSingle(kind) {
		path = dir + "/" + one
	}
	native := func(l messages.MetricList) error {
		for _, m := range l {
			ts := ""
			if t, ok := m.TimeStamp.(time.Time); ok {
				ts = tsString(t)
			}
			v, ok := m.Value.(int64)
			if !ok {
				return fmt.Errorf("value of %s is %T", m.Path, m.Value)
			}
			result = append(result, obs{m.Path, v, ts, m.GroupId})
		}
		return nil
	}
	js := func(l []*jm) error {
		for _, m := range l {
			v, err := strconv.ParseInt(string(m.Value), 10, 64)
			if err != nil {
				return err
			}
			result = append(result, obs{m.Path, v, m.TimeStamp, m.GroupId})
		}
		return nil
	}
	do := func(raw string) (*resp, error) {
		u, err := url.Parse(raw)
		if err != nil {
			return nil, err
		}
		r := serve(u, failAt)
		if r.Panic != "" {
			return r, errors.New("panic: " + r.Panic)
		}
		return r, nil
	}
	switch kind {
	case "inproc", "inproc1":
		err = native(tricorder.ReadMyMetrics(path))
		return result, err
	case "rpc":
		if failAt > 0 {
			c := &capCodec{method: "MetricsServer.ListMetrics", arg: path, fail: true}
			return nil, rpcCall(c)
		}
		l, err := rpcList(path)
		if err != nil {
			return nil, err
		}
		err = native(l)
		return result, err
	case "rpc1":
		if failAt > 0 {
			c := &capCodec{method: "MetricsServer.GetMetric", arg: path, fail: true}
			return nil, rpcCall(c)
		}
		m, err := rpcGet(path)
		if err != nil {
			return nil, err
		}
		err = native(messages.MetricList{m})
		return result, err
	case "json", "jsonL1":
		r, err := do(jsonURL(path))
		if err != nil {
			return nil, err
		}
		if failAt > 0 {
			return nil, errors.New("connection broken")
		}
		l, err := parseJSONList(r)
		if err != nil {
			return nil, err
		}
		err = js(l)
		return result, err
	case "json1":
		r, err := do(jsonOneURL(path))
		if err != nil {
			return nil, err
		}
		if failAt > 0 {
			return nil, errors.New("connection broken")
		}
		m, err := parseJSONOne(r)
		if err != nil {
			return nil, err
		}
		err = js([]*jm{m})
		return result, err
	case "text", "text1":
		r, err := do(textURL(path))
		if err != nil {
			return nil, err
		}
		if failAt > 0 {
			return nil, errors.New("connection broken")
		}
		for _, l := range strings.Split(strings.TrimRight(string(r.Body), "\n"), "\n") {
			if l == "" || strings.HasPrefix(l, "*") { // nothing at this path
				continue
			}
			p, v := path, l
			if i := strings.IndexByte(l, ' '); i >= 0 && kind == "text" {
				p, v = l[:i], l[i+1:]
			}
			n, err := strconv.ParseInt(v, 10, 64)
			if err != nil {
				return nil, err
			}
			result = append(result, obs{Path: p, Val: n, Gid: -1})
		}
		return result, nil
	case "html", "html1":
		r, err := do(htmlURL(path))
		if err != nil {
			return nil, err
		}
		if failAt > 0 {
			return nil, errors.New("connection broken")
		}
		body := string(r.Body)
		words := htmlText(body)
		for i := 0; i+1 < len(words); i++ {
			if !strings.HasPrefix(words[i], dir+"/") {
				continue
			}
			n, err := strconv.ParseInt(strings.ReplaceAll(words[i+1], ",", ""), 10, 64)
			if err != nil {
				continue // a link to a subdirectory
			}
			result = append(result, obs{Path: words[i], Val: n, Gid: -1})
		}
		return result, nil
	}
	panic("unknown access kind " + kind)
}

// htmlText returns the words of a page with all tags removed.
func htmlText(body string) []string {
	var b strings.Builder
	in := false
	for _, r := range body {
		switch {
		case r == '<':
			in = true
			b.WriteByte(' ')
		case r == '>' && in:
			in = false
		case !in:
			b.WriteRune(r)
		}
	}
	return strings.Fields(html.UnescapeString(b.String()))
}

// clockAt is the virtual time of a tick.
func clockAt(tick int64) time.Time { return time.Unix(1500000000, 0).UTC().Add(time.Duration(tick)) }
