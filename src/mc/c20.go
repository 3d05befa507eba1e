package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"sort"
	"strconv"
	"strings"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// ungzip decodes a response in place as a client does.
func ungzip(r *resp) error {
	if r.Hdr.Get("Content-Encoding") == "" {
		return nil
	}
	if r.Hdr.Get("Content-Encoding") != "gzip" {
		return fmt.Errorf("content encoding %q", r.Hdr.Get("Content-Encoding"))
	}
	z, err := gzip.NewReader(bytes.NewReader(r.Body))
	if err != nil {
		return fmt.Errorf("not gzip: %v", err)
	}
	b, err := io.ReadAll(z)
	if err != nil {
		return fmt.Errorf("bad gzip: %v", err)
	}
	r.Body = b
	return nil
}

type c20Reg struct {
	path string
	dir  bool
	kind int // kind of metric
}

// c20Tree is the tree registered: leaves with their kind, and directories.
type c20Tree struct {
	root    string
	metrics map[string]string // path below root -> its text value
	dirs    map[string]bool
}

func (t *c20Tree) build(regs []c20Reg) {
	t.metrics, t.dirs = map[string]string{}, map[string]bool{"": true}
	for i, r := range regs {
		c := comps(r.path)
		// what a tree allows
		ok := true
		for k := 1; k < len(c); k++ {
			if _, m := t.metrics[strings.Join(c[:k], "/")]; m {
				ok = false
			}
		}
		p := strings.Join(c, "/")
		if _, m := t.metrics[p]; m || t.dirs[p] {
			ok = false
		}
		if !ok {
			continue
		}
		for k := 1; k < len(c); k++ {
			t.dirs[strings.Join(c[:k], "/")] = true
		}
		abs := t.root + "/" + r.path
		if r.dir {
			t.dirs[p] = true
			must2(tricorder.RegisterDirectory(abs))
			continue
		}
		v := int64(i + 1)
		switch r.kind {
		case 0:
			must(tricorder.RegisterMetricInGroup(abs, &v, fixedGroup(), units.None, "d"+strconv.Itoa(i)))
			t.metrics[p] = fmt.Sprint(v)
		case 1:
			must(tricorder.RegisterMetricInGroup(abs, tricorder.NewList([]int64{v, 7}, tricorder.ImmutableSlice), fixedGroup(), units.None, "d"))
			t.metrics[p] = fmt.Sprintf("%d|7", v)
		default:
			s := fmt.Sprintf("s%d", v)
			must(tricorder.RegisterMetricInGroup(abs, func() string { return s }, fixedGroup(), units.None, "d"))
			t.metrics[p] = strconv.Quote(s)
		}
	}
}

// expect says what a request path denotes: the metrics listed, and "metric", "directory" or "nothing".
func (t *c20Tree) expect(req string) (list []string, what string) {
	p := strings.Join(comps(req), "/")
	if _, ok := t.metrics[p]; ok {
		return []string{p}, "metric"
	}
	if !t.dirs[p] {
		return nil, "nothing"
	}
	for m := range t.metrics {
		if under(m, p) {
			list = append(list, m)
		}
	}
	sort.Slice(list, func(i, j int) bool { return pathLess(list[i], list[j]) })
	return list, "directory"
}

// c20Source fetches URLs and calls RPCs: in process or over a connection.
type c20Source struct {
	get  func(rawurl string, hdr ...string) *resp
	list func(path string) (messages.MetricList, error)
	one  func(path string) (*messages.Metric, error)
}

var c20Local = &c20Source{get: fetch, list: rpcList, one: rpcGet}

var c20Encodings = []string{"", "gzip", "identity", "gzip, deflate, br", "deflate;q=0.5, gzip;q=1.0", "deflate, br", "deflate, gzip;q=0"}

// c20Accepts tells whether a client that sends this header accepts gzip.
func c20Accepts(header string) bool {
	found, other := false, false
	for _, c := range strings.Split(header, ",") {
		parts := strings.Split(c, ";")
		ok := true
		for _, p := range parts[1:] {
			if q, err := strconv.ParseFloat(strings.TrimPrefix(strings.ToLower(strings.TrimSpace(p)), "q="), 64); err == nil && q == 0 {
				ok = false
			}
		}
		switch strings.ToLower(strings.TrimSpace(parts[0])) {
		case "gzip", "x-gzip":
			if !ok {
				return false
			}
			found = true
		case "*":
			other = ok
		}
	}
	return found || other
}

// c20AllEncodings are all lists of up to two codings with qualities.
func c20AllEncodings() []string {
	one := []string{}
	for _, c := range []string{"gzip", "deflate", "identity", "*", "br", "GZIP", "gzipped", "x-gzip"} {
		for _, q := range []string{"", ";q=1", ";q=0", "; q=0.0", ";q=0.5", "; Q=0.000"} {
			if q != "" && (c == "br" || c == "GZIP" || c == "gzipped") {
				continue
			}
			one = append(one, c+q)
		}
	}
	out := append([]string{""}, one...)
	for _, a := range one {
		for _, b := range one {
			if strings.EqualFold(strings.Split(a, ";")[0], strings.Split(b, ";")[0]) || strings.Contains(strings.ToLower(a), "zip") && strings.Contains(strings.ToLower(b), "zip") {
				continue
			}
			out = append(out, a+", "+b)
		}
	}
	return out
}

func c20Enc(w *W, part, parts int) {
	execCount++
	t := &c20Tree{root: fmt.Sprintf("/x%d", execCount)}
	var regs []c20Reg
	for i := 0; i < 100; i++ {
		regs = append(regs, c20Reg{fmt.Sprintf("big/m%03d", i), false, i % 3})
	}
	t.build(append(regs, c20Reg{"m", false, 0}, c20Reg{"e", true, 0}))
	defer tricorder.UnregisterPath(t.root)
	for i, enc := range c20AllEncodings() {
		if i%parts != part {
			continue
		}
		for _, req := range []string{"/m", "/big", "/e", "/none"} {
			w.Eval()
			desc := fmt.Sprintf("request %q accepting %q", req, enc)
			w.cur = func() string { return desc }
			if err := t.judge(w, c20Local, req, []string{"", enc}); err != nil {
				w.Fail("encoding", "%s: %v", desc, err)
			}
			w.State(desc)
			w.Trace()
			w.Sample(desc)
		}
	}
}

func (t *c20Tree) judge(w *W, src *c20Source, req string, encs []string) error {
	abs := t.root + req
	list, what := t.expect(req)
	names := func(l messages.MetricList) (out []string) {
		for _, m := range l {
			out = append(out, strings.TrimPrefix(m.Path, t.root+"/"))
		}
		return
	}
	same := func(a []string) bool { return fmt.Sprintf("%q", a) == fmt.Sprintf("%q", list) }
	if got := names(tricorder.ReadMyMetrics(abs)); !same(got) {
		return fmt.Errorf("in-process listing is %q, want %q", got, list)
	}
	l, err := src.list(abs)
	if err != nil || !same(names(l)) {
		return fmt.Errorf("RPC listing is %q %v, want %q", names(l), err, list)
	}
	m, err := src.one(abs)
	if what == "metric" {
		if err != nil || m.Path != t.root+"/"+list[0] {
			return fmt.Errorf("RPC lookup of a metric gives %+v %v", m, err)
		}
	} else if err == nil || err.Error() != messages.ErrMetricNotFound.Error() {
		return fmt.Errorf("RPC lookup of %s gives %+v %v", what, m, err)
	}
	w.Trans(3)
	// JSON, plain and compressed
	for _, url := range []string{jsonURL(abs), jsonOneURL(abs)} {
		single := strings.Contains(url, "singleton")
		var plain *resp
		for _, enc := range encs {
			r := src.get(url, "Accept-Encoding", enc)
			w.Trans(1)
			if r.Panic != "" {
				return fmt.Errorf("%s panics: %s", url, r.Panic)
			}
			if n := r.Hdr.Get("Content-Length"); n != "" && n != strconv.Itoa(len(r.Body)) {
				return fmt.Errorf("%s declares length %s, sends %d", url, n, len(r.Body))
			}
			zipped := r.Hdr.Get("Content-Encoding") == "gzip"
			if zipped && !c20Accepts(enc) {
				return fmt.Errorf("%s is compressed for a client that accepts %q", url, enc)
			}
			if err := ungzip(r); err != nil {
				return fmt.Errorf("%s with Accept-Encoding %q: %v", url, enc, err)
			}
			if plain == nil {
				plain = r
				if single && what != "metric" {
					if r.Code != 404 {
						return fmt.Errorf("%s of %s answers %d", url, what, r.Code)
					}
					continue
				}
				if r.Code != 200 {
					return fmt.Errorf("%s of %s answers %d", url, what, r.Code)
				}
				if ct := r.Hdr.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
					return fmt.Errorf("%s has content type %q", url, ct)
				}
				if mt := r.Hdr.Get("X-Tricorder-Media-Type"); mt != "tricorder.v1" {
					return fmt.Errorf("%s has media type %q", url, mt)
				}
				var got []string
				if single {
					m, err := parseJSONOne(r)
					if err != nil {
						return err
					}
					got = []string{strings.TrimPrefix(m.Path, t.root+"/")}
				} else {
					l, err := parseJSONList(r)
					if err != nil {
						return err
					}
					var raw json.RawMessage
					if err := json.Unmarshal(r.Body, &raw); err != nil || !strings.HasPrefix(strings.TrimSpace(string(raw)), "[") {
						return fmt.Errorf("%s of %s is %s, not an array", url, what, clipTo(string(r.Body), 80))
					}
					for _, m := range l {
						got = append(got, strings.TrimPrefix(m.Path, t.root+"/"))
					}
				}
				if !same(got) {
					return fmt.Errorf("%s is %q, want %q", url, got, list)
				}
				continue
			}
			if r.Code != plain.Code || !bytes.Equal(r.Body, plain.Body) || r.Hdr.Get("Content-Type") != plain.Hdr.Get("Content-Type") {
				return fmt.Errorf("%s with Accept-Encoding %q: %d %q %s; plain: %d %q %s", url, enc, r.Code, r.Hdr.Get("Content-Type"), clipTo(string(r.Body), 200),
					plain.Code, plain.Hdr.Get("Content-Type"), clipTo(string(plain.Body), 200))
			}
		}
	}
	// plain text and HTML
	r := src.get(textURL(abs))
	h := src.get(htmlURL(abs))
	w.Trans(2)
	if r.Panic != "" || h.Panic != "" {
		return fmt.Errorf("text or page panics: %s %s", r.Panic, h.Panic)
	}
	body := string(r.Body)
	if ct := r.Hdr.Get("Content-Type"); !strings.HasPrefix(ct, "text/plain") || r.Code != 200 {
		return fmt.Errorf("text answers %d %q", r.Code, ct)
	}
	if h.Code != 200 {
		return fmt.Errorf("page answers %d", h.Code)
	}
	gone := func(s string) bool { return strings.Contains(s, "does not exist") }
	if gone(body) != (what == "nothing") || gone(string(h.Body)) != (what == "nothing") {
		return fmt.Errorf("%s: text is %s, page %s", what, clipTo(body, 80), clipTo(string(h.Body), 300))
	}
	switch what {
	case "metric":
		if strings.TrimSpace(body) != t.metrics[list[0]] {
			return fmt.Errorf("text of a metric is %q, want %s", body, t.metrics[list[0]])
		}
	case "directory":
		var want strings.Builder
		for _, p := range list {
			want.WriteString(t.root + "/" + p + " " + t.metrics[p] + "\n")
		}
		if body != want.String() {
			return fmt.Errorf("text is %q, want %q", body, want.String())
		}
	}
	text := strings.Join(htmlText(string(h.Body)), " ") + " "
	var words map[string]bool // of large pages
	if len(t.metrics) > 500 {
		words = map[string]bool{}
		for _, wd := range strings.Fields(text) {
			words[wd] = true
		}
	}
	for p := range t.metrics {
		direct := what == "metric" && list[0] == p
		if c := comps(p); what == "directory" && strings.Join(c[:len(c)-1], "/") == strings.Join(comps(req), "/") {
			direct = true
		}
		shown := words[t.root+"/"+p]
		if !shown && (words == nil || direct) {
			shown = strings.Contains(text, strings.Join(strings.Fields(t.root+"/"+p), " ")+" ")
		}
		if shown != direct && !(shown && t.prefixed(p)) {
			return fmt.Errorf("page of %s shows %s: %v", what, p, shown)
		}
	}
	return nil
}

// prefixed tells whether the text of a path may also be part of the text of another.
func (t *c20Tree) prefixed(p string) bool {
	for q := range t.metrics {
		if q != p && strings.Contains(q, p) {
			return true
		}
	}
	for q := range t.dirs {
		if q != p && strings.Contains(q, p) {
			return true
		}
	}
	return false
}

// c20Paths are all request paths of up to n components.
func c20Paths(alphabet []string, n int) (out []string) {
	var rec func(p string, n int)
	rec = func(p string, n int) {
		if p != "" {
			out = append(out, p)
		}
		if n == 0 {
			return
		}
		for _, c := range alphabet {
			rec(p+"/"+c, n-1)
		}
	}
	rec("", n)
	return
}

var c20Universe = []c20Reg{{"m", false, 0}, {"a/m", false, 1}, {"a/b/m", false, 2}, {"a/b", false, 0}, {"a", true, 0}, {"e/b", true, 0}, {"m/b", false, 0}, {"b/a", false, 0}}

// names that need care in URLs and pages
var c20Names = []string{"x y", "a%20b", "a%2Fb", "q?r", "f#g", "é", "a+b", "a;b", "a&b=c", "~t", "a:b", "日本", "A", "a.b", "..a", "a..", "...", "-", "%", "@", "'", "\"", "<i>", "a\\b", "*", " lead", "trail "}

func c20Special(w *W) {
	for i, a := range c20Names {
		for j, b := range c20Names {
			execCount++
			t := &c20Tree{root: fmt.Sprintf("/x%d", execCount)}
			t.build([]c20Reg{{a, false, 0}, {b + "/" + a, false, 1}, {"d/" + b, false, 0}, {"d/" + a + "x/y", false, 0}})
			for _, req := range []string{"/" + a, "/" + b, "/" + b + "/" + a, "/d/" + b, "/d/" + a, "/d", "/" + a + "/" + b, "", "/" + b + "/"} {
				w.Eval()
				desc := fmt.Sprintf("names %q %q, request %q", a, b, req)
				w.cur = func() string { return desc }
				if err := t.judge(w, c20Local, req, c20Encodings[:2]); err != nil {
					w.Fail("special", "%s: %v", desc, err)
				}
				w.State(fmt.Sprint(i, j, req))
				w.Trace()
				w.Sample(desc)
			}
			tricorder.UnregisterPath(t.root)
		}
	}
}

func c20Task(w *W, part, parts int) {
	alphabet := []string{"a", "b", "m", "e", "x", "", " "}
	depth := 3
	if w.tier == "thorough" {
		depth = 4
	}
	paths := append([]string{""}, c20Paths(alphabet, depth)...)
	for set := part; set < 1<<len(c20Universe); set += parts {
		var regs []c20Reg
		for i, r := range c20Universe {
			if set>>i&1 == 1 {
				regs = append(regs, r)
			}
		}
		execCount++
		t := &c20Tree{root: fmt.Sprintf("/x%d", execCount)}
		if len(regs) > 0 {
			t.build(regs)
		} else {
			t.metrics, t.dirs = map[string]string{}, map[string]bool{}
		}
		for k, req := range paths {
			w.Eval()
			desc := fmt.Sprintf("tree %v, request %q", regs, req)
			w.cur = func() string { return desc }
			encs := c20Encodings[:2]
			if k%7 == 0 {
				encs = c20Encodings
			}
			if err := t.judge(w, c20Local, req, encs); err != nil {
				w.Fail("disagree", "%s: %v", desc, err)
			}
			w.State(fmt.Sprint(set, req))
			w.Trace()
			w.Sample(desc)
		}
		if len(regs) > 0 {
			tricorder.UnregisterPath(t.root)
		}
	}
}

// c20Scale asks for trees with long paths, long names, wide directories and large bodies.
func c20Scale(w *W, part, parts int) {
	for i := part; i < len(c04Sizes); i += parts {
		n := c04Sizes[i]
		run := func(what string, regs []c20Reg, reqs []string, encs []string) {
			execCount++
			t := &c20Tree{root: fmt.Sprintf("/x%d", execCount)}
			t.build(regs)
			for _, req := range reqs {
				w.Eval()
				desc := fmt.Sprintf("%s of size %d, request %q", what, n, clipTo(req, 300))
				w.cur = func() string { return desc }
				if err := t.judge(w, c20Local, req, encs); err != nil {
					w.Fail("scale", "%s: %s", desc, clipTo(err.Error(), 1000))
				}
				w.State(fmt.Sprint(what, n, req))
				w.Trace()
				w.Sample(desc)
			}
			tricorder.UnregisterPath(t.root)
		}
		deep := strings.Repeat("a/", n)
		run("path", []c20Reg{{deep + "m", false, i % 3}, {deep + "b/m", false, 0}, {deep + "e", true, 0}, {deep[:len(deep)-2] + "z", false, 1}},
			[]string{"", "/" + deep + "m", "/" + deep + "m/", "/" + deep, "/" + deep + "b", "/" + deep + "e", "/" + deep + "x", "/" + deep + "m/x", "/" + deep + "b/m", "/" + deep[:n], "/" + deep[:len(deep)-2] + "z"}, c20Encodings[:2])
		long := strings.Repeat("é", n/2) + strings.Repeat("n", n%2)
		run("name", []c20Reg{{long, false, i % 3}, {long + "a", false, 1}, {long + "b/" + long, false, 2}, {"d/" + long + "b", false, 0}, {long + "e", true, 0}},
			[]string{"", "/" + long, "/" + long + "a", "/" + long + "b", "/" + long + "b/" + long, "/" + long + "e", "/" + long + "c", "/" + long[:len(long)-1], "/d/" + long + "b", "/d/" + long}, c20Encodings[:2])
		for _, k := range []int{n, 10 * n} {
			var regs []c20Reg
			for j := 0; j < k; j++ {
				regs = append(regs, c20Reg{fmt.Sprintf("w/m%d", j), false, j % 3})
				if j%10 == 0 {
					regs = append(regs, c20Reg{fmt.Sprintf("w/d%d/m", j), false, 0}, c20Reg{fmt.Sprintf("w/e%d", j), true, 0})
				}
			}
			last := fmt.Sprintf("/w/m%d", k-1)
			run("directory", regs, []string{"", "/w", last, last + "0"}, c20Encodings)
		}
	}
}

// c20Bytes asks for listings of more and more bytes.
func c20Bytes(w *W, part int) {
	sizes := []int{1, 2, 5, 10}
	if w.tier == "thorough" {
		sizes = append(sizes, 20, 40)
	}
	for _, n := range sizes {
		var regs []c20Reg
		for j := 0; j < 300*n; j++ {
			name := fmt.Sprintf("w/m%d%s", j, strings.Repeat("n", 40*part*(j%50)))
			regs = append(regs, c20Reg{name, false, j % 3})
			if j%10 == 0 {
				regs = append(regs, c20Reg{fmt.Sprintf("w/d%d/m", j), false, 0}, c20Reg{fmt.Sprintf("w/e%d", j), true, 0})
			}
		}
		execCount++
		t := &c20Tree{root: fmt.Sprintf("/x%d", execCount)}
		t.build(regs)
		for _, req := range []string{"", "/w", "/w/d0"} {
			w.Eval()
			desc := fmt.Sprintf("%d metrics with names of up to %d bytes, request %q", len(regs), 40*part*50, req)
			w.cur = func() string { return desc }
			if err := t.judge(w, c20Local, req, c20Encodings[:2]); err != nil {
				w.Fail("bytes", "%s: %s", desc, clipTo(err.Error(), 1000))
			}
			w.State(desc)
			w.Trace()
			w.Sample(desc)
		}
		tricorder.UnregisterPath(t.root)
	}
}

// c20Server repeats some of the requests through a real server and connection.
func c20Server(w *W) {
	defer func() {
		if r := recover(); r != nil && strings.Contains(fmt.Sprint(r), "httptest") {
			return // no network at all
		}
	}()
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	ln.Close()
	mux := http.NewServeMux()
	mux.Handle("/", http.DefaultServeMux)
	mux.Handle(rpc.DefaultRPCPath, rpc.DefaultServer)
	srv := httptest.NewServer(mux)
	defer srv.Close()
	client := &http.Client{Transport: &http.Transport{DisableCompression: true}}
	rc, err := rpc.DialHTTP("tcp", srv.Listener.Addr().String())
	if err != nil {
		w.Fail("dial", "cannot reach the RPC service: %v", err)
		return
	}
	defer rc.Close()
	src := &c20Source{
		get: func(rawurl string, hdr ...string) *resp {
			req, err := http.NewRequest("GET", srv.URL+rawurl, nil)
			if err != nil {
				return &resp{Code: -1, Hdr: http.Header{}, Body: []byte(err.Error())}
			}
			for i := 0; i+1 < len(hdr); i += 2 {
				req.Header.Set(hdr[i], hdr[i+1])
			}
			res, err := client.Do(req)
			if err != nil {
				return &resp{Code: -1, Hdr: http.Header{}, Body: []byte(err.Error())}
			}
			defer res.Body.Close()
			b, err := io.ReadAll(res.Body)
			if err != nil {
				return &resp{Code: -1, Hdr: http.Header{}, Body: []byte(err.Error())}
			}
			return &resp{Code: res.StatusCode, Hdr: res.Header, Body: b}
		},
		list: func(path string) (l messages.MetricList, err error) {
			err = rc.Call("MetricsServer.ListMetrics", path, &l)
			return
		},
		one: func(path string) (*messages.Metric, error) {
			var m messages.Metric
			err := rc.Call("MetricsServer.GetMetric", path, &m)
			return &m, err
		},
	}
	execCount++
	t := &c20Tree{root: fmt.Sprintf("/x%d", execCount)}
	t.build(c20Universe)
	defer tricorder.UnregisterPath(t.root)
	for _, req := range append([]string{""}, c20Paths([]string{"a", "b", "m", "x", ""}, 3)...) {
		w.Eval()
		w.cur = func() string { return "real server, request " + req }
		if err := t.judge(w, src, req, c20Encodings); err != nil {
			w.Fail("server", "through a real server, request %q: %v", req, err)
		}
		w.State("server " + req)
		w.Trace()
	}
	// whole tree: other metrics too
	for _, u := range []string{"/metricsapi", "/metricsapi/", "/metricsapi?singleton=true", "/metrics", "/metrics/", "/metrics?format=text", "/has-tricorder-metrics", "/metricsstatic/theme.css"} {
		w.Eval()
		r := src.get(u)
		want := 200
		if strings.Contains(u, "singleton") {
			want = 404
		}
		if r.Code != want || len(r.Body) == 0 {
			w.Fail("root", "%s answers %d with %d bytes", u, r.Code, len(r.Body))
		}
		w.Trans(1)
		w.Trace()
		w.State(u)
	}
}

func init() {
	define(&Def{ID: "C20", Rule: "every tree over a set of conflicting registrations (metrics of several kinds, empty and nested directories) x every request path up to a length over existing, missing, empty and blank components (of every white space), and trees with names that need escaping, with long paths and names and with wide directories, asked through every endpoint and encoding; compared with a plain tree and with each other, in process and through a real HTTP and RPC connection; every pair of headers that clients send, which change nothing",
		Tasks: func(tier string) []string {
			out := []string{"server", "special"}
			for i := 0; i < 16; i++ {
				out = append(out, fmt.Sprintf("enc/%d", i))
			}
			for i := 0; i < 16; i++ {
				out = append(out, fmt.Sprintf("scale/%d", i))
			}
			for i := 0; i < 4; i++ {
				out = append(out, fmt.Sprintf("bytes/%d", i))
			}
			for i := 0; i < 32; i++ {
				out = append(out, fmt.Sprintf("trees/%d", i))
			}
			return out
		},
		Do: func(w *W, name string) {
			var i int
			if n, _ := fmt.Sscanf(name, "enc/%d", &i); n == 1 {
				c20Enc(w, i, 16)
				return
			}
			if n, _ := fmt.Sscanf(name, "bytes/%d", &i); n == 1 {
				c20Bytes(w, i)
				return
			}
			if n, _ := fmt.Sscanf(name, "scale/%d", &i); n == 1 {
				c20Scale(w, i, 16)
				return
			}
			switch name {
			case "server":
				c20Server(w)
			case "special":
				c20Special(w)
			default:
				fmt.Sscanf(name, "trees/%d", &i)
				c20Task(w, i, 32)
			}
		}})
}
