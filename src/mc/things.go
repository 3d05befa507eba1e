package main

import (
	"flag"
	"fmt"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// requestHeaders are headers that browsers, proxies and programs send along.
var requestHeaders = []string{
	"Accept", "*/*", "Accept", "application/json", "Accept", "text/html,application/xhtml+xml;q=0.9", "Accept", "text/plain", "Accept", "",
	"Accept-Charset", "iso-8859-1", "Accept-Language", "de", "Authorization", "Basic eDp5", "Cache-Control", "no-cache", "Connection", "close",
	"Content-Type", "application/json", "Content-Length", "0", "Cookie", "a=b", "DNT", "1", "Expect", "", "Forwarded", "for=10.0.0.1;proto=https",
	"From", "a@b.c", "If-Modified-Since", "Fri, 01 Jan 2100 00:00:00 GMT", "If-None-Match", "\"x\"", "Origin", "http://elsewhere", "Origin", "null",
	"Pragma", "no-cache", "Range", "bytes=0-0", "Referer", "http://elsewhere/", "Sec-Fetch-Dest", "iframe", "Sec-Fetch-Mode", "cors", "Sec-Fetch-Site", "same-origin",
	"TE", "trailers", "Upgrade-Insecure-Requests", "1", "User-Agent", "", "User-Agent", "curl/7.0", "User-Agent", "Mozilla/5.0 <script>", "Via", "1.1 x",
	"X-Forwarded-For", "10.0.0.1", "X-Forwarded-Host", "elsewhere", "X-Forwarded-Proto", "https", "X-Requested-With", "XMLHttpRequest", "X-Real-Ip", "10.0.0.1",
	"X-Http-Method-Override", "DELETE", "X-Frame-Options", "SAMEORIGIN", "X-Tricorder-Media-Type", "tricorder.v2",
}

// headerPairs calls do with every header, and with every two different ones.
func headerPairs(do func(hdr ...string)) {
	for i := 0; i < len(requestHeaders); i += 2 {
		do(requestHeaders[i], requestHeaders[i+1])
		for j := i + 2; j < len(requestHeaders); j += 2 {
			if requestHeaders[i] != requestHeaders[j] {
				do(requestHeaders[i], requestHeaders[i+1], requestHeaders[j], requestHeaders[j+1])
			}
		}
	}
}

// headersTree registers a small tree with values that stay.
func headersTree() (dir string) {
	execCount++
	dir = fmt.Sprintf("/x%d", execCount)
	v, s := int64(5), "<b>"
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time { return time.Unix(1e9, 0) })
	must(tricorder.RegisterMetricInGroup(dir+"/a", &v, g, units.Byte, "a & b"))
	must(tricorder.RegisterMetricInGroup(dir+"/d/s", &s, g, units.None, "text"))
	return
}

func init() {
	one := func(string) []string { return []string{"headers"} }
	extend("C21", one, func(w *W, name string) {
		dir := headersTree()
		defer tricorder.UnregisterPath(dir)
		for _, sub := range []string{"", "/a", "/d", "/d/s", "/missing", "/a/missing"} {
			plain := fetch(htmlURL(dir + sub))
			headerPairs(func(hdr ...string) {
				w.Eval()
				what := fmt.Sprintf("page of %q asked for with %q", sub, hdr)
				w.cur = func() string { return what }
				r := fetch(htmlURL(dir+sub), hdr...)
				w.Trans(1)
				if r.Panic != "" || r.Code != plain.Code || string(r.Body) != string(plain.Body) {
					w.Fail("request-headers", "%s: %d %s%s, without %d %s", what, r.Code, r.Panic, clipTo(string(r.Body), 300), plain.Code, clipTo(string(plain.Body), 300))
				} else if plain.Code == 200 {
					if err := securityErr(r); err != nil {
						w.Fail("request-headers", "%s: %v", what, err)
					}
				}
				w.State(what)
				w.Trace()
				w.Sample(what)
			})
		}
	})
	extend("C20", one, func(w *W, name string) {
		dir := headersTree()
		defer tricorder.UnregisterPath(dir)
		for _, sub := range []string{"", "/a", "/d", "/d/s", "/missing", "/a/missing"} {
			for _, u := range []string{jsonURL(dir + sub), jsonOneURL(dir + sub), textURL(dir + sub), htmlURL(dir + sub)} {
				plain := fetch(u)
				headerPairs(func(hdr ...string) {
					w.Eval()
					what := fmt.Sprintf("%s asked for with %q", u[len("/metrics"):], hdr)
					w.cur = func() string { return what }
					r := fetch(u, hdr...)
					w.Trans(1)
					if r.Panic != "" || r.Code != plain.Code || string(r.Body) != string(plain.Body) || r.Hdr.Get("Content-Type") != plain.Hdr.Get("Content-Type") {
						w.Fail("request-headers", "%s: %d %s%s, without %d %s", what, r.Code, r.Panic, clipTo(string(r.Body), 300), plain.Code, clipTo(string(plain.Body), 300))
					}
					w.State(what)
					w.Trace()
					w.Sample(what)
				})
			}
		}
	})
}

// c26Types pairs things whose metrics are of every type.
func c26Types(w *W, first int) {
	es := elems()
	mk := func(i int) *thing {
		t := &thing{g: tricorder.DefaultGroup}
		if i < len(gkinds) {
			v := &gvars{}
			n := int64(1)
			v.set(n)
			t.kind = "group of " + gkinds[i].name
			t.g = tricorder.NewGroup()
			t.g.RegisterUpdateFunc(func() time.Time { n++; v.set(n); return time.Unix(1400000000+n, 0) })
			t.spec = gkinds[i].spec(v)
			return t
		}
		e := es[i-len(gkinds)]
		t.kind = "list of " + e.typ.String()
		l := tricorder.NewList(sliceOf(e.typ, e.vals, 0, 1).Interface(), tricorder.ImmutableSlice)
		t.spec = l
		t.change = func() { l.Change(sliceOf(e.typ, e.vals, 2).Interface(), tricorder.MutableSlice) }
		return t
	}
	us := []units.Unit{units.None, units.Second, units.Millisecond}
	for second := 0; second < len(gkinds)+len(es); second++ {
		w.Eval()
		execCount++
		dir := fmt.Sprintf("/x%d", execCount)
		things := []*thing{mk(first), mk(second)}
		desc := things[0].kind + " and " + things[1].kind
		w.cur = func() string { return desc }
		for i, t := range things {
			for j, name := range []string{"a", "b/c"} {
				p := fmt.Sprintf("%s/%d%s", dir, i, name)
				must(tricorder.RegisterMetricInGroup(p, t.spec, t.g, us[(first+second+i+j)%len(us)], ""))
				t.paths = append(t.paths, p)
			}
		}
		for round := 0; round < 2; round++ {
			judge := func(kind, path string) {
				got, err := readIDs(kind, path)
				if err == nil {
					err = judgeIDs(got, things)
				}
				if err != nil {
					w.Fail("types", "%s, %s of %s: %v", desc, kind, path, err)
				}
				w.Trans(1)
			}
			for _, kind := range []string{"inproc", "rpc", "json"} {
				judge(kind, dir)
			}
			for _, t := range things {
				for _, p := range t.paths {
					judge("rpc1", p)
					judge("json1", p)
				}
				coalesce(t.change)()
			}
		}
		tricorder.UnregisterPath(dir)
		w.State(desc)
		w.Trace()
		w.Sample(desc)
	}
}

var c24Names = []string{"test.v", "test.run", "test.x", "Test", "httpPort", "HTTPPort", "httpport", "http-port", "http_port", "http.port", "v", "V", "vmodule", "logtostderr", "alsologtostderr", "help", "h", "version", "0", "1a", "_", "_x", ".x", "x.", "a,b"}

// c24NamesRun registers every pair of names of flags with units of their own.
func c24NamesRun(w *W, first int) {
	ks := fkinds()
	by := map[string]fkind{}
	for _, k := range ks {
		by[k.name] = k
	}
	kinds := []fkind{by["int"], by["duration"], by["string"], by["bool-zero"]}
	usages := []string{"usage", "the `name` of it", "a `b` `c`", "``", "(default 5)", "usage.\nSecond line"}
	us := []units.Unit{"", units.Byte, units.Celsius}
	for second := first; second < len(c24Names); second++ {
		for n := 0; n < len(kinds)*len(usages); n++ {
			w.Eval()
			old := flag.CommandLine
			fs := flag.NewFlagSet("test", flag.ContinueOnError)
			flag.CommandLine = fs
			tricorder.UnregisterPath("/proc/flags")
			var flags []*aflag
			desc := ""
			for i, id := range []int{first, second} {
				if i == 1 && first == second {
					continue
				}
				f := &aflag{k: kinds[(n+i)%len(kinds)], name: c24Names[id], unit: us[id%len(us)]}
				if f.unit != "" {
					tricorder.SetFlagUnit(f.name, f.unit)
				}
				usage := usages[(n/len(kinds)+i)%len(usages)]
				f.k.define(fs, f.name, usage)
				flags = append(flags, f)
				desc += fmt.Sprintf("flag %q (%s) used as %q; ", f.name, f.k.name, usage)
			}
			w.cur = func() string { return desc }
			if p := catch(tricorder.RegisterFlags); p != nil {
				w.Fail("panic", "%sregistration panics: %v", desc, p)
			} else if p := catch(func() { c24Check(w, fs, flags, desc) }); p != nil {
				w.Fail("panic", "%slisting panics: %v", desc, p)
			}
			flag.CommandLine = old
			tricorder.UnregisterPath("/proc/flags")
			w.State(desc)
			w.Trace()
			w.Sample(desc)
		}
	}
}

var blanks = []string{"", " ", "  ", "\t", "\n", "\r\n", "\v", "\f", " \t ", "\u0085", "\u00a0", "\u2003", "\u3000", "\u2028"}

func init() {
	numbered := func(name string, n int) func(string) []string {
		return func(string) (out []string) {
			for i := 0; i < n; i++ {
				out = append(out, fmt.Sprintf("%s/%d", name, i))
			}
			return
		}
	}
	extend("C26", numbered("types", len(gkinds)+len(elems())), func(w *W, name string) {
		var n int
		fmt.Sscanf(name, "types/%d", &n)
		c26Types(w, n)
	})
	extend("C24", numbered("names", len(c24Names)), func(w *W, name string) {
		var n int
		fmt.Sscanf(name, "names/%d", &n)
		c24NamesRun(w, n)
	})
	extend("C20", numbered("blank", len(blanks)), func(w *W, name string) {
		var n int
		fmt.Sscanf(name, "blank/%d", &n)
		for _, other := range blanks {
			execCount++
			t := &c20Tree{root: fmt.Sprintf("/x%d", execCount)}
			t.build([]c20Reg{{"m", false, 0}, {"a/m", false, 1}, {"a/b", true, 0}})
			for _, parts := range [][]string{{}, {"m"}, {"a"}, {"a", "m"}, {"a", "b"}, {"a", "x"}, {"m", "a"}} {
				for i := 0; i <= len(parts); i++ {
					for j := i; j <= len(parts); j++ {
						req := "/" + strings.Join(append(append(append(append(append([]string{}, parts[:i]...), blanks[n]), parts[i:j]...), other), parts[j:]...), "/")
						w.Eval()
						desc := fmt.Sprintf("tree with m, a/m and a/b, request %q", req)
						w.cur = func() string { return desc }
						if err := t.judge(w, c20Local, req, c20Encodings[:1]); err != nil {
							w.Fail("blank", "%s: %v", desc, err)
						}
						w.State(desc)
						w.Trace()
						w.Sample(desc)
					}
				}
			}
			tricorder.UnregisterPath(t.root)
		}
	})
}
