package main

import (
	"fmt"
	"html"
	"net/url"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// ptag is a tag of a page as a browser sees it.
type ptag struct {
	name  string
	attrs [][2]string
}

// tokenize splits a page into tags and text following the HTML tokenization rules for data and
// tags; comments, declarations and processing instructions are tags of their own.
func tokenize(s string) (tags []ptag, text string) {
	var tb strings.Builder
	i := 0
	ws := func(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\f' || c == '\r' }
	letter := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	for i < len(s) {
		if s[i] != '<' || i+1 >= len(s) {
			tb.WriteByte(s[i])
			i++
			continue
		}
		c := s[i+1]
		switch {
		case c == '!' || c == '?':
			j := strings.IndexByte(s[i:], '>')
			if j < 0 {
				j = len(s) - i - 1
			}
			tags = append(tags, ptag{name: s[i+1 : i+j]})
			i += j + 1
			tb.WriteByte(' ')
		case letter(c) || c == '/' && i+2 < len(s) && letter(s[i+2]):
			j := i + 1
			for j < len(s) && !ws(s[j]) && s[j] != '>' && (s[j] != '/' || j == i+1) {
				j++
			}
			t := ptag{name: strings.ToLower(s[i+1 : j])}
			for j < len(s) && s[j] != '>' {
				if ws(s[j]) || s[j] == '/' {
					j++
					continue
				}
				k := j
				if s[k] == '=' {
					k++
				}
				for k < len(s) && !ws(s[k]) && s[k] != '=' && s[k] != '>' && s[k] != '/' {
					k++
				}
				name := strings.ToLower(s[j:k])
				val := ""
				for k < len(s) && ws(s[k]) {
					k++
				}
				if k < len(s) && s[k] == '=' {
					k++
					for k < len(s) && ws(s[k]) {
						k++
					}
					if k < len(s) && (s[k] == '"' || s[k] == '\'') {
						e := strings.IndexByte(s[k+1:], s[k])
						if e < 0 {
							e = len(s) - k - 1
						}
						val = s[k+1 : k+1+e]
						k += e + 2
					} else {
						e := k
						for e < len(s) && !ws(s[e]) && s[e] != '>' {
							e++
						}
						val = s[k:e]
						k = e
					}
				}
				t.attrs = append(t.attrs, [2]string{name, html.UnescapeString(val)})
				j = k
			}
			tags = append(tags, t)
			i = j + 1
			tb.WriteByte(' ')
		default:
			tb.WriteByte(s[i])
			i++
		}
	}
	return tags, html.UnescapeString(tb.String())
}

// skeleton is the markup of a page without the targets of its links.
func skeleton(tags []ptag) string {
	var b strings.Builder
	for _, t := range tags {
		b.WriteString("<" + t.name)
		for _, a := range t.attrs {
			v := a[1]
			if t.name == "a" && a[0] == "href" {
				v = "*"
			}
			fmt.Fprintf(&b, " %s=%q", a[0], v)
		}
		b.WriteString(">")
	}
	return b.String()
}

func pageLinks(tags []ptag) (out []string) {
	for _, t := range tags {
		if t.name == "a" {
			for _, a := range t.attrs {
				if a[0] == "href" {
					out = append(out, a[1])
				}
			}
		}
	}
	return
}

// fold normalises a text as a page shows it.
func fold(s string) string {
	s = strings.Map(func(r rune) rune {
		if r == utf8.RuneError || r < 32 && r != '\n' && r != '\t' || r == 127 {
			return ' '
		}
		return r
	}, s)
	return strings.Join(strings.Fields(s), " ")
}

func securityErr(r *resp) error {
	if x := r.Hdr.Get("X-Frame-Options"); x != "DENY" {
		return fmt.Errorf("X-Frame-Options is %q", x)
	}
	if x := r.Hdr.Get("X-XSS-Protection"); !strings.HasPrefix(x, "1") {
		return fmt.Errorf("X-XSS-Protection is %q", x)
	}
	x := r.Hdr.Get("Content-Security-Policy")
	def := false
	for _, d := range strings.Split(x, ";") {
		f := strings.Fields(d)
		if len(f) == 2 && f[0] == "default-src" && (f[1] == "'self'" || f[1] == "'none'") {
			def = true
		}
		if len(f) > 0 && (f[0] == "script-src" || f[0] == "default-src") && strings.Contains(d, "unsafe") {
			return fmt.Errorf("Content-Security-Policy is %q", x)
		}
	}
	if !def {
		return fmt.Errorf("Content-Security-Policy is %q", x)
	}
	return nil
}

type c21Strings struct{ name, desc, unit, val string }

var c21Kinds = []string{"string", "callback", "int", "list", "dist", "dir"}

// c21Page registers one entry with the given strings and fetches its pages.
func c21Page(kind string, s c21Strings) (root string, pages []*resp, urls []string) {
	execCount++
	root = fmt.Sprintf("/x%07d", execCount) // always as long, for comparison
	path := root + "/" + s.name
	var spec any
	switch kind {
	case "string":
		spec = &s.val
	case "callback":
		spec = func() string { return s.val }
	case "int":
		v := int64(5)
		spec = &v
	case "list":
		spec = tricorder.NewList([]string{"x", s.val, s.val}, tricorder.ImmutableSlice)
	case "dist":
		d := tricorder.NewArbitraryBucketer(1, 2).NewCumulativeDistribution()
		spec = d
	case "dir":
		path += "/in"
		spec = &s.val
	}
	must(tricorder.RegisterMetricInGroup(path, spec, fixedGroup(), units.Unit(s.unit), s.desc))
	if d, ok := spec.(*tricorder.CumulativeDistribution); ok {
		d.Add(1.5)
		d.Add(7.0)
	}
	for _, u := range []string{htmlURL(root), htmlURL(root + "/" + s.name)} {
		pages = append(pages, fetch(u))
		urls = append(urls, u)
	}
	return
}

var c21Benign = map[string][2]string{}

func c21One(w *W, kind string, s c21Strings) {
	w.Eval()
	desc := fmt.Sprintf("%s named %q, description %q, unit %q, value %q", kind, s.name, s.desc, s.unit, s.val)
	w.cur = func() string { return desc }
	ben, ok := c21Benign[kind]
	if !ok {
		root, pages, _ := c21Page(kind, c21Strings{"name", "description", "unit", "value"})
		for i, p := range pages {
			tags, _ := tokenize(string(p.Body))
			ben[i] = skeleton(tags)
		}
		tricorder.UnregisterPath(root)
		c21Benign[kind] = ben
	}
	root, pages, urls := c21Page(kind, s)
	defer tricorder.UnregisterPath(root)
	for i, p := range pages {
		if p.Code != 200 || p.Panic != "" {
			w.Fail("page", "%s: page %d answers %d %s", desc, i, p.Code, p.Panic)
			return
		}
		tags, text := tokenize(string(p.Body))
		if sk := skeleton(tags); sk != ben[i] {
			w.Fail("markup", "%s: the page's markup is %s, with harmless strings %s", desc, clipTo(sk, 600), clipTo(ben[i], 600))
			return
		}
		if err := securityErr(p); err != nil {
			w.Fail("headers", "%s: %v", desc, err)
			return
		}
		w.Trans(1)
		text = fold(text)
		need := []string{root + "/" + s.name}
		if kind != "dir" || i == 1 {
			if kind == "dir" {
				need[0] += "/in"
			}
			need = append(need, s.desc)
			if s.unit != string(units.None) {
				need = append(need, s.unit)
			}
			if kind != "int" && kind != "dist" {
				need = append(need, s.val)
			}
		}
		for _, n := range need {
			if utf8.ValidString(n) && !strings.ContainsAny(n, "\x00\ufffd") && !strings.Contains(text, fold(n)) {
				w.Fail("text", "%s: the page shows %q, which lacks %q", desc, text, fold(n))
				return
			}
		}
		if kind == "dir" && i == 0 {
			links := pageLinks(tags)
			base, _ := url.Parse(urls[0])
			ref, err := url.Parse(links[0])
			if err != nil {
				w.Fail("link", "%s: the link %q is not a URL: %v", desc, links[0], err)
				return
			}
			got := fetch(base.ResolveReference(ref).String())
			if got.Code != 200 || string(got.Body) != string(pages[1].Body) {
				w.Fail("link", "%s: the link %q leads to %d %s, not to the page of the directory %s", desc, links[0], got.Code, clipTo(string(got.Body), 300), clipTo(string(pages[1].Body), 300))
				return
			}
			w.Trans(1)
		}
	}
	w.State(desc)
	w.Trace()
	w.Sample(desc)
}

func c21Payloads(tier string) (out []string) {
	for r := rune(1); r < 256; r++ {
		out = append(out, "a"+string(r)+"b")
	}
	for b := 128; b < 256; b += 9 {
		out = append(out, "a"+string([]byte{byte(b)})+"b")
	}
	out = append(out, "<script>alert(1)</script>", "\"><script>alert(1)</script>", "' onmouseover='x", "\" onmouseover=\"x", "</span><b>x</b>", "<img src=x onerror=y>", "<!-- x", "-->", "<!x>", "<?x?>", "]]>",
		"&lt;b&gt;", "&#60;b>", "&amp;", "&", "&quot;", "javascript:alert(1)", "{{.}}", "{{template \"METRIC\" .}}", "%3Cb%3E", "+ADw-script+AD4-", "\\u003cb\\u003e", "<\x00b>", "a\u2028b", "\ufeff", "日本語", "😀", "</title>", "</body></html>", "<a href=x>", "x' y", "`", "style=\"x\"")
	set := "<>\"'&`=;{}(#\\a "
	for _, a := range set {
		for _, b := range set {
			out = append(out, string(a)+string(b)+"x", "x"+string(a)+string(b))
			if tier == "thorough" {
				for _, c := range set {
					out = append(out, string(a)+string(b)+string(c)+"x", "x"+string(a)+string(b)+string(c))
				}
			}
		}
	}
	return
}

// c21Crawl follows the links from a directory and compares what the pages show with the tree.
func c21Crawl(w *W, t *c20Tree, desc string) {
	var visit func(dir, rawurl string)
	shown := map[string]int{}
	visit = func(dir, rawurl string) {
		r := fetch(rawurl)
		w.Trans(1)
		abs := t.root
		if dir != "" {
			abs += "/" + dir
		}
		direct := fetch(htmlURL(abs))
		if r.Code != 200 || string(r.Body) != string(direct.Body) {
			w.Fail("crawl-link", "%s: the link %q leads to %d %s, not to the page of %q", desc, rawurl, r.Code, clipTo(string(r.Body), 200), dir)
			return
		}
		if err := securityErr(r); err != nil {
			w.Fail("headers", "%s: %v", desc, err)
		}
		tags, text := tokenize(string(r.Body))
		words := strings.Fields(text)
		// metrics directly in it
		for p, v := range t.metrics {
			n := 0
			for i, wd := range words {
				if wd == t.root+"/"+p && i+1 < len(words) {
					n++
				}
			}
			c := comps(p)
			want := 0
			if strings.Join(c[:len(c)-1], "/") == dir {
				want = 1
				shown[p]++
			}
			if n != want {
				w.Fail("crawl-metrics", "%s: the page of %q shows %s %d times, want %d", desc, dir, p, n, want)
			}
			if want == 0 && strings.HasPrefix(v, "\"") && strings.Contains(text, v) {
				w.Fail("crawl-inside", "%s: the page of %q shows the value %s of %s", desc, dir, v, p)
			}
		}
		var subs []string
		for d := range t.dirs {
			if c := comps(d); d != "" && strings.Join(c[:len(c)-1], "/") == dir {
				subs = append(subs, d)
			}
		}
		sort.Strings(subs)
		links := pageLinks(tags)
		base, _ := url.Parse(rawurl)
		targets := map[string]string{}
		for _, l := range links {
			ref, err := url.Parse(l)
			if err != nil {
				w.Fail("crawl-link", "%s: link %q: %v", desc, l, err)
				return
			}
			u := base.ResolveReference(ref)
			c := comps(strings.TrimPrefix(u.Path, "/metrics"+t.root))
			targets[strings.Join(c, "/")] = u.String()
		}
		if len(links) != len(subs) {
			w.Fail("crawl-links", "%s: the page of %q has the links %q for the directories %q", desc, dir, links, subs)
			return
		}
		for _, s := range subs {
			u, ok := targets[s]
			if !ok {
				w.Fail("crawl-links", "%s: the page of %q has the links %q, none for %q", desc, dir, links, s)
				return
			}
			visit(s, u)
		}
	}
	visit("", htmlURL(t.root))
	for p := range t.metrics {
		if shown[p] != 1 {
			w.Fail("crawl-missing", "%s: following the links from the top shows %s %d times", desc, p, shown[p])
		}
	}
}

func c21Trees(w *W, part, parts int) {
	univ := append(append([]c20Reg{}, c20Universe...), c20Reg{"a/b/c/d/e", false, 2}, c20Reg{"z%41/é", false, 2}, c20Reg{"a/B", false, 2})
	for set := part; set < 1<<len(univ); set += parts {
		if set == 0 {
			continue
		}
		var regs []c20Reg
		for i, r := range univ {
			if set>>i&1 == 1 {
				regs = append(regs, r)
			}
		}
		w.Eval()
		desc := fmt.Sprintf("tree %v", regs)
		w.cur = func() string { return desc }
		execCount++
		t := &c20Tree{root: fmt.Sprintf("/x%d", execCount)}
		t.build(regs)
		c21Crawl(w, t, desc)
		tricorder.UnregisterPath(t.root)
		w.State(desc)
		w.Trace()
		w.Sample(desc)
	}
	// missing pages carry the headers too
	for _, u := range []string{"/metrics/no/such", "/metrics/", "/has-tricorder-metrics"} {
		if r := fetch(u); r.Code != 200 || securityErr(r) != nil {
			w.Fail("headers", "%s: %d %v", u, r.Code, securityErr(r))
		}
	}
}

// c21Scale crawls trees with long names, deep directories and wide ones.
func c21Scale(w *W, part, parts int) {
	run := func(desc string, regs []c20Reg) {
		w.Eval()
		w.cur = func() string { return desc }
		execCount++
		t := &c20Tree{root: fmt.Sprintf("/x%d", execCount)}
		t.build(regs)
		c21Crawl(w, t, desc)
		tricorder.UnregisterPath(t.root)
		w.State(desc)
		w.Trace()
		w.Sample(desc)
	}
	sizes := scaleSizes(w.tier, 20, 1<<14+2)
	for i := part; i < len(sizes); i += parts {
		n := sizes[i]
		for k, ch := range []string{"n", "%", "é"} {
			long := strings.Repeat(ch, (n+len(ch)-1)/len(ch))
			run(fmt.Sprintf("names of %d bytes of %q", len(long), ch), []c20Reg{{long + "/" + long + "/" + long, false, k}, {long + "a/" + long, false, 2}, {long + "m", false, 1}, {long + "/e", true, 0}})
		}
		if n <= 400 {
			deep := strings.Repeat("a/", n)
			run(fmt.Sprintf("%d levels", n), []c20Reg{{deep + "m", false, 2}, {deep + "b/m", false, 0}, {deep + "e", true, 0}, {deep[:len(deep)-2] + "z", false, 1}})
		}
		if n <= 1100 {
			var regs []c20Reg
			for j := 0; j < n; j++ {
				regs = append(regs, c20Reg{fmt.Sprintf("w/m%d", j), false, j % 3})
				if j%10 == 0 || j == n-1 {
					regs = append(regs, c20Reg{fmt.Sprintf("w/d%d/m", j), false, 0}, c20Reg{fmt.Sprintf("w/e%d", j), true, 0})
				}
			}
			run(fmt.Sprintf("directory of size %d", n), regs)
		}
	}
}

// c21Missing asks for paths that do not exist and passes odd parameters: nothing of the request becomes markup.
func c21Missing(w *W, part, parts int) {
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	one := int64(5)
	must(tricorder.RegisterMetricInGroup(dir+"/there", &one, fixedGroup(), units.None, "d"))
	defer tricorder.UnregisterPath(dir)
	markup := func(r *resp) string {
		tags, _ := tokenize(string(r.Body))
		return skeleton(tags)
	}
	shapes := []func(p string) (asked, harmless string){
		func(p string) (string, string) { return htmlURL("/" + p), htmlURL("/none") },
		func(p string) (string, string) { return htmlURL(dir + "/" + p), htmlURL(dir + "/none") },
		func(p string) (string, string) { return htmlURL(dir + "/there/" + p), htmlURL(dir + "/there/none") },
		func(p string) (string, string) {
			return htmlURL(dir) + "?" + url.QueryEscape(p) + "=" + url.QueryEscape(p), htmlURL(dir) + "?none=none"
		},
		func(p string) (string, string) {
			return htmlURL(dir+"/there") + "?format=" + url.QueryEscape(p), htmlURL(dir+"/there") + "?format=none"
		},
		func(p string) (string, string) {
			return htmlURL("/none") + "?format=" + url.QueryEscape(p), htmlURL("/none") + "?format=none"
		},
		func(p string) (string, string) { return textURL(dir + "/" + p), textURL(dir + "/none") },
		func(p string) (string, string) { return jsonURL(dir + "/" + p), jsonURL(dir + "/none") },
		func(p string) (string, string) { return jsonOneURL(dir + "/" + p), jsonOneURL(dir + "/none") },
	}
	for i, p := range c21Payloads(w.tier) {
		if i%parts != part {
			continue
		}
		for si, f := range shapes {
			asked, harmless := f(strings.ReplaceAll(p, "/", "|"))
			w.Eval()
			desc := "request for " + asked
			w.cur = func() string { return desc }
			got, want := fetch(asked), fetch(harmless)
			w.Trans(2)
			if got.Panic != "" || want.Panic != "" {
				w.Fail("missing-panic", "%s: %s %s", desc, got.Panic, want.Panic)
			}
			ct := got.Hdr.Get("Content-Type")
			if si >= 6 && (strings.HasPrefix(ct, "text/plain") || strings.HasPrefix(ct, "application/json")) {
				continue // not taken for a page
			}
			if markup(got) != markup(want) {
				w.Fail("missing-markup", "%s: the page's markup is %s, with harmless strings %s", desc, clipTo(markup(got), 300), clipTo(markup(want), 300))
			}
			if si < 6 {
				if err := securityErr(got); err != nil {
					w.Fail("headers", "%s: %v", desc, err)
				}
			}
			w.State(desc)
			w.Trace()
		}
	}
}

func init() {
	define(&Def{ID: "C21", Rule: "every character up to U+00FF and every short combination of markup characters in the name, description, unit and value of every kind of metric and as directory name: the page tokenized as a browser does has exactly the markup of the page with harmless strings, shows the strings as text and its links lead to the directory; every tree over a set of registrations, and trees with long names, deep and wide ones, crawled from their top; requests for missing paths and with odd parameters holding the same strings, whose pages have the markup of harmless ones; every pair of headers that clients send, which change nothing",
		Tasks: func(tier string) (out []string) {
			for _, k := range c21Kinds {
				for p := 0; p < 8; p++ {
					out = append(out, fmt.Sprintf("inject/%s/%d", k, p))
				}
			}
			for i := 0; i < 16; i++ {
				out = append(out, fmt.Sprintf("trees/%d", i))
			}
			for i := 0; i < 16; i++ {
				out = append(out, fmt.Sprintf("scale/%d", i))
			}
			for i := 0; i < 4; i++ {
				out = append(out, fmt.Sprintf("missing/%d", i))
			}
			return
		},
		Do: func(w *W, name string) {
			f := strings.Split(name, "/")
			if f[0] == "trees" {
				var i int
				fmt.Sscanf(f[1], "%d", &i)
				c21Trees(w, i, 16)
				return
			}
			if f[0] == "scale" {
				var i int
				fmt.Sscanf(f[1], "%d", &i)
				c21Scale(w, i, 16)
				return
			}
			if f[0] == "missing" {
				var i int
				fmt.Sscanf(f[1], "%d", &i)
				c21Missing(w, i, 4)
				return
			}
			var part int
			fmt.Sscanf(f[2], "%d", &part)
			for i, p := range c21Payloads(w.tier) {
				if i%8 != part {
					continue
				}
				ok := "okay"
				name := strings.ReplaceAll(p, "/", "|")
				for _, s := range []c21Strings{{name, ok, "u", ok}, {"n", p, "u", ok}, {"n", ok, p, ok}, {"n", ok, "u", p}, {name, p, p, p}} {
					c21One(w, f[1], s)
				}
			}
		}})
}
