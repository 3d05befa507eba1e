package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// Unusual strings in every place a user can put one, and lists far longer than the histories reach.

var oddCache sync.Map

// oddStrings are all strings up to a length over characters that mean something to some encoding,
// well known escape sequences, and long strings.
func oddStrings(tier string) []string {
	if c, ok := oddCache.Load(tier); ok {
		return c.([]string)
	}
	var out []string
	alphabet := []string{"\\", "u", "\"", "'", "<", "&", "%", " ", "\n", "\t", "a", "|", "é"}
	size, limit := 2, 1<<16+1
	if tier == "thorough" {
		size, limit = 3, 1<<18+1
	}
	var rec func(s string, left int)
	rec = func(s string, left int) {
		out = append(out, s)
		if left > 0 {
			for _, a := range alphabet {
				rec(s+a, left-1)
			}
		}
	}
	rec("", size)
	out = append(out, `\u0026`, `\u003c`, `\u003cb\u003e`, `\\u0026`, `\n`, `\t`, `\x41`, `\"`, `\\`, `\/`, `&amp;`, `&lt;`, `&#34;`, `&#x41;`, `%41`, `%2F`, `%s`, `%!d(x)`, `%%`,
		`{{.}}`, `{{`, `$1`, `${a}`, "`", "a+b", "a;b", "a=b", "a#b", "a?b", "null", "true", "0", "-1", "1e9", "NaN", "[]", "{}", "[1]", `{"a":1}`, "<!--", "-->", "]]>", "\u2028", "\u2029", "\ufeff", "\ufffd",
		"\u00a0", "  two  ", "\r", "\r\n", "a\r\nb", "\x00", "\x01", "\x1b", "\x7f", "日本語", "😀", "e\u0301", "\u202e", "TRUE", "İ", "ß", "ﬀ")
	for n := 1; n <= limit; n++ {
		if n <= 40 || n > 60 && n < 70 || n > 120 && n < 132 || n > 250 && n < 260 || n > 260 && interesting(n) && n != 300 || n == 1000 || n == 1001 {
			out = append(out, strings.Repeat("x", n), strings.Repeat("é", n/2+1), strings.Repeat("a ", n/2+1))
		}
	}
	seen := map[string]bool{}
	kept := out[:0]
	for _, s := range out {
		if !seen[s] {
			seen[s] = true
			kept = append(kept, s)
		}
	}
	oddCache.Store(tier, kept)
	return kept
}

const oddParts = 8

func oddTasks() (out []string) {
	for i := 0; i < oddParts; i++ {
		out = append(out, fmt.Sprintf("strings/%d", i))
	}
	for i := range elems() {
		out = append(out, fmt.Sprintf("long/%d", i))
	}
	return
}

// oddName: can the string be the name of a metric? Slashes separate names, blank names are dropped.
func oddName(s string) bool {
	return s != "" && !strings.Contains(s, "/") && strings.TrimSpace(s) != "" && len(s) < 5000
}

type oddJudge func(dir, path, desc string, u units.Unit, c vcase) error

// oddStringsRun puts every odd string at every place.
func oddStringsRun(w *W, part int, judge oddJudge) {
	g := fixedGroup()
	for i, s := range oddStrings(w.tier) {
		if i%oddParts != part {
			continue
		}
		for _, place := range []string{"variable", "callback", "list", "list2", "description", "unit", "name", "directory"} {
			if len(s) > 5000 && place != "variable" && place != "description" && place != "list2" {
				continue
			}
			execCount++
			dir := fmt.Sprintf("/x%d", execCount)
			path, desc, u := dir+"/n", "d", units.None
			one := "v"
			c := vcase{desc: place, spec: &one, kind: types.String, val: "v"}
			switch place {
			case "variable":
				one = s
				c.val = s
			case "callback":
				c.spec = func() string { return s }
				c.val = s
			case "list":
				c.spec, c.kind, c.sub, c.val = tricorder.NewList([]string{s}, tricorder.ImmutableSlice), types.List, types.String, []string{s}
			case "list2":
				c.spec, c.kind, c.sub, c.val = tricorder.NewList([]string{"a", s, s}, tricorder.MutableSlice), types.List, types.String, []string{"a", s, s}
			case "description":
				desc = s
			case "unit":
				u = units.Unit(s)
			case "name":
				if !oddName(s) {
					continue
				}
				path = dir + "/" + s
			case "directory":
				if !oddName(s) {
					continue
				}
				path = dir + "/" + s + "/n"
			}
			w.Eval()
			w.cur = func() string { return fmt.Sprintf("%s is %.100q", place, s) }
			err := tricorder.RegisterMetricInGroup(path, c.spec, g, u, desc)
			if err == nil {
				err = judge(dir, path, desc, u, c)
			}
			if err != nil {
				w.Fail("strings/"+place, "%s is %.100q (%d bytes): %.600s", place, s, len(s), err.Error())
			}
			tricorder.UnregisterPath(dir)
			w.State(fmt.Sprint(place, i))
			w.Trace()
			w.Sample(w.cur())
		}
	}
}

// longLists judges lists of an element type of many lengths, created and changed to.
func longLists(w *W, e elem, judge oddJudge) {
	limit := 4098
	full := e.typ == reflect.TypeOf(int64(0)) || e.typ == reflect.TypeOf("")
	if full {
		limit = 1<<16 + 1
	}
	if w.tier == "thorough" {
		limit, full = 1<<16+1, true
		if e.typ == reflect.TypeOf(int64(0)) {
			limit = 1<<20 + 1
		}
	}
	for n := 0; n <= limit; n++ {
		if !interesting(n) {
			continue
		}
		if !full && n > 40 && !(n >= 62 && n <= 66 || n >= 126 && n <= 130 || n >= 254 && n <= 258 || n > 300) {
			continue
		}
		for _, way := range []string{"immutable", "mutable", "changed", "changed mutable"} {
			if n > 5000 && way == "changed" {
				continue
			}
			s := reflect.MakeSlice(reflect.SliceOf(e.typ), n, n)
			want := reflect.MakeSlice(reflect.SliceOf(e.want), n, n)
			for i := 0; i < n; i++ {
				v := reflect.ValueOf(e.vals[(i*i/3)%len(e.vals)])
				want.Index(i).Set(v)
				s.Index(i).Set(v.Convert(e.typ))
			}
			execCount++
			dir := fmt.Sprintf("/x%d", execCount)
			w.Eval()
			w.cur = func() string { return fmt.Sprintf("%s list of %d %v", way, n, e.typ) }
			mut := strings.HasSuffix(way, "mutable") && way != "immutable"
			var l *tricorder.List
			if strings.HasPrefix(way, "changed") {
				l = tricorder.NewList(reflect.MakeSlice(reflect.SliceOf(e.typ), 3, 3).Interface(), tricorder.MutableSlice)
				l.Change(s.Interface(), mut)
			} else {
				l = tricorder.NewList(s.Interface(), mut)
			}
			if mut { // the caller goes on using the slice
				for i := 0; i < n; i++ {
					s.Index(i).Set(reflect.ValueOf(e.vals[(i*i/3+1)%len(e.vals)]).Convert(e.typ))
				}
			}
			c := vcase{desc: way + " list", spec: l, kind: types.List, sub: e.kind, bits: e.bits, val: want.Interface()}
			err := tricorder.RegisterMetricInGroup(dir+"/l", l, tricorder.DefaultGroup, units.None, "long")
			if err == nil {
				err = judge(dir, dir+"/l", "long", units.None, c)
			}
			if err != nil {
				w.Fail("long/"+way, "%s list of %d %v: %.600s", way, n, e.typ, err.Error())
			}
			tricorder.UnregisterPath(dir)
			w.State(fmt.Sprint(way, e.typ, n))
			w.Trace()
		}
	}
}

// oddTask runs such a task; false if the name is of another one.
func oddTask(w *W, name string, judge oddJudge) bool {
	var i int
	if _, err := fmt.Sscanf(name, "strings/%d", &i); err == nil {
		oddStringsRun(w, i, judge)
		return true
	}
	if _, err := fmt.Sscanf(name, "long/%d", &i); err == nil {
		longLists(w, elems()[i], judge)
		return true
	}
	return false
}

// nativeJudge reads in process and over RPC.
func nativeJudge(w *W) oddJudge {
	return func(dir, path, desc string, u units.Unit, c vcase) error {
		for _, kind := range []string{"inproc", "inprocdir", "rpc1", "rpc"} {
			var l messages.MetricList
			var err error
			switch kind {
			case "inproc":
				l = tricorder.ReadMyMetrics(path)
			case "inprocdir":
				l = tricorder.ReadMyMetrics(dir)
			case "rpc1":
				var m *messages.Metric
				m, err = rpcGet(path)
				l = messages.MetricList{m}
			case "rpc":
				l, err = rpcList(dir)
			}
			w.Trans(1)
			if err == nil && len(l) != 1 {
				err = fmt.Errorf("%d metrics", len(l))
			}
			if err == nil {
				err = c14Judge(l[0], path, desc, u, c)
			}
			if err != nil {
				return fmt.Errorf("through %s: %w", kind, err)
			}
		}
		return nil
	}
}

// viewsJudge compares JSON and text with what RPC reports.
func viewsJudge(w *W) oddJudge {
	return func(dir, path, desc string, u units.Unit, c vcase) error {
		m, err := rpcGet(path)
		if err != nil {
			return err
		}
		return c15Compare(w, dir, path, m, u)
	}
}
