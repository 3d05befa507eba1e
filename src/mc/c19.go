package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

var c19Vals = []float64{1.5, math.NaN(), math.Inf(1), math.Inf(-1), -2.25, math.MaxFloat64}

func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

// c19Tree is a directory with floats of every kind among other metrics.
type c19Tree struct {
	dir            string
	f64, cb, inGrp float64
	f32, cb32      float32
	l64, l32       *tricorder.List
	v64            []float64
	v32            []float32
	others         map[string]int64
	dist           []string
	distOK         map[string]bool
}

func newC19(dists [2]int) *c19Tree {
	execCount++
	t := &c19Tree{dir: fmt.Sprintf("/x%d", execCount), others: map[string]int64{}, distOK: map[string]bool{}}
	g := fixedGroup()
	n := int64(0)
	other := func(name string) {
		n++
		v := n
		t.others[name] = v
		must(tricorder.RegisterMetricInGroup(t.dir+"/"+name, &v, g, units.None, ""))
	}
	reg := func(name string, spec any, gr *tricorder.Group) {
		must(tricorder.RegisterMetricInGroup(t.dir+"/"+name, spec, gr, units.None, ""))
	}
	def := tricorder.DefaultGroup
	other("a")
	reg("b", &t.f64, def)
	reg("c", func() float64 { return t.cb }, def)
	other("d")
	reg("e/f32", &t.f32, def)
	other("e/int")
	reg("e/x", func() float32 { return t.cb32 }, g)
	reg("f", &t.inGrp, g)
	other("g/deep/er")
	t.l64 = tricorder.NewList([]float64{}, tricorder.ImmutableSlice)
	t.l32 = tricorder.NewList([]float32{}, tricorder.ImmutableSlice)
	reg("h", t.l64, def)
	reg("i/l", t.l32, def)
	other("j")
	for i, k := range dists {
		name := []string{"k", "l/d"}[i]
		b := tricorder.NewArbitraryBucketer(0, 10)
		var add func(any)
		if i == 0 {
			d := b.NewCumulativeDistribution()
			reg(name, d, def)
			add = d.Add
		} else {
			d := b.NewNonCumulativeDistribution()
			reg(name, d, def)
			add = d.Add
		}
		t.dist = append(t.dist, name)
		t.distOK[name] = true
		for _, v := range c19Dists[k] {
			add(v)
			t.distOK[name] = t.distOK[name] && finite(v)
		}
		if k == len(c19Dists)-1 {
			t.distOK[name] = false // the sum overflows
		}
	}
	other("z")
	return t
}

var c19Dists = [][]float64{{}, {3, 7}, {math.NaN()}, {4, math.Inf(1)}, {math.MaxFloat64, math.MaxFloat64}}
var c19Lists = [][]float64{{}, {1, -2.5}, {math.NaN()}, {1, math.Inf(-1), 2}}

func (t *c19Tree) scalars() map[string]float64 {
	return map[string]float64{"b": t.f64, "c": t.cb, "e/f32": float64(t.f32), "e/x": float64(t.cb32), "f": t.inGrp}
}

// check reads the tree through every access path, at every directory.
func (t *c19Tree) check(w *W, desc string) {
	for _, sub := range []string{"", "e", "i", "l"} {
		path := t.dir
		if sub != "" {
			path += "/" + sub
		}
		must, not := map[string]string{}, []string{}
		for n, v := range t.others {
			must[n] = fmt.Sprint(v)
		}
		for n, v := range t.scalars() {
			if finite(v) {
				must[n] = "" // the value is compared below
			} else {
				not = append(not, n)
			}
		}
		lok := map[string]bool{"h": true, "i/l": true}
		for _, v := range t.v64 {
			lok["h"] = lok["h"] && finite(v)
		}
		for _, v := range t.v32 {
			lok["i/l"] = lok["i/l"] && finite(float64(v))
		}
		for n, ok := range lok {
			if ok {
				must[n] = ""
			}
		}
		for n, ok := range t.distOK {
			if ok {
				must[n] = ""
			}
		}
		in := func(n string) bool { return sub == "" || strings.HasPrefix(n, sub+"/") }
		judge := func(kind string, got map[string]string, skipNot bool) {
			w.Trans(1)
			for n, v := range must {
				if !in(n) {
					continue
				}
				g, ok := got[n]
				if !ok {
					w.Fail("missing/"+kind, "%s: %s listing of %q does not report %s", desc, kind, sub, n)
				} else if v != "" && g != v {
					w.Fail("value/"+kind, "%s: %s listing of %q reports %s as %s, want %s", desc, kind, sub, n, g, v)
				}
			}
			if skipNot {
				return
			}
			for _, n := range not {
				if _, ok := got[n]; ok {
					w.Fail("reported/"+kind, "%s: %s listing of %q reports %s which is not finite", desc, kind, sub, n)
				}
			}
			for n, v := range t.scalars() {
				if g, ok := got[n]; ok && finite(v) {
					var f float64
					fmt.Sscan(g, &f)
					if math.Abs(f-v) > 1e-6*math.Abs(v) {
						w.Fail("value/"+kind, "%s: %s listing of %q reports %s as %s, want %v", desc, kind, sub, n, g, v)
					}
				}
			}
		}
		native := func(kind string, l messages.MetricList) {
			got := map[string]string{}
			for _, m := range l {
				got[strings.TrimPrefix(m.Path, t.dir+"/")] = fmt.Sprint(m.Value)
			}
			if len(got) != len(l) {
				w.Fail("twice/"+kind, "%s: %s listing reports a metric twice", desc, kind)
			}
			judge(kind, got, false)
		}
		native("inproc", tricorder.ReadMyMetrics(path))
		if l, err := rpcList(path); err != nil {
			w.Fail("rpc", "%s: RPC listing of %q fails: %v", desc, sub, err)
		} else {
			native("rpc", l)
		}
		for _, enc := range []string{"", "gzip"} {
			r := fetch(jsonURL(path), "Accept-Encoding", enc)
			if err := ungzip(r); err != nil {
				w.Fail("gzip", "%s: %v", desc, err)
				continue
			}
			l, err := parseJSONList(r)
			if err != nil {
				w.Fail("json", "%s: JSON listing of %q fails: %v", desc, sub, err)
				continue
			}
			got := map[string]string{}
			for _, m := range l {
				got[strings.TrimPrefix(m.Path, t.dir+"/")] = string(m.Value)
			}
			judge("json", got, false)
		}
		r := fetch(textURL(path))
		got := map[string]string{}
		for _, l := range strings.Split(string(r.Body), "\n") {
			if n, v, ok := strings.Cut(l, " "); ok {
				got[strings.TrimPrefix(n, t.dir+"/")] = v
			}
		}
		if r.Code != 200 || r.Panic != "" || strings.Contains(string(r.Body), "Error") {
			w.Fail("text", "%s: plain text listing of %q fails: %d %s %s", desc, sub, r.Code, r.Panic, r.Body)
		}
		judge("text", got, false)
		r = fetch(htmlURL(path))
		got = map[string]string{}
		words := htmlText(string(r.Body))
		for i := 0; i+1 < len(words); i++ {
			if strings.HasPrefix(words[i], t.dir+"/") {
				got[strings.TrimPrefix(words[i], t.dir+"/")] = words[i+1]
			}
		}
		if r.Code != 200 || r.Panic != "" || strings.Contains(string(r.Body), "Error") {
			w.Fail("html", "%s: page of %q fails: %d %s", desc, sub, r.Code, r.Panic)
		}
		// a page shows the metrics directly in the directory
		all := must
		must = map[string]string{}
		for n, v := range all {
			if in(n) && !strings.Contains(strings.TrimPrefix(strings.TrimPrefix(n, sub), "/"), "/") {
				must[n] = v
			}
		}
		judge("html", got, true)
		must = all
	}
	// a single other metric is always available
	for _, n := range []string{"a", "e/int", "z"} {
		if m, err := jsonOne(t.dir + "/" + n); err != nil || string(m.Value) != fmt.Sprint(t.others[n]) {
			w.Fail("singleton", "%s: JSON of %s: %+v %v", desc, n, m, err)
		}
		if m, err := rpcGet(t.dir + "/" + n); err != nil || m.Value != t.others[n] {
			w.Fail("singleton", "%s: RPC of %s: %+v %v", desc, n, m, err)
		}
		w.Trans(2)
	}
	// listing exactly a metric that is not finite is an empty listing
	for n, v := range t.scalars() {
		l, err := jsonList(t.dir + "/" + n)
		l2, err2 := rpcList(t.dir + "/" + n)
		want := 0
		if finite(v) {
			want = 1
		}
		if err != nil || err2 != nil || len(l) != want || len(l2) != want {
			w.Fail("one", "%s: listing of %s: JSON %d metrics %v, RPC %d metrics %v, want %d", desc, n, len(l), err, len(l2), err2, want)
		}
		w.Trans(2)
	}
}

func (t *c19Tree) set(idx [5]int, l64, l32 int) string {
	t.f64, t.cb, t.inGrp = c19Vals[idx[0]], c19Vals[idx[1]], c19Vals[idx[2]]
	f32 := func(i int) float32 {
		if c19Vals[i] == math.MaxFloat64 {
			return math.MaxFloat32
		}
		return float32(c19Vals[i])
	}
	t.f32, t.cb32 = f32(idx[3]), f32(idx[4])
	t.v64 = c19Lists[l64]
	t.v32 = nil
	for _, v := range c19Lists[l32] {
		t.v32 = append(t.v32, float32(v))
	}
	t.l64.Change(t.v64, tricorder.ImmutableSlice)
	t.l32.Change(t.v32, tricorder.ImmutableSlice)
	return fmt.Sprintf("float64 variable %v, callback %v, in group %v, float32 variable %v, callback %v, lists %v %v", t.f64, t.cb, t.inGrp, t.f32, t.cb32, t.v64, t.v32)
}

func c19Run(w *W, dists [2]int, n int) {
	t := newC19(dists)
	defer tricorder.UnregisterPath(t.dir)
	pre := fmt.Sprintf("distributions %v %v, ", c19Dists[dists[0]], c19Dists[dists[1]])
	one := func(idx [5]int, l64, l32 int) {
		w.Eval()
		d := pre + t.set(idx, l64, l32)
		w.cur = func() string { return d }
		t.check(w, d)
		w.State(d)
		w.Trace()
		w.Sample(d)
	}
	// every assignment of the scalars with one state of the lists, and of pairs with all states
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for l64 := range c19Lists {
				for l32 := range c19Lists {
					one([5]int{a, b, a, b, a}, l64, l32)
				}
			}
			for c := 0; c < n; c++ {
				for d := 0; d < n; d++ {
					one([5]int{a, b, c, d, (a + b) % n}, (a+d)%4, (b+c)%4)
				}
			}
		}
	}
}

// c19Seq changes one value over time.
func c19Seq(w *W, depth int) {
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) == depth {
			w.Eval()
			t := newC19([2]int{1, 1})
			var names []string
			for i, k := range seq {
				idx := [5]int{0, 0, 0, 0, 0}
				idx[i%5] = k
				idx[(i+2)%5] = k
				t.set(idx, k%4, (k+1)%4)
				names = append(names, fmt.Sprint(c19Vals[k]))
				d := "after " + strings.Join(names, ", ")
				w.cur = func() string { return d }
				t.check(w, d)
				w.State(d)
			}
			tricorder.UnregisterPath(t.dir)
			w.Trace()
			w.Sample(strings.Join(names, ", "))
			return
		}
		for k := range c19Vals {
			rec(append(append([]int{}, seq...), k))
		}
	}
	rec(nil)
}

func init() {
	define(&Def{ID: "C19", Rule: "every assignment of finite values, NaN and the infinities to float variables, callbacks, group members, lists and distributions spread over a tree of other metrics, and every short sequence of such assignments; every access path at every directory has to report all others and leave out exactly the scalars that are not finite; every way to put seven kinds of metrics that can and cannot be represented at four places of a tree; up to 300 metrics of which one at any place is, or is not, finite; lists and distributions of up to 1025 values with one at any place that is not finite",
		Tasks: func(tier string) (out []string) {
			for i := range c19Dists {
				for j := range c19Dists {
					out = append(out, fmt.Sprintf("dist/%d/%d", i, j))
				}
			}
			return append(out, "seq")
		},
		Do: func(w *W, name string) {
			n := 3
			if w.tier == "thorough" {
				n = len(c19Vals)
			}
			if name == "seq" {
				c19Seq(w, 3)
				return
			}
			var i, j int
			fmt.Sscanf(name, "dist/%d/%d", &i, &j)
			if w.tier != "thorough" && i != j && i != 0 && j != 0 {
				return // quick: one distribution of each pair is empty, or both hold the same
			}
			c19Run(w, [2]int{i, j}, n)
		}})
}

// keep the imports of this file in use whatever is enabled
var _ = sort.Strings
var _ json.RawMessage
