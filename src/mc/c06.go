package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

type c06Event struct {
	op         string // reg or unreg
	path       string
	val        int64
	start, end int64
	ok         bool
}

type c06Listing struct {
	kind, dir  string
	start, end int64
	obs        []obs
	err        error
}

// pathLess is the depth first order with names in lexicographic order.
func pathLess(a, b string) bool {
	x, y := comps(a), comps(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

func under(path, dir string) bool {
	return dir == "" || path == dir || strings.HasPrefix(path, dir+"/")
}

// c06Check judges a listing against the intervals of all registrations and removals.
func c06Check(x *Exec, l *c06Listing, evs []c06Event) {
	if l.err != nil {
		x.Failf("error", "listing %s fails: %v", l.kind, l.err)
		return
	}
	seen := map[string]int64{}
	prev := ""
	for _, o := range l.obs {
		p := strings.TrimPrefix(o.Path, x.Dir+"/")
		if _, dup := seen[p]; dup {
			x.Failf("duplicate", "%s listed twice by %s: %v", p, l.kind, l.obs)
		}
		seen[p] = o.Val
		if prev != "" && !pathLess(prev, p) {
			x.Failf("order", "%s lists %s after %s", l.kind, p, prev)
		}
		prev = p
		// was it registered at some moment?
		known := false
		for _, e := range evs {
			if e.op != "reg" || !e.ok || e.path != p || e.val != o.Val || e.start > l.end || !under(p, l.dir) {
				continue
			}
			gone := false
			for _, u := range evs {
				if u.op == "unreg" && under(p, u.path) && u.start > e.end && u.end < l.start {
					gone = true
				}
			}
			if !gone {
				known = true
			}
		}
		if !known {
			x.Failf("phantom", "%s lists %s=%d which was not registered at any moment of the request %v", l.kind, p, o.Val, evs)
		}
	}
	for _, e := range evs {
		if e.op != "reg" || !e.ok || !under(e.path, l.dir) || e.end > l.start {
			continue
		}
		sure := true
		for _, u := range evs {
			if u.op == "unreg" && under(e.path, u.path) && u.end > e.start && u.start < l.end {
				sure = false
			}
		}
		if v, got := seen[e.path]; sure && (!got || v != e.val) {
			x.Failf("missing", "%s does not list %s=%d which was registered during the whole request: %v", l.kind, e.path, e.val, l.obs)
		}
	}
}

var c06Init = []string{"a/m", "a/s/p", "a/s/q", "b/m", "c", "z/y"}

type c06Op struct{ op, path string }

func (o c06Op) String() string { return o.op + "(" + o.path + ")" }

func c06Scen(name string, bound int, free, desc bool, kind, dir string, progs ...[]c06Op) Scen {
	return Scen{Name: name, Bound: bound, FreeCost: free, Desc: desc, Build: func(x *Exec) ([]func(), func()) {
		x.timed = true
		var evs []c06Event
		for i, p := range c06Init {
			v := new(int64)
			*v = int64(i + 1)
			must(tricorder.RegisterMetric(x.Dir+"/"+p, v, units.None, ""))
			evs = append(evs, c06Event{op: "reg", path: p, val: *v, ok: true})
		}
		x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
		var l *c06Listing
		list := func(kind string) *c06Listing {
			l := &c06Listing{kind: kind, dir: dir}
			d := x.Dir
			if dir != "" {
				d += "/" + dir
			}
			x.Log("listing %s starts", kind)
			l.start = x.clock()
			l.obs, l.err = readInts(kind, d, "")
			l.end = x.clock()
			x.Log("listing %s ends: %v", kind, l.obs)
			return l
		}
		bodies := []func(){func() { l = list(kind) }}
		for ti, p := range progs {
			ti, p := ti, p
			bodies = append(bodies, func() {
				for i, o := range p {
					e := c06Event{op: o.op, path: o.path, val: int64(100*(ti+1) + i)}
					x.Log("%v starts", o)
					e.start = x.clock()
					if o.op == "reg" {
						v := e.val
						err := tricorder.RegisterMetric(x.Dir+"/"+o.path, &v, units.None, "")
						e.ok = err == nil
					} else {
						tricorder.UnregisterPath(x.Dir + "/" + o.path)
					}
					e.end = x.clock()
					x.Log("%v ends %v", o, e.ok)
					evs = append(evs, e)
				}
			})
		}
		return bodies, func() {
			c06Check(x, l, evs)
			s := ""
			for _, o := range l.obs {
				s += fmt.Sprintf("%s=%d,", strings.TrimPrefix(o.Path, x.Dir+"/"), o.Val)
			}
			x.Outcome("%s", s)
			for _, k := range []string{"inproc", "json"} {
				c06Check(x, list(k), evs)
			}
		}
	}}
}

func c06Scens(tier string) []Scen {
	var out []Scen
	ops := []c06Op{{"unreg", "a/m"}, {"unreg", "a/s"}, {"unreg", "a"}, {"unreg", "b"}, {"unreg", "c"}, {"reg", "a/m"}, {"reg", "a/k"}, {"reg", "a/s/r"},
		{"reg", "b/n/o"}, {"reg", "c/d"}, {"reg", "c"}, {"reg", "zz"}, {"reg", "a"}}
	kinds := []string{"inproc", "json", "text", "rpc"}
	n := 0
	for _, a := range ops {
		for _, b := range ops {
			n++
			kind := kinds[n%len(kinds)]
			dir := ""
			if n%3 == 0 {
				dir = "a"
			}
			out = append(out, c06Scen(fmt.Sprintf("%s:%q|%v;%v", kind, dir, a, b), unbounded, false, n%2 == 0, kind, dir, []c06Op{a, b}))
		}
		for _, kind := range kinds {
			for _, dir := range []string{"", "a", "a/s"} {
				out = append(out, c06Scen(fmt.Sprintf("%s:%q|%v", kind, dir, a), unbounded, false, true, kind, dir, []c06Op{a}))
			}
		}
	}
	if tier == "thorough" {
		for i, a := range ops {
			for _, b := range ops[i:] {
				n++
				kind := kinds[n%len(kinds)]
				out = append(out, c06Scen(fmt.Sprintf("%s|%v|%v", kind, a, b), 4, true, n%2 == 0, kind, "", []c06Op{a}, []c06Op{b}))
			}
			for _, b := range ops {
				for _, c := range ops {
					n++
					kind := kinds[n%len(kinds)]
					out = append(out, c06Scen(fmt.Sprintf("%s|%v;%v;%v", kind, a, b, c), 2, true, n%2 == 0, kind, "", []c06Op{a, b, c}))
				}
			}
		}
	} else {
		for i, a := range ops {
			for _, b := range ops[i:] {
				n++
				kind := kinds[n%len(kinds)]
				out = append(out, c06Scen(fmt.Sprintf("%s|%v|%v", kind, a, b), 2, true, n%2 == 0, kind, "", []c06Op{a}, []c06Op{b}))
			}
		}
	}
	return out
}

var c06Names = []string{"a", "a-b", "a.b", "a0", "A", "Z", "é", "10", "9", "ab"}

// c06Order registers every set of up to three names at two levels and checks the order of every listing.
func c06Order(w *W, name string) {
	vsched.BeginExec()
	switch name {
	case "kinds/fresh":
		c06Kinds(w, false)
		return
	case "kinds/shared":
		c06Kinds(w, true)
		return
	}
	if what, ok := strings.CutPrefix(name, "scale/"); ok {
		c06Scale(w, what)
		return
	}
	vsched.MapDescending = strings.HasSuffix(name, "/desc")
	defer func() { vsched.MapDescending = false }()
	var n int
	fmt.Sscanf(name, "order/%d", &n)
	shapes := func(nm string) []string { return []string{nm, nm + "/a", nm + "/x"} }
	run := func(paths []string) {
		w.Eval()
		w.cur = func() string { return fmt.Sprint(paths) }
		execCount++
		dir := fmt.Sprintf("/x%d", execCount)
		var want []string
		for i, p := range paths {
			v := int64(i)
			if tricorder.RegisterMetric(dir+"/"+p, &v, units.None, "") == nil {
				want = append(want, dir+"/"+p)
			}
		}
		for i := range want { // insertion sort by the reference order
			for j := i; j > 0 && pathLess(want[j], want[j-1]); j-- {
				want[j], want[j-1] = want[j-1], want[j]
			}
		}
		for _, k := range []string{"inproc", "rpc", "json", "text"} {
			w.Trans(1)
			os, err := readInts(k, dir, "")
			var got []string
			for _, o := range os {
				got = append(got, o.Path)
			}
			if err != nil || strings.Join(got, " ") != strings.Join(want, " ") {
				w.Fail("order/"+k, "%s lists %v, want %v (%v)", k, got, want, err)
			}
		}
		w.State(strings.Join(paths, " "))
		w.Trace()
		w.Sample(strings.Join(paths, " "))
		tricorder.UnregisterPath(dir)
	}
	for _, a := range shapes(c06Names[n]) {
		for _, nb := range c06Names {
			for _, b := range shapes(nb) {
				run([]string{a, b})
				if w.tier != "thorough" && nb > c06Names[n] {
					continue
				}
				for _, nc := range c06Names {
					for _, c := range shapes(nc) {
						run([]string{a, b, c})
					}
				}
			}
		}
	}
}

func init() {
	define(&Def{ID: "C06", Inst: true, Scens: c06Scens, Do: c06Order,
		Tasks: func(tier string) []string {
			out := []string{"kinds/fresh", "kinds/shared", "scale/metrics", "scale/directories", "scale/depth", "scale/names", "scale/bytes"}
			for i := range c06Names {
				out = append(out, fmt.Sprintf("order/%d/asc", i), fmt.Sprintf("order/%d/desc", i))
			}
			return out
		},
		Rule: "all schedules of one listing (every machine readable access path) against every program of one and two registry changes, up to the bound against two changing threads; and the order of listings for all sets of up to three names; metrics of every kind, also one variable, function, list or distribution under several paths, in every position; directories of every size, trees of every depth and names that differ only after every number of characters up to 300 and around the powers of two (4098 entries, thorough 65538; 600 levels); maps iterated in both orders"})
}

// listPaths are the paths a listing names, in its order.
func listPaths(kind, dir string) (out []string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	switch kind {
	case "inproc":
		for _, m := range tricorder.ReadMyMetrics(dir) {
			out = append(out, m.Path)
		}
	case "rpc":
		l, err := rpcList(dir)
		if err != nil {
			return nil, err
		}
		for _, m := range l {
			out = append(out, m.Path)
		}
	case "json":
		l, err := jsonList(dir)
		if err != nil {
			return nil, err
		}
		for _, m := range l {
			out = append(out, m.Path)
		}
	case "text":
		r := fetch(textURL(dir))
		if r.Panic != "" {
			return nil, fmt.Errorf("panic: %s", r.Panic)
		}
		for _, l := range strings.Split(strings.TrimRight(string(r.Body), "\n"), "\n") {
			if l != "" && !strings.HasPrefix(l, "*") {
				p, _, _ := strings.Cut(l, " ")
				out = append(out, p)
			}
		}
	}
	return
}

// c06Same compares all listings of a directory with the paths registered.
func c06Same(w *W, key, dir, desc string, paths []string) {
	want := append([]string{}, paths...)
	sort.SliceStable(want, func(i, j int) bool { return pathLess(want[i], want[j]) })
	w.Eval()
	w.cur = func() string { return desc }
	for _, k := range []string{"inproc", "rpc", "json", "text"} {
		w.Trans(1)
		got, err := listPaths(k, dir)
		if err != nil {
			w.Fail(key+"/"+k, "%s: %s fails: %v", desc, k, err)
			continue
		}
		if len(got) != len(want) {
			w.Fail(key+"/"+k, "%s: %s lists %d metrics, %d are registered", desc, k, len(got), len(want))
			continue
		}
		for i := range want {
			if got[i] != want[i] {
				w.Fail(key+"/"+k, "%s: entry %d of %s is %.200s, want %.200s", desc, i, k, got[i], want[i])
				break
			}
		}
	}
	w.State(desc)
	w.Trace()
	w.Sample(desc)
}

// c06Specs are metrics of every kind; what is shared is the same variable, function, list or distribution.
func c06Specs(shared bool) []func() any {
	one := func(f func() any) func() any {
		if !shared {
			return f
		}
		v := f()
		return func() any { return v }
	}
	var out []func() any
	for _, e := range elems() {
		e := e
		out = append(out, one(func() any { return reflect.New(e.typ).Interface() }))
		out = append(out, one(func() any {
			return reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{e.typ}, false), func([]reflect.Value) []reflect.Value { return []reflect.Value{reflect.Zero(e.typ)} }).Interface()
		}))
		for n := 0; n < 2; n++ {
			n := n
			out = append(out, one(func() any {
				return tricorder.NewList(reflect.MakeSlice(reflect.SliceOf(e.typ), n, n).Interface(), tricorder.MutableSlice)
			}))
		}
	}
	for n := 0; n < 3; n++ { // see c06Kinds for what they hold
		out = append(out, one(func() any { return tricorder.NewArbitraryBucketer(1).NewCumulativeDistribution() }))
		out = append(out, one(func() any { return tricorder.NewArbitraryBucketer(1).NewNonCumulativeDistribution() }))
	}
	return out
}

// c06Kinds lists a metric of every kind, fresh or registered several times, beside others in every position.
func c06Kinds(w *W, shared bool) {
	names := []string{"a", "b/c", "d"}
	for i, spec := range c06Specs(shared) {
		for mask := 1; mask < 8; mask++ {
			for where := 0; where < 2; where++ {
				execCount++
				dir := fmt.Sprintf("/x%d", execCount)
				var paths []string
				for j, n := range names {
					p := dir + "/" + n
					if mask>>j&1 == 1 {
						s := spec()
						if where == 1 {
							must(tricorder.RegisterMetricInGroup(p, s, tricorder.NewGroup(), units.None, ""))
						} else {
							must(tricorder.RegisterMetric(p, s, units.None, ""))
						}
						if d, ok := s.(adist); ok && (!shared || mask == 1) {
							for k := 0; k < i/2%3; k++ {
								d.Add(float64(k))
							}
						}
					} else {
						must(tricorder.RegisterMetric(p, new(int64), units.None, ""))
					}
					paths = append(paths, p)
				}
				c06Same(w, "kinds", dir, fmt.Sprintf("metric kind %d (%T), shared=%v, positions %d, own group %d", i, spec(), shared, mask, where), paths)
				tricorder.UnregisterPath(dir)
			}
		}
	}
}

// c06Scale lists directories of every size, trees of every depth and names of every length up to the limits.
func c06Scale(w *W, what string) {
	limit := 4098
	if w.tier == "thorough" {
		limit = 1<<16 + 2
	}
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	switch what {
	case "metrics", "directories": // one directory with n entries, growing and shrinking
		name := func(i int) string {
			n := fmt.Sprintf("%s/n%05d", dir, (i*31)%(1<<16+3))
			if what == "directories" {
				return n + "/m"
			}
			return n
		}
		var paths []string
		for n := 0; n <= limit; n++ {
			if n > 0 {
				must(tricorder.RegisterMetric(name(n), new(int64), units.None, ""))
				paths = append(paths, name(n))
			}
			if n > 0 && interesting(n) {
				c06Same(w, "scale", dir, fmt.Sprintf("%d %s", n, what), paths)
			}
		}
		vsched.MapDescending = true
		defer func() { vsched.MapDescending = false }()
		for n := limit; n > 0; n-- {
			if interesting(n) {
				c06Same(w, "scale", dir, fmt.Sprintf("back to %d %s, maps iterated descending", n, what), paths[:n])
			}
			tricorder.UnregisterPath(strings.TrimSuffix(name(n), "/m"))
		}
	case "bytes": // listings of up to 16 million bytes
		sum, at := 0, 1<<16
		var paths []string
		for n := 0; sum < 1<<24; n++ {
			p := fmt.Sprintf("%s/n%05d/%s", dir, (n*31)%(1<<16+3), strings.Repeat("m", n%1000+1))
			if n%2 == 0 {
				p = fmt.Sprintf("%s/n%05d%s", dir, (n*31)%(1<<16+3), strings.Repeat("m", n%1000+1))
			}
			must(tricorder.RegisterMetric(p, new(int64), units.None, strings.Repeat("d", n%300)))
			paths = append(paths, p)
			if sum += len(p) + n%300; sum >= at {
				at *= 2
				vsched.MapDescending = !vsched.MapDescending
				c06Same(w, "scale", dir, fmt.Sprintf("%d metrics with %d bytes of names and descriptions", n+1, sum), paths)
			}
		}
		vsched.MapDescending = false
	case "depth":
		p := dir
		var paths []string
		for n := 1; n <= 600; n++ {
			p += "/d"
			must(tricorder.RegisterMetric(p+"/m", new(int64), units.None, ""))
			paths = append(paths, p+"/m")
			if n <= 70 || n >= 126 && n <= 130 || n >= 254 && n <= 258 || n >= 510 && n <= 514 || n == 600 {
				c06Same(w, "scale", dir, fmt.Sprintf("%d levels", n), paths)
			}
		}
	case "names":
		for n := 1; n <= limit; n++ {
			if !interesting(n) {
				continue
			}
			// names that differ only after n characters
			a := dir + "/" + strings.Repeat("n", n)
			paths := []string{a, a + "x/" + strings.Repeat("k", n), a + "y/" + strings.Repeat("k", n), a + "b", a + "c", a + "a", a + "B", a + "10", a + "9"}
			for _, p := range paths {
				must(tricorder.RegisterMetric(p, new(int64), units.None, ""))
			}
			for _, desc := range []bool{false, true} {
				vsched.MapDescending = desc
				c06Same(w, "scale", dir, fmt.Sprintf("names of length %d, maps iterated descending %v", n, desc), paths)
			}
			vsched.MapDescending = false
			tricorder.UnregisterPath(dir)
		}
	}
	tricorder.UnregisterPath(dir)
}
