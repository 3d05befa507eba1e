package main

import (
	"fmt"
	"math"
	"net/url"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// Many groups in one request, many metrics in a group, many requests inside each other (C01, C02, C03).

// manyWorld is a directory with n groups, each with a metric before and one after those of all others.
type manyWorld struct {
	w     *W
	dir   string
	n     int
	count []int64 // runs of each update function, which is also the value it sets
	gs    []*tricorder.Group
	hook  func() // called by a callback in the middle of every listing
	last  func() // called by the last callback of every listing
}

func newManyWorld(w *W, n int) *manyWorld {
	execCount++
	m := &manyWorld{w: w, dir: fmt.Sprintf("/x%d", execCount), n: n, count: make([]int64, n)}
	for i := 0; i < n; i++ {
		i := i
		g := tricorder.NewGroup()
		g.RegisterUpdateFunc(func() time.Time {
			m.count[i]++
			return m.stamp(i)
		})
		m.gs = append(m.gs, g)
		must(tricorder.RegisterMetricInGroup(fmt.Sprintf("%s/a%04d", m.dir, i), &m.count[i], g, units.None, ""))
		must(tricorder.RegisterMetricInGroup(fmt.Sprintf("%s/y%04d", m.dir, n-i), func() int64 { return m.count[i] }, g, units.None, ""))
	}
	call := func(f *func()) func() int64 {
		return func() int64 {
			if *f != nil {
				(*f)()
			}
			return m.count[0]
		}
	}
	must(tricorder.RegisterMetricInGroup(m.dir+"/m", call(&m.hook), m.gs[0], units.None, ""))
	must(tricorder.RegisterMetricInGroup(m.dir+"/z", call(&m.last), m.gs[0], units.None, ""))
	return m
}

func (m *manyWorld) stamp(i int) time.Time { return time.Unix(1400000000+int64(i)*1000+m.count[i], 7) }

// group tells which group a metric belongs to.
func (m *manyWorld) group(path string) int {
	var i int
	name := strings.TrimPrefix(path, m.dir+"/")
	switch {
	case name == "m" || name == "z":
		return 0
	case strings.HasPrefix(name, "a"):
		fmt.Sscanf(name, "a%d", &i)
		return i
	}
	fmt.Sscanf(name, "y%d", &i)
	return m.n - i
}

// request reads through an access kind and judges values, timestamps and the number of runs of every group.
func (m *manyWorld) request(key, desc, kind, one string) {
	before := append([]int64{}, m.count...)
	m.w.Eval()
	m.w.Trans(m.n)
	os, err := readInts(kind, m.dir, one)
	if err != nil {
		m.w.Fail(key+"-error", "%s: %s fails: %v", desc, kind, err)
		return
	}
	want := 2*m.n + 2
	if isSingle(kind) {
		want = 1
	}
	if len(os) != want {
		m.w.Fail(key+"-missing", "%s: %s reports %d metrics, want %d", desc, kind, len(os), want)
	}
	for _, o := range os {
		i := m.group(o.Path)
		if o.Val != m.count[i] || o.TS != "" && o.TS != stampText(m.stamp(i)) {
			m.w.Fail(key+"-value", "%s: %s reports %v, group %d has run %d times, timestamp %s", desc, kind, o, i, m.count[i], stampText(m.stamp(i)))
			break
		}
	}
	for i, c := range m.count {
		runs := int64(1)
		if isSingle(kind) && i != m.group(m.dir+"/"+one) {
			runs = 0
		}
		if c-before[i] != runs {
			m.w.Fail(key+"-runs", "%s: %s ran the update function of group %d of %d %d times, want %d", desc, kind, i, m.n, c-before[i], runs)
			break
		}
	}
	m.w.State(fmt.Sprint(key, desc, kind, one))
	m.w.Trace()
}

func manySizes(tier string) []int {
	var out []int
	for n := 1; n <= 20; n++ {
		out = append(out, n)
	}
	out = append(out, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129)
	if tier == "thorough" {
		out = append(out, 255, 256, 257, 511, 512, 513)
	}
	return out
}

func manyTasks(tier string, prefixes ...string) (out []string) {
	for _, p := range prefixes {
		for _, n := range manySizes(tier) {
			out = append(out, fmt.Sprintf("%s/%d", p, n))
		}
	}
	return
}

// manyTask runs such a task; false if the name is of another one.
func manyTask(w *W, name string) bool {
	what, arg, _ := strings.Cut(name, "/")
	var n int
	fmt.Sscan(arg, &n)
	switch what {
	case "groups", "nested", "broken", "repeated", "big", "chain":
	default:
		return false
	}
	vsched.BeginExec()
	defer vsched.EndExec()
	w.cur = func() string { return name }
	switch what {
	case "groups":
		manyGroups(w, n)
	case "nested":
		manyNested(w, n)
	case "big":
		manyBig(w, n)
	case "chain":
		manyChain(w, n)
	case "broken":
		manyBroken(w, n)
	case "repeated":
		manyRepeated(w, n)
	}
	return true
}

// manyGroups: requests over n groups through every access path, alone and inside each other.
func manyGroups(w *W, n int) {
	m := newManyWorld(w, n)
	defer tricorder.UnregisterPath(m.dir)
	for _, k := range accessKinds {
		for _, one := range []string{"a0000", fmt.Sprintf("a%04d", n-1), fmt.Sprintf("y%04d", n)} {
			m.request("many", fmt.Sprintf("%d groups", n), k, one)
			if !isSingle(k) {
				break
			}
		}
		for _, k2 := range accessKinds {
			before := append([]int64{}, m.count...)
			m.hook = func() {
				m.hook = nil
				os, err := readInts(k2, m.dir, "y0001")
				for _, o := range os {
					if i := m.group(o.Path); err == nil && o.Val != m.count[i] {
						err = fmt.Errorf("reports %v, group %d has run %d times", o, i, m.count[i])
					}
				}
				if err != nil {
					w.Fail("many-inner", "%d groups: %s inside %s: %v", n, k2, k, err)
				}
			}
			w.Eval()
			if _, err := readInts(k, m.dir, "m"); err != nil {
				w.Fail("many-error", "%d groups: %s fails: %v", n, k, err)
			}
			m.hook = nil
			for i := range m.count {
				all := !isSingle(k) || !isSingle(k2)
				runs := int64(1)
				if !all && i != 0 && i != m.group(m.dir+"/y0001") {
					runs = 0
				}
				if got := m.count[i] - before[i]; got != runs {
					w.Fail("many-runs", "%d groups: %s inside %s ran the update function of group %d %d times, want %d", n, k2, k, i, got, runs)
					break
				}
			}
			w.State(fmt.Sprint("inner", n, k, k2))
			w.Trace()
		}
	}
}

// manyNested: n requests, each made while all before it are still reading; then n more.
func manyNested(w *W, n int) {
	m := newManyWorld(w, 2)
	defer tricorder.UnregisterPath(m.dir)
	for shift, first := range accessKinds {
		before := m.count[0]
		depth := 1
		check := func(k string) {
			os, err := readInts(k, m.dir, "m")
			for _, o := range os {
				if err == nil && m.group(o.Path) == 0 && (o.Val != before+1 || o.TS != "" && o.TS != stampText(m.stamp(0))) {
					err = fmt.Errorf("reports %v, want the values of run %d", o, before+1)
				}
			}
			if err != nil {
				w.Fail("nested", "%d requests inside each other: %s: %v", n, k, err)
			}
			w.Trans(1)
		}
		busy := false
		m.hook = func() {
			if depth < n && !busy {
				depth++
				check(accessKinds[(shift+depth*3)%len(accessKinds)])
			}
		}
		m.last = m.hook
		w.Eval()
		check(first)
		m.hook, m.last = nil, nil
		if depth != n && n > 1 {
			w.Fail("nested", "only %d requests were made", depth)
		}
		if m.count[0] != before+1 {
			w.Fail("nested-runs", "%d requests inside each other ran the update function %d times", n, m.count[0]-before)
		}
		m.request("nested-later", fmt.Sprintf("after %d requests inside each other", n), first, "m")
		w.State(fmt.Sprint("nested", n, first))
		w.Trace()
	}
}

// manyBig: a group with n metrics; while one of them is read another request reads the group.
func manyBig(w *W, n int) {
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	defer tricorder.UnregisterPath(dir)
	var run int64
	var at = -1
	var hook func()
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time { run++; return time.Unix(1400000000+run, 7) })
	vals := make([]*int64, n)
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("%s/m%04d", dir, i)
		if i%3 == 1 {
			vals[i] = &run
			must(tricorder.RegisterMetricInGroup(p, vals[i], g, units.None, ""))
			continue
		}
		must(tricorder.RegisterMetricInGroup(p, func() int64 {
			v := run
			if i == at {
				at = -1
				hook()
			}
			return v
		}, g, units.None, ""))
	}
	judge := func(desc, kind string, os []obs, err error, want int64) {
		if err == nil && len(os) != n && !isSingle(kind) {
			err = fmt.Errorf("%d metrics", len(os))
		}
		for _, o := range os {
			if err == nil && (o.Val != want || o.TS != "" && o.TS != stampText(time.Unix(1400000000+want, 7))) {
				err = fmt.Errorf("reports %v, want update %d", o, want)
			}
		}
		if err == nil && run != want {
			err = fmt.Errorf("the update function has run %d times, want %d", run, want)
		}
		if err != nil {
			w.Fail("big", "%s: %v", desc, err)
		}
	}
	for _, k := range accessKinds {
		for _, k2 := range accessKinds {
			for i := 0; i < n; i++ {
				if n > 8 && i != 0 && i != n/2 && i < n-2 || i%3 == 1 {
					continue
				}
				desc := fmt.Sprintf("a group of %d metrics, %s while %s reads number %d", n, k2, k, i)
				w.cur = func() string { return desc }
				w.Eval()
				want := run + 1
				one := fmt.Sprintf("m%04d", i)
				hook = func() {
					os, err := readInts(k2, dir, fmt.Sprintf("m%04d", n-1-i))
					judge(desc+" (inner)", k2, os, err, want)
				}
				at = i
				os, err := readInts(k, dir, one)
				judge(desc, k, os, err, want)
				w.Trans(2)
				w.State(desc)
				w.Trace()
			}
		}
	}
}

// manyChain: the update function of each of n groups reads the next group.
func manyChain(w *W, n int) {
	if n > 40 {
		return
	}
	for shift, k := range accessKinds {
		execCount++
		dir := fmt.Sprintf("/x%d", execCount)
		desc := fmt.Sprintf("%s of the first of %d groups whose update functions read the next", k, n)
		w.cur = func() string { return desc }
		count := make([]int64, n)
		for i := 0; i < n; i++ {
			g := tricorder.NewGroup()
			g.RegisterUpdateFunc(func() time.Time {
				count[i]++
				if i+1 < n {
					k2 := accessKinds[(shift+i+1)%len(accessKinds)]
					os, err := readInts(k2, fmt.Sprintf("%s/g%d", dir, i+1), "m")
					if err != nil || len(os) != 1 || os[0].Val != count[i+1] {
						w.Fail("chain", "%s: %s inside update function %d gives %v %v", desc, k2, i, os, err)
					}
				}
				return time.Unix(1400000000+count[i], 0)
			})
			must(tricorder.RegisterMetricInGroup(fmt.Sprintf("%s/g%d/m", dir, i), &count[i], g, units.None, ""))
		}
		for round := int64(1); round <= 3; round++ {
			w.Eval()
			os, err := readInts(k, dir+"/g0", "m")
			if err != nil || len(os) != 1 || os[0].Val != round || os[0].TS != "" && os[0].TS != stampText(time.Unix(1400000000+round, 0)) {
				w.Fail("chain", "%s: gives %v %v in round %d", desc, os, err, round)
			}
			for i, c := range count {
				if c != round {
					w.Fail("chain-runs", "%s: update function %d has run %d times after %d requests", desc, i, c, round)
					break
				}
			}
			w.Trans(n)
			w.State(desc)
			w.Trace()
		}
		tricorder.UnregisterPath(dir)
	}
}

// manyBroken: a request over n groups ends badly; the next one updates each of them.
func manyBroken(w *W, n int) {
	m := newManyWorld(w, n)
	defer tricorder.UnregisterPath(m.dir)
	for _, k := range []string{"inproc", "rpc", "json", "html", "text", "json1", "html1", "text1", "rpc1"} {
		for _, how := range []string{"panic in the middle", "panic at the end", "first write", "second write", "last write"} {
			for _, k2 := range []string{"inproc", "json", "text"} {
				w.Eval()
				desc := fmt.Sprintf("%d groups, %s of %s fails", n, how, k)
				writes := 0
				func() {
					defer func() { recover() }()
					switch how {
					case "panic in the middle":
						m.hook = func() { panic("callback fails") }
						readInts(k, m.dir, "m")
					case "panic at the end":
						m.last = func() { panic("callback fails") }
						readInts(k, m.dir, "z")
					case "first write":
						readIntsFail(k, m.dir, "m", 1)
					case "second write":
						readIntsFail(k, m.dir, "m", 2)
					case "last write":
						if u, err := url.Parse(map[string]string{"json": jsonURL(m.dir), "html": htmlURL(m.dir), "text": textURL(m.dir)}[k]); err == nil && u.Path != "" {
							writes = serve(u, 0).writes
							serve(u, writes)
						}
					}
				}()
				m.hook, m.last = nil, nil
				m.request("broken", desc, k2, "m")
			}
		}
	}
}

// manyRepeated: n failing requests in a row, each failing in its own way, then a request that has to update.
func manyRepeated(w *W, n int) {
	m := newManyWorld(w, 2)
	defer tricorder.UnregisterPath(m.dir)
	for _, k := range accessKinds {
		for _, how := range []string{"panic", "write", "both"} {
			w.Eval()
			for i := 0; i < n; i++ {
				func() {
					defer func() { recover() }()
					if how == "panic" || how == "both" && i%2 == 0 {
						m.hook = func() { panic("callback fails") }
						readInts(k, m.dir, "m")
					} else {
						readIntsFail(k, m.dir, "m", 1+i%3)
					}
				}()
				m.hook = nil
				w.Trans(1)
			}
			m.request("repeated", fmt.Sprintf("after %d failing requests (%s) through %s", n, how, k), "inproc", "m")
			m.request("repeated", fmt.Sprintf("after %d failing requests (%s) through %s", n, how, k), k, "m")
		}
	}
}

// gkUnencodable: a float of a group cannot be encoded when it is read; later requests update the group as ever.
func gkUnencodable(w *W, part int) {
	bads := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}
	form := []string{"float64", "float64 callback", "float32", "float32 callback"}[part]
	for bi, bad := range bads {
		for _, before := range accessKinds {
			for _, after := range accessKinds {
				for _, still := range []bool{false, true} {
					execCount++
					dir := fmt.Sprintf("/x%d", execCount)
					desc := fmt.Sprintf("%s of a group with a %s of %v, then %s with the value kept %v", before, form, bad, after, still)
					w.cur = func() string { return desc }
					w.Eval()
					var v, n int64
					f := bad
					f32 := float32(bad)
					g := tricorder.NewGroup()
					g.RegisterUpdateFunc(func() time.Time { n++; v = n; return time.Unix(1400000000+n, 0) })
					spec := map[string]any{"float64": &f, "float64 callback": func() float64 { return f }, "float32": &f32, "float32 callback": func() float32 { return f32 }}[form]
					must(tricorder.RegisterMetricInGroup(dir+"/a", &v, g, units.None, ""))
					must(tricorder.RegisterMetricInGroup(dir+"/f", spec, g, units.None, ""))
					must(tricorder.RegisterMetricInGroup(dir+"/z", &v, g, units.None, ""))
					path := dir
					if isSingle(before) {
						path += "/f"
					}
					func() {
						defer func() { recover() }()
						gkRead(before, path)
					}()
					if n != 1 {
						w.Fail("unencodable-runs", "%s: the first request ran the update function %d times", desc, n)
					}
					if !still {
						f, f32 = 0.5, 0.5
					}
					runs := n
					path = dir
					if isSingle(after) {
						path += "/z"
					}
					got, err := gkRead(after, path)
					if err != nil {
						w.Fail("unencodable", "%s: fails: %v", desc, err)
					} else if n != runs+1 {
						w.Fail("unencodable", "%s: ran the update function %d times", desc, n-runs)
					}
					for _, o := range got {
						if o.path == dir+"/a" || o.path == dir+"/z" {
							if err := o.judge(n); err != nil {
								w.Fail("unencodable", "%s: %s: %v", desc, o.path, err)
							}
						}
					}
					w.Trans(2)
					w.State(fmt.Sprint(part, bi, before, after, still))
					w.Trace()
					tricorder.UnregisterPath(dir)
				}
			}
		}
	}
}
