package main

import (
	"fmt"
	"math"
	"net/url"
	"strings"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// fault is one way in which a request ends badly.
type fault struct {
	kind  string // access kind; a "+gz" suffix asks for gzip
	write int    // the connection breaks at this write (1 based), 0: never
	panic int    // the n-th callback of the request panics, 0: none
	nan   bool   // a list and a distribution hold NaN
}

func (f fault) String() string {
	return fmt.Sprintf("%s(write=%d,panic=%d,nan=%v)", f.kind, f.write, f.panic, f.nan)
}

type c03World struct {
	x      *Exec
	g      [2]*grp
	list   *tricorder.List
	dist   *tricorder.NonCumulativeDistribution
	armed  map[string]*int
	panics int
}

func (w *c03World) hit() {
	if p := w.armed[vsched.Self()]; p != nil && *p > 0 {
		*p--
		if *p == 0 {
			w.panics++
			panic("callback fails")
		}
	}
}

func newC03World(x *Exec) *c03World {
	w := &c03World{x: x, armed: map[string]*int{}}
	reg := func(name string, v any, g *grp) {
		must(tricorder.RegisterMetricInGroup(x.Dir+"/"+name, v, g.g, units.None, ""))
	}
	for i, nm := range []string{"A", "B"} {
		g := newGrp(x, nm)
		g.base = int64(i) * 1000
		w.g[i] = g
		reg("a"+nm, func() int64 { w.hit(); return g.first() }, g)
		reg("b"+nm, &g.vx, g)
		reg("z"+nm, func() int64 { v := g.last(); w.hit(); return v }, g)
	}
	w.list = tricorder.NewList([]float64{1}, false)
	w.dist = tricorder.PowersOfTen.NewNonCumulativeDistribution()
	must(tricorder.RegisterMetric(x.Dir+"/mL", w.list, units.None, ""))
	must(tricorder.RegisterMetric(x.Dir+"/mD", w.dist, units.None, ""))
	x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
	return w
}

// fail runs a request with a fault; it reports how many writes the request made.
func (w *c03World) fail(f fault) (writes int) {
	x := w.x
	x.Log("failing request %v starts", f)
	n := f.panic
	w.armed[vsched.Self()] = &n
	for _, g := range w.g {
		g.failing[vsched.Self()] = true
	}
	if f.nan {
		w.list.Change([]float64{math.NaN(), 2}, false)
		w.dist.Add(math.NaN())
	}
	defer func() {
		recover()
		delete(w.armed, vsched.Self())
		for _, g := range w.g {
			delete(g.failing, vsched.Self())
		}
		if f.nan {
			w.list.Change([]float64{1}, false)
		}
		x.Log("failing request %v ends", f)
	}()
	kind, gz := strings.CutSuffix(f.kind, "+gz")
	path := x.Dir
	if isSingle(kind) {
		path += "/zA"
		if f.nan {
			path = x.Dir + "/mL"
		}
	}
	var hdr []string
	if gz {
		hdr = []string{"Accept-Encoding", "gzip"}
	}
	var u string
	switch kind {
	case "inproc", "inproc1":
		tricorder.ReadMyMetrics(path)
		return
	case "rpc", "rpc1":
		c := &capCodec{method: "MetricsServer.ListMetrics", arg: path, fail: f.write > 0}
		if kind == "rpc1" {
			c.method = "MetricsServer.GetMetric"
		}
		rpcCall(c)
		return 1
	case "json", "jsonL1":
		u = jsonURL(path)
	case "json1":
		u = jsonOneURL(path)
	case "html", "html1":
		u = htmlURL(path)
	case "text", "text1":
		u = textURL(path)
	}
	pu, err := url.Parse(u)
	must(err)
	r := serve(pu, f.write, hdr...)
	return r.writes
}

// probe makes a request through kind that must update each group it reads exactly once.
func (w *c03World) probe(kind string) error {
	var before [2]int
	for i, g := range w.g {
		before[i] = len(g.runs)
	}
	var os []obs
	var err error
	switch {
	case isSingle(kind):
		os, err = readInts(kind, w.x.Dir, "bA")
	case kind == "html":
		os, err = readInts(kind, w.x.Dir, "")
	default:
		os, err = readGroupInts(kind, w.x.Dir)
	}
	if err != nil {
		return fmt.Errorf("%s fails: %v", kind, err)
	}
	for i, g := range w.g {
		want, n := 1, 3
		if isSingle(kind) {
			n = 1
			if i == 1 {
				want, n = 0, 0
			}
		}
		if got := len(g.runs) - before[i]; got != want {
			return fmt.Errorf("a later request through %s ran %d updates of group %s, want %d", kind, got, g.name, want)
		}
		got := 0
		for _, o := range os {
			if !strings.HasSuffix(o.Path, g.name) {
				continue
			}
			got++
			if o.Val != g.n || o.TS != "" && o.TS != tsString(g.runs[len(g.runs)-1].ts) {
				return fmt.Errorf("a later request through %s returned %v, want update %d of group %s", kind, o, g.n, g.name)
			}
		}
		if got != n {
			return fmt.Errorf("a later request through %s returned %d values of group %s, want %d: %v", kind, got, g.name, n, os)
		}
	}
	return nil
}

// c03Faults finds all fault points by running a request with each.
func c03Faults(kinds []string) []fault {
	var out []fault
	for _, k := range kinds {
		x := &Exec{Dir: fmt.Sprintf("/f%d", execCount)}
		execCount++
		w := newC03World(x)
		n := w.fail(fault{kind: k})
		if !strings.HasPrefix(k, "inproc") {
			for i := 1; i <= n; i++ {
				out = append(out, fault{kind: k, write: i})
			}
		}
		for p := 1; p <= 8; p++ {
			w.panics = 0
			w.fail(fault{kind: k, panic: p})
			if w.panics == 0 {
				break
			}
			out = append(out, fault{kind: k, panic: p})
		}
		out = append(out, fault{kind: k, nan: true})
		if n > 1 {
			out = append(out, fault{kind: k, write: 2, nan: true})
		}
		for _, f := range x.cleanup {
			f()
		}
	}
	return out
}

var c03Kinds = append(append([]string{}, accessKinds...), "json+gz", "json1+gz")

func c03Seq(w *W, name string) {
	vsched.BeginExec()
	var kind int
	if _, err := fmt.Sscanf(name, "kinds/%d", &kind); err == nil {
		gkFault(w, gkinds[kind])
		return
	}
	if _, err := fmt.Sscanf(name, "unencodable/%d", &kind); err == nil {
		gkUnencodable(w, kind)
		return
	}
	if manyTask(w, name) {
		return
	}
	w.cur = func() string { return "finding fault points" }
	faults := c03Faults(c03Kinds)
	first := c03Faults([]string{strings.TrimPrefix(name, "seq/")})
	run := func(fs ...fault) {
		w.Eval()
		w.cur = func() string { return fmt.Sprint(fs) }
		execCount++
		x := &Exec{N: execCount, Dir: fmt.Sprintf("/x%d", execCount)}
		vsched.BeginExec()
		cw := newC03World(x)
		for _, f := range fs {
			w.Trans(1)
			cw.fail(f)
		}
		probes := []string{fs[len(fs)-1].kind, "json", "inproc1", "text"}
		for _, p := range probes {
			p, _ = strings.CutSuffix(p, "+gz")
			w.Trans(1)
			if err := cw.probe(p); err != nil {
				w.Fail(fmt.Sprintf("held/%s/%s", fs[0].kind, fs[len(fs)-1].kind), "after failing requests %v: %v", fs, err)
				break
			}
		}
		for i, f := range x.fails {
			w.Fail(x.keys[i], "%v: %s", fs, f)
		}
		w.State(fmt.Sprint(fs[len(fs)-1], len(cw.g[0].runs), len(cw.g[1].runs)))
		w.Trace()
		w.Sample(fmt.Sprint(fs))
		for _, f := range x.cleanup {
			f()
		}
		vsched.EndExec()
	}
	for _, f := range first {
		run(f)
		for _, f2 := range faults {
			run(f, f2)
		}
		if w.tier == "thorough" {
			for _, f2 := range faults {
				if f2.write > 4 {
					continue
				}
				for _, f3 := range faults {
					if f3.write <= 2 {
						run(f, f2, f3)
					}
				}
			}
		}
	}
}

func c03Scens(tier string) []Scen {
	var out []Scen
	bound := 2
	if tier == "thorough" {
		bound = 3
	}
	vsched.BeginExec()
	var faults []fault
	seen := map[string]int{}
	for _, f := range c03Faults(c03Kinds) {
		if f.write > 0 {
			seen[f.kind]++
			if seen[f.kind] > 2 && seen[f.kind]%12 != 0 {
				continue
			}
		}
		faults = append(faults, f)
	}
	vsched.EndExec()
	for _, f := range faults {
		for _, k := range []string{"rpc", "text", "json1"} {
			f, k := f, k
			out = append(out, Scen{Name: fmt.Sprintf("%v+%s", f, k), Bound: bound, FreeCost: true, Build: func(x *Exec) ([]func(), func()) {
				w := newC03World(x)
				var os []obs
				var err error
				return []func(){func() { w.fail(f) }, func() {
					if isSingle(k) {
						os, err = readInts(k, x.Dir, "bA")
					} else {
						os, err = readGroupInts(k, x.Dir)
					}
				}}, func() {
					if err != nil {
						x.Failf("error", "concurrent request %s fails: %v", k, err)
						return
					}
					for i, g := range w.g {
						want := 3
						if isSingle(k) {
							want = 1 - i
						}
						g.checkObs("concurrent "+k, g.name, os, want)
					}
					x.Outcome("%v", short(os))
					for _, p := range []string{"rpc", "inproc1", "json"} {
						if err := w.probe(p); err != nil {
							x.Failf("held", "after failing request %v: %v", f, err)
						}
					}
				}
			}})
		}
	}
	return out
}

func init() {
	define(&Def{ID: "C03", Inst: true, Scens: c03Scens, Do: c03Seq,
		Tasks: func(tier string) []string {
			var out []string
			for _, k := range c03Kinds {
				out = append(out, "seq/"+k)
			}
			for i := range gkinds {
				out = append(out, fmt.Sprintf("kinds/%d", i))
			}
			for i := 0; i < 4; i++ {
				out = append(out, fmt.Sprintf("unencodable/%d", i))
			}
			return append(out, manyTasks(tier, "broken", "repeated")...)
		},
		Rule: "every single fault (connection failing at each write, panic in each callback, values that cannot be encoded) of every access path, all pairs of them in sequence (thorough: triples), each followed by probing requests; callbacks of 16 kinds panicking at each evaluation through every access path, followed by a request through every access path; floats of the group that cannot be encoded, likewise; requests over up to 129 (thorough 513) groups failing in the middle and at the end, and as many failing requests in a row; and every fault concurrent with another request, all schedules up to the bound"})
}
