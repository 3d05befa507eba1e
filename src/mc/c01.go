package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// grp is an instrumented group used by C01-C03: its update function writes x and y and the
// metrics a (variable x), b (callback), c (variable y), z (callback) report the update number.
type grp struct {
	x        *Exec
	name     string
	g        *tricorder.Group
	n        int64 // completed updates
	vx, vy   int64
	inUpdate bool
	reading  map[string]bool // threads between their first and last callback of this group
	runs     []run
	failing  map[string]bool // threads whose request will fail: when they stop reading is not known
	base     int64
	mon      vsched.SyncVC
	timed    bool
}

// clock stamps an event; only timed scenarios need the stamps of different threads ordered.
func (g *grp) clock() int64 {
	vsched.Touch(&g.mon)
	if g.timed {
		return vsched.Tick()
	}
	return vsched.Stamp()
}

type run struct {
	start, end int64
	fn         int
	by         string
	ts         time.Time
}

func newGrp(x *Exec, name string) *grp {
	g := &grp{x: x, name: name, g: tricorder.NewGroup(), reading: map[string]bool{}, failing: map[string]bool{}}
	g.g.RegisterUpdateFunc(g.update(0))
	return g
}

func (g *grp) update(fn int) func() time.Time {
	return func() time.Time {
		r := run{start: g.clock(), fn: fn, by: vsched.Self()}
		if g.inUpdate {
			g.x.Failf("update-overlap", "two runs of the update function of %s overlap", g.name)
		}
		for t := range g.reading {
			g.x.Failf("update-while-reading", "update function of %s runs while %s is reading the group", g.name, t)
		}
		g.inUpdate = true
		g.x.Log("update %s fn%d -> %d starts", g.name, fn, g.n+1)
		*vsched.W(&g.vx, "update function") = g.n + 1
		vsched.PointHere()
		*vsched.W(&g.vy, "update function") = g.n + 1
		g.n++
		g.inUpdate = false
		r.end = g.clock()
		r.ts = time.Unix(1400000000+g.base+g.n, int64(fn))
		g.runs = append(g.runs, r)
		g.x.Log("update %s fn%d -> %d ends", g.name, fn, g.n)
		return r.ts
	}
}

func (g *grp) first() int64 {
	g.clock()
	if g.inUpdate {
		g.x.Failf("callback-during-update", "callback of %s runs during an update", g.name)
	}
	if !g.failing[vsched.Self()] {
		g.reading[vsched.Self()] = true
	}
	g.x.Log("reads first callback of %s: %d", g.name, g.n)
	v := *vsched.R(&g.vx, "callback")
	vsched.PointHere()
	return v
}

func (g *grp) last() int64 {
	vsched.PointHere()
	g.clock()
	if g.inUpdate {
		g.x.Failf("callback-during-update", "callback of %s runs during an update", g.name)
	}
	v := *vsched.R(&g.vy, "callback")
	delete(g.reading, vsched.Self())
	g.x.Log("reads last callback of %s: %d", g.name, v)
	return v
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// registerAll registers the group's metrics in the execution's directory with names that
// interleave those of other groups.
func (g *grp) registerAll(dir, suffix string) {
	must(tricorder.RegisterMetricInGroup(dir+"/a"+suffix, g.first, g.g, units.None, "first"))
	must(tricorder.RegisterMetricInGroup(dir+"/b"+suffix, &g.vx, g.g, units.None, "x"))
	must(tricorder.RegisterMetricInGroup(dir+"/c"+suffix, &g.vy, g.g, units.None, "y"))
	must(tricorder.RegisterMetricInGroup(dir+"/z"+suffix, g.last, g.g, units.None, "last"))
}

// registerSpread registers the group's metrics in directories of different depth, in the order first ... last.
func (g *grp) registerSpread(dir, suffix string) {
	must(g.g.RegisterMetric(dir+"/a/a"+suffix, g.first, units.None, "first"))
	d, err := tricorder.RegisterDirectory(dir + "/b")
	must(err)
	must(d.RegisterMetricInGroup("b"+suffix, &g.vx, g.g, units.None, "x"))
	e, err := d.RegisterDirectory("d")
	must(err)
	must(tricorder.DirectoryGroup{Group: g.g, Directory: e}.RegisterMetric("c"+suffix, &g.vy, units.None, "y"))
	must(tricorder.RegisterMetricInGroup(dir+"/c/d/z"+suffix, g.last, g.g, units.None, "last"))
}

// checkObs checks the values of one group in one response.
func (g *grp) checkObs(who string, suffix string, os []obs, want int) {
	var val int64 = -1
	n := 0
	for _, o := range os {
		nm := o.Path[strings.LastIndexByte(o.Path, '/')+1:]
		if len(nm) != 1+len(suffix) || nm[1:] != suffix {
			continue
		}
		n++
		if val == -1 {
			val = o.Val
		}
		if o.Val != val {
			g.x.Failf("mixed-update", "%s: response mixes updates %d and %d of group %s: %v", who, val, o.Val, g.name, os)
		}
		if o.Val < 1 || o.Val > int64(len(g.runs)) {
			g.x.Failf("no-such-update", "%s: value %d of group %s is not from a completed update (%d runs): %v", who, o.Val, g.name, len(g.runs), os)
			continue
		}
		if o.TS != "" && o.TS != tsString(g.runs[o.Val-1].ts) {
			g.x.Failf("timestamp", "%s: value %d of group %s has timestamp %s, that run returned %s", who, o.Val, g.name, o.TS, tsString(g.runs[o.Val-1].ts))
		}
	}
	if n != want {
		g.x.Failf("missing", "%s: %d metrics of group %s reported, want %d: %v", who, n, g.name, want, os)
	}
}

// request is one request of a thread and what it observed.
type request struct {
	kind       string
	one        string
	start, end int64
	obs        []obs
	err        error
}

func (x *Exec) request(kind, one string) *request {
	r := &request{kind: kind, one: one}
	x.Log("request %s starts", kind)
	r.start = x.clock()
	r.obs, r.err = readInts(kind, x.Dir, one)
	r.end = x.clock()
	x.Log("request %s ends: %v %v", kind, r.obs, r.err)
	return r
}

func c01Scens(tier string) []Scen {
	var out []Scen
	bound := 1
	if tier == "thorough" {
		bound = 2
	}
	spread := false
	add := func(name string, bound int, kinds [][]string, groups int) {
		spread := spread
		out = append(out, Scen{Name: name, Bound: bound, Build: func(x *Exec) ([]func(), func()) {
			gs := make([]*grp, groups)
			for i := range gs {
				gs[i] = newGrp(x, fmt.Sprintf("G%d", i+1))
				gs[i].base = int64(i) * 100
				if spread {
					gs[i].registerSpread(x.Dir, fmt.Sprint(i))
				} else {
					gs[i].registerAll(x.Dir, fmt.Sprint(i))
				}
			}
			x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
			var reqs []*request
			var bodies []func()
			for ti, ks := range kinds {
				ti, ks := ti, ks
				bodies = append(bodies, func() {
					for _, k := range ks {
						one := "b0"
						if ti%2 == 1 {
							one = "c0"
						}
						if spread {
							one = map[string]string{"b0": "b/b0", "c0": "b/d/c0"}[one]
						}
						if k == "replace" {
							x.Log("RegisterUpdateFunc starts")
							gs[0].g.RegisterUpdateFunc(gs[0].update(ti))
							x.Log("RegisterUpdateFunc ends")
							continue
						}
						reqs = append(reqs, x.request(k, one))
					}
				})
			}
			return bodies, func() {
				for i, r := range reqs {
					if r.err != nil {
						x.Failf("error", "request %d %s failed: %v", i, r.kind, r.err)
						continue
					}
					for gi, g := range gs {
						want := 4
						if isSingle(r.kind) {
							want = 1
							if gi > 0 {
								want = 0
							}
						}
						g.checkObs(fmt.Sprintf("request %d %s", i, r.kind), fmt.Sprint(gi), r.obs, want)
					}
					x.Outcome("%s=%v ", r.kind, short(r.obs))
				}
			}
		}})
	}
	for i, k1 := range accessKinds {
		for _, k2 := range accessKinds[i:] {
			add("pair/"+k1+"+"+k2, unbounded, [][]string{{k1}, {k2}}, 1)
		}
	}
	for _, k := range accessKinds {
		if !isSingle(k) {
			add("two-groups/"+k, bound, [][]string{{k}, {"rpc"}}, 2)
		}
		add("again/"+k, bound, [][]string{{k, k}, {"json", "rpc"}}, 1)
	}
	for _, k := range accessKinds {
		add("replace/"+k, bound+1, [][]string{{k}, {"replace"}}, 1)
		add("replace2/"+k, bound, [][]string{{k}, {"replace", "inproc1"}}, 1)
	}
	spread = true
	for _, k := range accessKinds {
		if k != "html" { // shows one directory only
			add("spread/"+k, bound+1, [][]string{{k}, {"json"}}, 1)
			add("spread2/"+k, bound, [][]string{{k}, {"rpc"}}, 2)
		}
	}
	spread = false
	add("three", bound, [][]string{{"inproc"}, {"json"}, {"text1"}}, 1)
	return out
}

// c01Dirs are the directories a group's metrics are spread over.
var c01Dirs = []string{"", "b", "b/d", "e"}

// c01Shapes runs single requests over every way to spread three metrics of two groups each
// over the directories; name is the place of the first group's first metric.
func c01Shapes(w *W, name string, counts bool) {
	var at [6]int
	fmt.Sscanf(name, "shape/%d", &at[0])
	vsched.BeginExec()
	var rec func(i int)
	rec = func(i int) {
		if i == len(at) {
			c01Shape(w, at, counts)
			return
		}
		for at[i] = 0; at[i] < len(c01Dirs); at[i]++ {
			rec(i + 1)
		}
	}
	rec(1)
}

// c01Shape judges what the responses contain, or the number of updates they run.
func c01Shape(w *W, at [6]int, counts bool) {
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	defer tricorder.UnregisterPath(dir)
	var n, runs [2]int64
	for g := 0; g < 2; g++ {
		g := g
		grp := tricorder.NewGroup()
		grp.RegisterUpdateFunc(func() time.Time {
			n[g]++
			runs[g]++
			return time.Unix(1400000000+n[g], 0)
		})
		for i := 0; i < 3; i++ {
			// names of the groups alternate
			p := fmt.Sprintf("%s/%s/%c%d", dir, c01Dirs[at[3*g+i]], "abcfgh"[2*i+g], g)
			if i == 1 {
				must(tricorder.RegisterMetricInGroup(p, func() int64 { return n[g] }, grp, units.None, ""))
			} else {
				must(tricorder.RegisterMetricInGroup(p, &n[g], grp, units.None, ""))
			}
		}
	}
	for _, target := range []string{"", "/b"} {
		for _, k := range []string{"inproc", "rpc", "json", "text", "html"} {
			w.Eval()
			w.Trans(1)
			w.cur = func() string { return fmt.Sprintf("%s of %q, metrics in %v", k, target, at) }
			runs = [2]int64{}
			os, err := readInts(k, dir+target, "")
			if err != nil {
				if len(os) == 0 && target != "" { // nothing there
					continue
				}
				w.Fail("shape-error/"+k, "%s of %q, metrics in %v: %v", k, target, at, err)
			}
			if counts {
				var want [2]int64
				for i, d := range at {
					if p := "/" + c01Dirs[d] + "/"; k == "html" && p != target+"/" && p != target+"//" || k != "html" && !strings.HasPrefix(p, target+"/") {
						continue
					}
					want[i/3] = 1
				}
				if runs != want {
					w.Fail("shape-runs/"+k, "%s of %q, metrics in %v: ran %v updates of the groups, want %v", k, target, at, runs, want)
				}
				continue
			}
			for _, o := range os {
				g := int(o.Path[len(o.Path)-1] - '0')
				if o.Val != n[g] || o.Val < 1 {
					w.Fail("shape-mixed/"+k, "%s of %q, metrics in %v: response has update %d of group %d after update %d: %v", k, target, at, o.Val, g, n[g], os)
				}
				if o.TS != "" && o.TS != tsString(time.Unix(1400000000+o.Val, 0)) {
					w.Fail("shape-stamp/"+k, "%s of %q, metrics in %v: update %d has timestamp %s", k, target, at, o.Val, o.TS)
				}
			}
		}
	}
	w.State(fmt.Sprint(at))
	w.Trace()
	w.Sample(fmt.Sprint(at))
}

func short(os []obs) string {
	s := ""
	for _, o := range os {
		s += fmt.Sprintf("%d,", o.Val)
	}
	return s
}

func init() {
	define(&Def{ID: "C01", Inst: true, Scens: c01Scens, Do: func(w *W, n string) {
		if strings.HasPrefix(n, "overlap/") {
			ovTask(w, n, false)
			return
		}
		if strings.HasPrefix(n, "kinds/") {
			gkTask(w, n, false)
			return
		}
		if manyTask(w, n) {
			return
		}
		c01Shapes(w, n, false)
	},
		Tasks: func(tier string) []string {
			return append([]string{"shape/0", "shape/1", "shape/2", "shape/3"}, append(append(ovTasks(), gkTasks()...), manyTasks(tier, "big", "groups")...)...)
		},
		Rule: "all schedules up to the deviation bound of 2-3 concurrent requests through every pair of access paths over groups of 4 metrics; also with metrics spread over directories and the update function being replaced; single requests over every way to spread two groups over four directories; every order in which up to 5 (thorough 7) requests held in the middle begin and end; all pairs of kinds of metrics in a group x eight sorts of timestamps x access path; groups of up to 129 (thorough 513) metrics, read while another request reads one of them, and as many groups; each execution is one distinct schedule or tree run on the real code"})
}
