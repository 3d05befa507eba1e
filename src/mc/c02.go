package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// treq is a request with the groups it reads.
type treq struct {
	*request
	touch map[*grp]bool
}

// replacement is a completed or pending RegisterUpdateFunc call.
type replacement struct {
	fn         int
	start, end int64
}

// c02Check judges one group from the intervals of all requests and the runs of its update function.
func c02Check(x *Exec, g *grp, reqs []treq, reps []replacement) {
	var mine []treq
	for _, r := range reqs {
		if r.touch[g] {
			mine = append(mine, r)
		}
	}
	sort.Slice(mine, func(i, j int) bool { return mine[i].start < mine[j].start })
	// clusters of overlapping requests
	type cluster struct {
		start, end int64
		n          int
	}
	var cs []cluster
	for _, r := range mine {
		if n := len(cs); n > 0 && r.start < cs[n-1].end {
			cs[n-1].n++
			if r.end > cs[n-1].end {
				cs[n-1].end = r.end
			}
		} else {
			cs = append(cs, cluster{r.start, r.end, 1})
		}
	}
	count := make([]int, len(cs))
	for _, u := range g.runs {
		in := false
		for i, c := range cs {
			if u.start > c.start && u.end < c.end {
				count[i]++
				in = true
			}
		}
		if !in {
			x.Failf("stray-update", "update of %s ran at [%d,%d] with no request reading the group", g.name, u.start, u.end)
		}
	}
	for i, c := range cs {
		if count[i] < 1 {
			x.Failf("no-update", "%d requests of %s at [%d,%d] ran no update", c.n, g.name, c.start, c.end)
		}
		if count[i] > c.n {
			x.Failf("extra-update", "%d requests of %s at [%d,%d] ran %d updates", c.n, g.name, c.start, c.end, count[i])
		}
	}
	for _, r := range mine {
		for _, o := range r.obs {
			nm := o.Path[strings.LastIndexByte(o.Path, '/')+1:]
			if !strings.HasSuffix(nm, g.name) {
				continue
			}
			if o.Val < 1 || o.Val > int64(len(g.runs)) {
				x.Failf("no-such-update", "%s of %s returned %d, %d updates ran", r.kind, g.name, o.Val, len(g.runs))
				continue
			}
			u := g.runs[o.Val-1]
			if u.start > r.end {
				x.Failf("future", "%s returned data of a later update", r.kind)
			}
			if u.end < r.start {
				// reused: some request must have been reading all the time since
				for _, c := range cs {
					if c.start < r.start && r.start < c.end || c.start == r.start {
						if u.start < c.start {
							x.Failf("stale", "%s at [%d,%d] returned data of %s updated at [%d,%d] though the group was idle in between",
								r.kind, r.start, r.end, g.name, u.start, u.end)
						}
					}
				}
			}
		}
	}
	for _, p := range reps {
		for _, u := range g.runs {
			var since int64 // when the function that ran had been registered
			for _, q := range reps {
				if q.fn == u.fn {
					since = q.end
				}
			}
			if u.fn != p.fn && since < p.start && u.start > p.end {
				x.Failf("old-function", "update function %d of %s started at %d after its replacement returned at %d", u.fn, g.name, u.start, p.end)
			}
			if u.fn == p.fn && u.start < p.start {
				x.Failf("early-function", "update function %d of %s started at %d before it was registered at %d", u.fn, g.name, u.start, p.start)
			}
		}
	}
}

// c02World is a tree with two groups g1, g2 in their own directories, and one without groups.
type c02World struct {
	x      *Exec
	g1, g2 *grp
	list   *tricorder.List
	dist   *tricorder.CumulativeDistribution
	fns    int
}

func newC02World(x *Exec, deflt bool) *c02World {
	w := &c02World{x: x, g1: newGrp(x, "A"), g2: newGrp(x, "B")}
	if deflt { // the second group is the default group
		w.g2.g = tricorder.DefaultGroup
		w.g2.g.RegisterUpdateFunc(w.g2.update(0))
		x.Cleanup(func() { tricorder.DefaultGroup.RegisterUpdateFunc(time.Now) })
	}
	for _, g := range []*grp{w.g1, w.g2} {
		g.timed = true
		g.registerAll(x.Dir+"/d"+g.name, g.name)
	}
	w.list = tricorder.NewList([]int64{1}, false)
	w.dist = tricorder.PowersOfTen.NewCumulativeDistribution()
	must(tricorder.RegisterMetric(x.Dir+"/dN/list", w.list, units.None, ""))
	must(tricorder.RegisterMetric(x.Dir+"/dN/dist", w.dist, units.None, ""))
	must(tricorder.RegisterMetricInGroup(x.Dir+"/dN/glist", w.list, w.g1.g, units.None, ""))
	x.timed = true
	x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
	return w
}

// targets of a request: sub directory, and for single metric kinds the name
var c02Targets = []string{"dA", "dB", "", "dN", "none"}

// do runs one request against a target and says which groups it must read.
func (w *c02World) do(kind, target string) treq {
	dir := w.x.Dir
	if target != "" {
		dir += "/" + target
	}
	one := "b" + strings.TrimPrefix(target, "d")
	touch := map[*grp]bool{}
	switch target {
	case "dA":
		touch[w.g1] = true
	case "dB":
		touch[w.g2] = true
	case "":
		one = "dA/c" + w.g1.name
		touch[w.g1] = true
		// the page of a directory shows only what is directly in it
		if kind == "html" {
			touch = map[*grp]bool{}
		} else if !isSingle(kind) {
			touch[w.g2] = true
		}
	case "dN":
		one = "glist"
	case "none":
		one = "bA"
	}
	r := &request{kind: kind + ":" + target, one: one}
	w.x.Log("request %s starts", r.kind)
	r.start = w.x.clock()
	if target == "dN" || target == "none" {
		rawRead(kind, dir, one)
	} else if target == "" && !isSingle(kind) && kind != "html" && kind != "text" {
		// contains the list and the distribution too
		r.obs, r.err = readGroupInts(kind, dir)
	} else if target == "" && kind == "text" {
		r.obs, r.err = readGroupInts("text", dir)
	} else {
		r.obs, r.err = readInts(kind, dir, one)
	}
	r.end = w.x.clock()
	w.x.Log("request %s ends: %v %v", r.kind, r.obs, r.err)
	return treq{r, touch}
}

// rawRead performs a request and ignores the answer.
func rawRead(kind, dir, one string) {
	path := dir
	if isSingle(kind) {
		path += "/" + one
	}
	switch kind {
	case "inproc", "inproc1":
		tricorder.ReadMyMetrics(path)
	case "rpc":
		rpcList(path)
	case "rpc1":
		rpcGet(path)
	case "json", "jsonL1":
		fetch(jsonURL(path))
	case "json1":
		fetch(jsonOneURL(path))
	case "html", "html1":
		fetch(htmlURL(path))
	case "text", "text1":
		fetch(textURL(path))
	}
}

// readGroupInts lists dir and keeps the metrics of the groups, which are the integers.
func readGroupInts(kind, dir string) (result []obs, err error) {
	switch kind {
	case "inproc", "rpc":
		l := tricorder.ReadMyMetrics
		var ms []*obs
		add := func(path string, v any, ts any, gid int) {
			n, ok := v.(int64)
			if !ok {
				return
			}
			s := ""
			if t, ok := ts.(time.Time); ok {
				s = tsString(t)
			}
			ms = append(ms, &obs{path, n, s, gid})
		}
		if kind == "inproc" {
			for _, m := range l(dir) {
				add(m.Path, m.Value, m.TimeStamp, m.GroupId)
			}
		} else {
			rl, err := rpcList(dir)
			if err != nil {
				return nil, err
			}
			for _, m := range rl {
				add(m.Path, m.Value, m.TimeStamp, m.GroupId)
			}
		}
		for _, o := range ms {
			result = append(result, *o)
		}
	case "json":
		l, err := jsonList(dir)
		if err != nil {
			return nil, err
		}
		for _, m := range l {
			if m.Kind != "int64" {
				continue
			}
			var n int64
			if _, err := fmt.Sscan(string(m.Value), &n); err != nil {
				return nil, err
			}
			result = append(result, obs{m.Path, n, m.TimeStamp, m.GroupId})
		}
	case "text":
		r := fetch(textURL(dir))
		if r.Panic != "" {
			return nil, fmt.Errorf("panic: %s", r.Panic)
		}
		for _, l := range strings.Split(string(r.Body), "\n") {
			var p string
			var n int64
			if c, _ := fmt.Sscanf(l, "%s %d", &p, &n); c == 2 && !strings.Contains(l, "/dN/") {
				result = append(result, obs{Path: p, Val: n, Gid: -1})
			}
		}
	}
	return
}

func (w *c02World) replace(g *grp, fn int) replacement {
	p := replacement{fn: fn}
	p.start = w.x.clock()
	w.x.Log("RegisterUpdateFunc %d of %s starts", fn, g.name)
	g.g.RegisterUpdateFunc(g.update(fn))
	p.end = w.x.clock()
	w.x.Log("RegisterUpdateFunc %d of %s ends", fn, g.name)
	return p
}

// wantObs is the number of integer values each response must hold.
func (w *c02World) check(reqs []treq, repsA []replacement) {
	for i, r := range reqs {
		if r.err != nil {
			w.x.Failf("error", "request %d %s failed: %v", i, r.kind, r.err)
		}
	}
	c02Check(w.x, w.g1, reqs, repsA)
	c02Check(w.x, w.g2, reqs, nil)
}

type c02Op struct {
	kind, target string
	replace      int
}

func (o c02Op) String() string {
	if o.replace > 0 {
		return fmt.Sprintf("replace%d", o.replace)
	}
	return o.kind + ":" + o.target
}

func c02Scens(tier string) []Scen {
	var out []Scen
	add := func(name string, bound int, prep func(w *c02World), progs ...[]c02Op) {
		out = append(out, Scen{Name: name, Bound: bound, FreeCost: true, Build: func(x *Exec) ([]func(), func()) {
			w := newC02World(x, false)
			if prep != nil {
				prep(w)
			}
			var reqs []treq
			var reps []replacement
			var bodies []func()
			for _, p := range progs {
				p := p
				bodies = append(bodies, func() {
					for _, op := range p {
						if op.replace > 0 {
							reps = append(reps, w.replace(w.g1, op.replace))
						} else {
							reqs = append(reqs, w.do(op.kind, op.target))
						}
					}
				})
			}
			return bodies, func() {
				w.check(reqs, reps)
				x.Outcome("runs A=%d B=%d", len(w.g1.runs), len(w.g2.runs))
				// afterwards a lone request updates once
				a, b := len(w.g1.runs), len(w.g2.runs)
				w.do("inproc", "")
				if len(w.g1.runs) != a+1 || len(w.g2.runs) != b+1 {
					x.Failf("left-held", "a later request ran %d and %d updates", len(w.g1.runs)-a, len(w.g2.runs)-b)
				} else if len(reps) > 0 {
					last := reps[0]
					for _, p := range reps {
						if p.start > last.end {
							last = p
						}
					}
					ok := false
					for _, p := range reps { // any registration not surely overwritten
						if p.end >= last.start && w.g1.runs[a].fn == p.fn {
							ok = true
						}
					}
					if !ok {
						x.Failf("not-replaced", "a later request ran function %d", w.g1.runs[a].fn)
					}
				}
			}
		}})
	}
	r := func(kind, target string) c02Op { return c02Op{kind: kind, target: target} }
	bound, deep := 3, 2
	if tier == "thorough" {
		bound, deep = 5, 4
	}
	for i, k1 := range accessKinds {
		for _, k2 := range accessKinds[i:] {
			add("pair/"+k1+"+"+k2, bound, nil, []c02Op{r(k1, "dA")}, []c02Op{r(k2, "dA")})
		}
	}
	for _, k := range accessKinds {
		add("thrice/"+k, deep, nil, []c02Op{r(k, "dA"), r(k, "dA")}, []c02Op{r("json1", "dA")})
		add("replace/"+k, deep, nil, []c02Op{r(k, "dA")}, []c02Op{{replace: 1}, r("inproc1", "dA")})
		add("apart/"+k, bound, nil, []c02Op{r(k, "dA")}, []c02Op{r(k, "dB")})
		add("none/"+k, bound, nil, []c02Op{r(k, "dN")}, []c02Op{r("inproc1", "dA")})
		if !isSingle(k) {
			add("cross/"+k, deep, nil, []c02Op{r(k, "")}, []c02Op{r("inproc1", "dB"), r("inproc1", "dA")})
		}
	}
	add("replace-twice", deep, nil, []c02Op{{replace: 1}, {replace: 2}}, []c02Op{r("rpc1", "dA"), r("rpc1", "dA")})
	add("replace-race", deep, nil, []c02Op{{replace: 1}}, []c02Op{{replace: 2}}, []c02Op{r("rpc1", "dA")})
	add("three", deep, nil, []c02Op{r("inproc1", "dA")}, []c02Op{r("json1", "dA")}, []c02Op{r("text1", "dA")})
	out[len(out)-1].FreeCost = true
	// callbacks that use the library themselves
	for _, k := range []string{"inproc", "rpc", "json", "html", "text"} {
		k := k
		use := func(w *c02World) {
			n := 0
			must(tricorder.RegisterMetricInGroup(w.x.Dir+"/dA/m", func() int64 {
				n++
				nm := fmt.Sprintf("%s/dA/new%d", w.x.Dir, n)
				v := w.g1.n
				must(tricorder.RegisterMetricInGroup(nm, &v, w.g1.g, units.None, ""))
				tricorder.UnregisterPath(nm)
				return w.g1.n
			}, w.g1.g, units.None, ""))
		}
		add("callback-registers/"+k, 1, use, []c02Op{r(k, "dA")}, []c02Op{r("inproc1", "dA")})
	}
	return out
}

// c02Seq runs every sequence of requests of the given depth that starts with kind.
func c02Seq(w *W, name string) {
	depth := 2
	if w.tier == "thorough" {
		depth = 3
	}
	var ops []c02Op
	for _, k := range accessKinds {
		for _, t := range c02Targets {
			ops = append(ops, c02Op{kind: k, target: t})
		}
	}
	ops = append(ops, c02Op{replace: 1})
	if strings.HasPrefix(name, "shape/") {
		c01Shapes(w, name, true)
		return
	}
	if strings.HasPrefix(name, "overlap/") {
		ovTask(w, name, true)
		return
	}
	if strings.HasPrefix(name, "kinds/") {
		gkTask(w, name, true)
		return
	}
	if manyTask(w, name) {
		return
	}
	way, first, _ := strings.Cut(name, "/")
	deflt := way == "default"
	var seq []c02Op
	var rec func()
	rec = func() {
		if len(seq) > 0 {
			c02RunSeq(w, seq, deflt)
		}
		if len(seq) == depth {
			return
		}
		for _, op := range ops {
			if len(seq) == 0 && op.String() != first {
				continue
			}
			seq = append(seq, op)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

func c02RunSeq(w *W, seq []c02Op, deflt bool) {
	w.Eval()
	w.cur = func() string { return fmt.Sprint(seq) }
	execCount++
	x := &Exec{N: execCount, Dir: fmt.Sprintf("/x%d", execCount)}
	vsched.BeginExec()
	cw := newC02World(x, deflt)
	var reqs []treq
	var reps []replacement
	fn := 0
	for _, op := range seq {
		w.Trans(1)
		a, b := len(cw.g1.runs), len(cw.g2.runs)
		if op.replace > 0 {
			fn++
			reps = append(reps, cw.replace(cw.g1, fn))
			if len(cw.g1.runs) != a {
				w.Fail("replace-ran", "%v: registering an update function ran one", seq)
			}
			continue
		}
		r := cw.do(op.kind, op.target)
		reqs = append(reqs, r)
		for _, g := range []*grp{cw.g1, cw.g2} {
			before := a
			if g == cw.g2 {
				before = b
			}
			want := 0
			if r.touch[g] {
				want = 1
			}
			if got := len(g.runs) - before; got != want {
				w.Fail(fmt.Sprintf("runs/%v", op), "%v: last request ran %d updates of %s, want %d", seq, got, g.name, want)
			}
			if want == 1 && g == cw.g1 && len(g.runs) > 0 && g.runs[len(g.runs)-1].fn != fn {
				w.Fail(fmt.Sprintf("function/%v", op), "%v: update ran function %d, want %d", seq, g.runs[len(g.runs)-1].fn, fn)
			}
		}
	}
	cw.check(reqs, reps)
	for i, f := range x.fails {
		w.Fail(x.keys[i], "%v: %s", seq, f)
	}
	w.State(fmt.Sprint(len(cw.g1.runs), len(cw.g2.runs), fn))
	w.Trace()
	w.Sample(fmt.Sprint(seq))
	for _, f := range x.cleanup {
		f()
	}
	vsched.EndExec()
}

func init() {
	define(&Def{ID: "C02", Inst: true, Scens: c02Scens, Do: c02Seq,
		Tasks: func(tier string) []string {
			var out []string
			for _, k := range accessKinds {
				for _, t := range c02Targets {
					out = append(out, "seq/"+k+":"+t, "default/"+k+":"+t)
				}
			}
			return append(append(out, "seq/replace1", "shape/0", "shape/1", "shape/2", "shape/3"), append(append(ovTasks(), gkTasks()...), manyTasks(tier, "groups", "nested", "chain")...)...)
		},
		Rule: "all schedules up to the deviation bound of concurrent requests and update function replacements over two groups, and all sequences of requests (11 access paths x 5 targets) and replacements up to the depth, and single requests over every way to spread two groups over four directories, and every order in which up to 5 (thorough 7) requests held in the middle begin and end with the update function replaced at every point; all pairs of kinds of metrics in a group x eight sorts of timestamps x access path; requests over up to 129 (thorough 513) groups through every access path, alone and in pairs inside each other, and up to as many requests of one group inside each other; update functions that read other groups, up to 33 deep; each sequence also with the default group; each schedule or sequence is executed on the real code"})
}
