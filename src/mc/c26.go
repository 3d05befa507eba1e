package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// thing is a group, distribution or list, registered at some paths.
type thing struct {
	kind   string // g, c, n, l
	g      *tricorder.Group
	spec   any
	change func()
	paths  []string
	id     int
	known  bool
}

// common is what the things of a history share.
type common struct {
	b *tricorder.Bucketer
	s []int64
}

func newCommon() *common { return &common{tricorder.NewArbitraryBucketer(1), []int64{1}} }

// fresh is a bucketer of one's own.
var fresh = &common{}

func newThing(kind string, c *common) *thing {
	t := &thing{kind: kind}
	if c == fresh {
		c = newCommon()
	}
	b := c.b
	t.g = tricorder.DefaultGroup
	switch kind {
	case "g":
		t.g = tricorder.NewGroup()
		v := int64(1)
		t.spec = &v
		t.change = func() { v++ }
	case "u": // a group with an update function
		t.g = tricorder.NewGroup()
		v := int64(1)
		t.spec = &v
		n := int64(0)
		t.g.RegisterUpdateFunc(func() time.Time { n++; return time.Unix(1400000000+n, 0) })
		t.change = func() {
			t.g.RegisterUpdateFunc(func() time.Time { n += 2; return time.Unix(1400000000+n, 0) })
		}
	case "c":
		d := b.NewCumulativeDistribution()
		t.spec = d
		t.change = func() { d.Add(1.0) }
	case "n":
		d := b.NewNonCumulativeDistribution()
		t.spec = d
		t.change = func() { d.Add(1.0) }
	case "l":
		l := tricorder.NewList(c.s, tricorder.ImmutableSlice)
		t.spec = l
		n := int64(1)
		t.change = func() { n++; l.Change([]int64{n}, tricorder.ImmutableSlice) }
	}
	return t
}

func (t *thing) register(path string) {
	must(tricorder.RegisterMetricInGroup(path, t.spec, t.g, units.None, ""))
	t.paths = append(t.paths, path)
}

// registerBy registers through one of the ways there are.
func (t *thing) registerBy(way int, dir, sub, name string) {
	path := dir + sub + "/" + name
	switch way {
	case 0:
		must(tricorder.RegisterMetricInGroup(path, t.spec, t.g, units.None, ""))
	case 1:
		must(t.g.RegisterMetric(path, t.spec, units.None, ""))
	default:
		d, err := tricorder.RegisterDirectory(dir + sub + "/d" + name)
		must(err)
		path = dir + sub + "/d" + name + "/" + name
		switch {
		case way == 2:
			must(d.RegisterMetricInGroup(name, t.spec, t.g, units.None, ""))
		case way == 3 || t.g != tricorder.DefaultGroup:
			must(tricorder.DirectoryGroup{Group: t.g, Directory: d}.RegisterMetric(name, t.spec, units.None, ""))
		default:
			must(d.RegisterMetric(name, t.spec, units.None, ""))
		}
	}
	t.paths = append(t.paths, path)
}

// idTS is what a response says about a metric.
type idTS struct {
	id int
	ts string
}

func readIDs(kind, path string) (map[string]idTS, error) {
	out := map[string]idTS{}
	switch kind {
	case "inproc", "rpc", "rpc1":
		l := tricorder.ReadMyMetrics
		if kind == "inproc" {
			for _, m := range l(path) {
				t, ok := m.TimeStamp.(time.Time)
				if !ok {
					return nil, fmt.Errorf("timestamp of %s is %T", m.Path, m.TimeStamp)
				}
				out[m.Path] = idTS{m.GroupId, tsString(t)}
			}
			return out, nil
		}
		if kind == "rpc1" {
			m, err := rpcGet(path)
			if err != nil {
				return nil, err
			}
			t, _ := m.TimeStamp.(time.Time)
			out[m.Path] = idTS{m.GroupId, tsString(t)}
			return out, nil
		}
		ml, err := rpcList(path)
		if err != nil {
			return nil, err
		}
		for _, m := range ml {
			t, _ := m.TimeStamp.(time.Time)
			out[m.Path] = idTS{m.GroupId, tsString(t)}
		}
	case "json":
		l, err := jsonList(path)
		if err != nil {
			return nil, err
		}
		for _, m := range l {
			out[m.Path] = idTS{m.GroupId, m.TimeStamp}
		}
	case "json1":
		m, err := jsonOne(path)
		if err != nil {
			return nil, err
		}
		out[m.Path] = idTS{m.GroupId, m.TimeStamp}
	}
	return out, nil
}

// judgeIDs compares a response with the things: known ids stay, ids of different things differ,
// the same id has the same timestamp.
func judgeIDs(got map[string]idTS, things []*thing) error {
	stamps := map[int]string{}
	where := map[int]string{}
	for p, x := range got {
		if ts, ok := stamps[x.id]; ok && ts != x.ts {
			return fmt.Errorf("%s and %s have id %d but timestamps %s and %s", p, where[x.id], x.id, x.ts, ts)
		}
		stamps[x.id], where[x.id] = x.ts, p
	}
	for _, t := range things {
		for _, p := range t.paths {
			x, ok := got[p]
			if !ok {
				continue
			}
			if t.known && t.id != x.id {
				return fmt.Errorf("%s (%s) has id %d, before %d", p, t.kind, x.id, t.id)
			}
			t.known, t.id = true, x.id
		}
	}
	for i, t := range things {
		for _, o := range things[:i] {
			if t.known && o.known && t.id == o.id {
				return fmt.Errorf("%v (%s) and %v (%s) have the same id %d", t.paths, t.kind, o.paths, o.kind, t.id)
			}
		}
	}
	return nil
}

func c26Seq(w *W, first string, depth int, shared bool) {
	kinds := []string{"g", "u", "c", "n", "l"}
	var rec func(seq []string)
	rec = func(seq []string) {
		if len(seq) == depth {
			w.Eval()
			desc := strings.Join(seq, " ")
			w.cur = func() string { return desc }
			execCount++
			dir := fmt.Sprintf("/x%d", execCount)
			// the default group is a thing, too
			def := &thing{kind: "default group", g: tricorder.DefaultGroup}
			dv := int64(1)
			def.spec = &dv
			def.register(dir + "/default")
			def.register(dir + "/sub/default2")
			things := []*thing{def}
			com := fresh
			if shared {
				com = newCommon()
			}
			for i, k := range seq {
				t := newThing(k, com)
				things = append(things, t)
				t.registerBy((int(execCount)+i)%5, dir, "", fmt.Sprintf("%c%d", 'z'-rune(i), i))
				t.registerBy((int(execCount)/5+2*i)%5, dir, "/sub", fmt.Sprintf("%c%d", 'a'+rune(i), i))
				if i%2 == 1 {
					things[i].change = coalesce(things[i].change)
					things[i].change()
				}
				for _, kind := range []string{"inproc", "rpc", "json"} {
					got, err := readIDs(kind, dir)
					if err == nil && len(got) != 2*len(things) {
						err = fmt.Errorf("%d metrics listed, %d registered", len(got), 2*len(things))
					}
					if err == nil {
						err = judgeIDs(got, things)
					}
					if err != nil {
						w.Fail("ids", "%s, %s after %d creations: %v", desc, kind, i+1, err)
						break
					}
					w.Trans(1)
				}
			}
			for _, t := range things {
				coalesce(t.change)()
				for pi, p := range t.paths {
					for _, kind := range []string{"rpc1", "json1"} {
						got, err := readIDs(kind, p)
						if err == nil {
							err = judgeIDs(got, things)
						}
						if err != nil {
							w.Fail("ids", "%s, %s of %s: %v", desc, kind, p, err)
						}
						w.Trans(1)
					}
					if pi == 0 { // registered anew
						tricorder.UnregisterPath(p)
						t.paths[0] = p + "x"
						must(tricorder.RegisterMetricInGroup(t.paths[0], t.spec, t.g, units.None, ""))
					}
				}
			}
			got, err := readIDs("json", dir)
			if err == nil {
				err = judgeIDs(got, things)
			}
			if err != nil {
				w.Fail("ids", "%s, after registering anew: %v", desc, err)
			}
			tricorder.UnregisterPath(dir)
			w.State(desc)
			w.Trace()
			w.Sample(desc)
			return
		}
		for _, k := range kinds {
			rec(append(append([]string{}, seq...), k))
		}
	}
	rec([]string{first})
}

func coalesce(f func()) func() {
	if f == nil {
		return func() {}
	}
	return f
}

// c26Create creates things concurrently.
func c26Create(bound int, progs ...string) Scen {
	return Scen{Name: "create " + strings.Join(progs, " "), Bound: bound, FreeCost: bound < unbounded, Build: func(x *Exec) ([]func(), func()) {
		x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
		made := make([][]*thing, len(progs))
		com := newCommon()
		var bodies []func()
		for i, p := range progs {
			i, p := i, p
			bodies = append(bodies, func() {
				for _, k := range p {
					made[i] = append(made[i], newThing(string(k), com))
				}
			})
		}
		return bodies, func() {
			var things []*thing
			for i := range made {
				for j, t := range made[i] {
					t.register(fmt.Sprintf("%s/t%d%d", x.Dir, i, j))
					things = append(things, t)
				}
			}
			for _, kind := range []string{"inproc", "json"} {
				got, err := readIDs(kind, x.Dir)
				if err == nil && len(got) != len(things) {
					err = fmt.Errorf("%d of %d metrics listed", len(got), len(things))
				}
				if err == nil {
					err = judgeIDs(got, things)
				}
				if err != nil {
					x.Failf("ids", "%s: %v", kind, err)
				}
			}
			min := -1
			for _, t := range things {
				if min < 0 || t.id < min {
					min = t.id
				}
			}
			for _, t := range things {
				x.Outcome("%s%d ", t.kind, t.id-min)
			}
		}
	}}
}

// c26Stamp lists things registered under two paths while they change.
func c26Stamp(bound int, what, kind string, changes int, others ...string) Scen {
	return Scen{Name: fmt.Sprintf("%s of %s changed %d times, with %v", kind, what, changes, others), Bound: bound, FreeCost: bound < unbounded, Build: func(x *Exec) ([]func(), func()) {
		x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
		var things []*thing
		com := newCommon()
		for i, k := range what {
			t := newThing(string(k), com)
			t.register(fmt.Sprintf("%s/a%d", x.Dir, i))
			t.register(fmt.Sprintf("%s/m/b%d", x.Dir, i))
			t.register(fmt.Sprintf("%s/z%d", x.Dir, i))
			things = append(things, t)
		}
		kinds := append([]string{kind}, others...)
		res := make([]map[string]idTS, len(kinds))
		errs := make([]error, len(kinds))
		var bodies []func()
		for i, k := range kinds {
			i, k := i, k
			bodies = append(bodies, func() { res[i], errs[i] = readIDs(k, x.Dir) })
		}
		bodies = append(bodies, func() {
			for n := 0; n < changes; n++ {
				for _, t := range things {
					if t.kind != "g" { // plain variables need the group's protection
						t.change()
					}
				}
			}
		})
		return bodies, func() {
			for i, k := range kinds {
				err := errs[i]
				if err == nil && len(res[i]) != 3*len(things) {
					err = fmt.Errorf("%d metrics listed, %d registered", len(res[i]), 3*len(things))
				}
				if err == nil {
					err = judgeIDs(res[i], things)
				}
				if err != nil {
					x.Failf("stamp", "%s: %v", k, err)
				}
				for _, t := range things {
					x.Outcome("%d:%s ", i, res[i][t.paths[0]].ts)
				}
			}
		}
	}}
}

func c26Scens(tier string) (out []Scen) {
	deep := tier == "thorough"
	b2, b3 := unbounded, 3
	if deep {
		b3 = 5
	}
	for _, p := range [][]string{{"g", "g"}, {"l", "l"}, {"c", "n"}, {"g", "l"}, {"l", "c"}, {"g", "n"}} {
		out = append(out, c26Create(b2, p...))
	}
	out = append(out, c26Create(b3, "ll", "cn", "g"), c26Create(b3, "gl", "cg"), c26Create(b3, "lc", "nl"))
	for _, k := range []string{"inproc", "rpc", "json"} {
		for _, what := range []string{"l", "c", "n"} {
			out = append(out, c26Stamp(b2, what, k, 1))
			out = append(out, c26Stamp(b3, what, k, 2))
		}
		out = append(out, c26Stamp(b3, "lc", k, 1), c26Stamp(b3, "u", k, 0, "inproc"), c26Stamp(b3, "g", k, 0, "rpc"), c26Stamp(b3, "l", k, 1, "json"), c26Stamp(b3, "ul", k, 1, "inproc"))
	}
	return
}

// c26Life keeps one thing of each kind through every sequence of operations on it and checks that ids stay apart and constant.
func c26Life(w *W, kind string) {
	depth := 4
	if w.tier == "thorough" {
		depth = 6
	}
	type world struct {
		dir    string
		things []*thing
		t      *thing
		n      int64
		held   []float64
		ops    map[string]func()
	}
	build := func() *world {
		execCount++
		x := &world{dir: fmt.Sprintf("/x%d", execCount), ops: map[string]func(){}}
		for _, k := range []string{kind, "g", "l", "c"} {
			t := newThing(k, fresh)
			t.register(x.dir + "/" + fmt.Sprint(len(x.things)))
			x.things = append(x.things, t)
		}
		x.t = x.things[0]
		t := x.t
		x.ops["again"] = func() {
			tricorder.UnregisterPath(t.paths[0])
			t.paths = nil
			t.register(fmt.Sprintf("%s/0", x.dir))
		}
		x.ops["also"] = func() {
			x.n++
			t.register(fmt.Sprintf("%s/also%d", x.dir, x.n))
		}
		switch s := t.spec.(type) {
		case *tricorder.List:
			for _, n := range []int{0, 1, 3, 40} {
				for _, mut := range []bool{false, true} {
					sl := make([]int64, n)
					x.ops[fmt.Sprintf("change to %d mutable=%v", n, mut)] = func() { s.Change(sl, mut) }
				}
			}
			x.ops["change to nil"] = func() { s.Change([]int64(nil), false) }
		case *tricorder.CumulativeDistribution:
			x.ops["add"] = func() { s.Add(1.0) }
			x.ops["add float32"] = func() { s.Add(float32(-2)) }
		case *tricorder.NonCumulativeDistribution:
			x.ops["add"] = func() { s.Add(3.0); x.held = append(x.held, 3) }
			x.ops["remove"] = func() {
				if n := len(x.held); n > 0 {
					s.Remove(x.held[n-1])
					x.held = x.held[:n-1]
				}
			}
			x.ops["update"] = func() {
				if n := len(x.held); n > 0 {
					s.Update(x.held[n-1], x.held[n-1]+1)
					x.held[n-1]++
				}
			}
			x.ops["narrow"] = s.UpdateMinMax
		default:
			x.ops["change"] = t.change
			x.ops["update function"] = func() {
				t.g.RegisterUpdateFunc(func() time.Time { x.n++; return time.Unix(1400000000+x.n, 0) })
			}
			x.ops["other metric"] = func() {
				x.n++
				p := fmt.Sprintf("%s/other%d", x.dir, x.n)
				must(tricorder.RegisterMetricInGroup(p, new(float64), t.g, units.None, ""))
				t.paths = append(t.paths, p)
			}
		}
		return x
	}
	x0 := build()
	var names []string
	for n := range x0.ops {
		names = append(names, n)
	}
	sort.Strings(names)
	tricorder.UnregisterPath(x0.dir)
	var rec func(seq []string)
	rec = func(seq []string) {
		if len(seq) == depth || len(names) > 8 && len(seq) == depth-1 {
			w.Eval()
			desc := kind + ": " + strings.Join(seq, ", ")
			w.cur = func() string { return desc }
			x := build()
			for i := 0; i <= len(seq); i++ {
				if i > 0 {
					x.ops[seq[i-1]]()
				}
				if i > 0 && i < len(seq)-1 {
					continue // seen in another sequence
				}
				for _, k := range []string{"inproc", "rpc", "json"} {
					got, err := readIDs(k, x.dir)
					if err == nil {
						err = judgeIDs(got, x.things)
					}
					if err != nil {
						w.Fail("life/"+kind, "%s: through %s after %d operations: %v", desc, k, i, err)
					}
					w.Trans(1)
				}
			}
			tricorder.UnregisterPath(x.dir)
			w.State(desc)
			w.Trace()
			w.Sample(desc)
			return
		}
		for _, n := range names {
			rec(append(seq[:len(seq):len(seq)], n))
		}
	}
	rec(nil)
}

// c26Many creates so many things that narrow ids would wrap around.
func c26Many(w *W, kind string) {
	total := 1<<16 + 300
	if kind == "g" || kind == "u" {
		total = 2000
	}
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	var things []*thing
	for i := 0; i < total; i++ {
		if i < 20 || i%256 < 3 || i > total-20 {
			t := newThing(kind, fresh)
			t.register(fmt.Sprintf("%s/%d", dir, i))
			things = append(things, t)
		} else if kind == "l" {
			tricorder.NewList([]int64{1}, tricorder.ImmutableSlice)
		} else {
			newThing(kind, fresh)
		}
	}
	w.Eval()
	w.cur = func() string { return "many " + kind }
	for _, k := range []string{"inproc", "rpc", "json"} {
		got, err := readIDs(k, dir)
		seen := map[int]string{}
		for p, x := range got {
			if o, ok := seen[x.id]; ok {
				err = fmt.Errorf("%s and %s have the same id %d", p, o, x.id)
			}
			seen[x.id] = p
		}
		if err == nil && len(got) != len(things) {
			err = fmt.Errorf("%d metrics listed, %d registered", len(got), len(things))
		}
		if err != nil {
			w.Fail("many/"+kind, "%d things of kind %s through %s: %v", total, kind, k, err)
		}
		w.Trans(total)
	}
	tricorder.UnregisterPath(dir)
	w.State("many " + kind)
	w.Trace()
}

func init() {
	define(&Def{ID: "C26", Inst: true, Scens: c26Scens,
		Tasks: func(string) []string {
			return []string{"seq/g", "seq/u", "seq/c", "seq/n", "seq/l", "com/g", "com/u", "com/c", "com/n", "com/l",
				"life/g", "life/u", "life/c", "life/n", "life/l", "many/g", "many/u", "many/c", "many/n", "many/l"}
		},
		Do: func(w *W, name string) {
			vsched.BeginExec()
			if k, ok := strings.CutPrefix(name, "life/"); ok {
				c26Life(w, k)
				return
			}
			if k, ok := strings.CutPrefix(name, "many/"); ok {
				c26Many(w, k)
				return
			}
			depth := 4
			if w.tier == "thorough" {
				depth = 5
			}
			c26Seq(w, name[4:], depth, name[0] == 'c')
		},
		Rule: "all sequences of creating groups, distributions and lists, each registered under two paths, changed and registered anew, read through every access path; all sequences of operations on one thing of each kind (lists of every length, emptied distributions, other metrics and update functions of a group) beside others; every pair of types of variables, callbacks and list elements; 65836 lists and distributions and 2000 groups at once; all schedules of concurrent creations, and of listings concurrent with changes of distributions and lists registered under several paths"})
}

var _ = vsched.Tick
