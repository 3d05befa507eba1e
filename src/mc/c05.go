package main

import (
	"fmt"
	"strings"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// c05Op is a registry operation of a concurrent program. Through handle h operations are
// relative to the directory registered as "a" before the threads start.
type c05Op struct {
	op   string // reg, dir, get, look, unreg, undir, list
	h    bool
	path string
}

func (o c05Op) String() string {
	s := o.op + "(" + o.path + ")"
	if o.h {
		s = "h." + s
	}
	return s
}

// c05Done is an operation with its interval and result.
type c05Done struct {
	c05Op
	thr        int
	start, end int64
	val        int64 // value registered or seen
	err        string
	dir        *tricorder.DirectorySpec
}

func c05Apply(x *Exec, h *tricorder.DirectorySpec, o c05Op, val int64) c05Done {
	d := c05Done{c05Op: o, val: val}
	abs := x.Dir + "/" + o.path
	x.Log("%v starts", o)
	d.start = x.clock()
	var err error
	switch o.op {
	case "reg":
		v := new(int64)
		*v = val
		if o.h {
			err = h.RegisterMetric(o.path, v, units.None, "")
		} else {
			err = tricorder.RegisterMetric(abs, v, units.None, "")
		}
	case "dir":
		if o.h {
			d.dir, err = h.RegisterDirectory(o.path)
		} else {
			d.dir, err = tricorder.RegisterDirectory(abs)
		}
	case "get":
		d.dir, err = tricorder.GetDirectory(abs)
	case "look":
		m, e := rpcGet(abs)
		if e != nil {
			err = tricorder.ErrNotFound
		} else {
			d.val = m.Value.(int64)
		}
	case "unreg":
		if o.h {
			h.UnregisterPath(o.path)
		} else {
			tricorder.UnregisterPath(abs)
		}
	case "undir":
		h.UnregisterDirectory()
	case "list":
		for _, m := range tricorder.ReadMyMetrics(x.Dir) {
			if v, ok := m.Value.(int64); !ok || v == 0 {
				x.Failf("listed", "listing shows %s = %v, never registered", m.Path, m.Value)
			}
		}
	}
	d.end = x.clock()
	if err != nil {
		d.err = errName(err)
		d.dir = nil
	}
	x.Log("%v ends: %s %v", o, d.err, d.dir != nil)
	return d
}

// c05Search looks for an interleaving of the elementary steps of all operations on the
// reference tree that explains all results and the final state.
type c05Search struct {
	ops    []c05Done
	final  map[string]int64
	fdirs  map[string]*tricorder.DirectorySpec
	before [][]bool // before[i][j]: i returned before j was called
	build  func() (*mnode, *mnode, *tricorder.DirectorySpec)
	tried  int
}

// c05Exec is the execution of one operation on the model: a sequence of steps.
type c05Exec struct {
	i    int
	cur  *mnode
	cs   []string
	pos  int
	done bool
	err  string
	n    *mnode
	val  int64
}

// step does one elementary step: resolving or creating one path component, or the final action.
func (e *c05Exec) step(d *c05Done) {
	finish := func(err string) { e.done = true; e.err = err }
	if d.op == "undir" {
		e.cur.detach()
		finish("")
		return
	}
	if d.op == "list" {
		// what a listing beside changes shows is the matter of C06; here it may not disturb them
		finish("")
		return
	}
	last := e.pos == len(e.cs)-1
	c := e.cs[e.pos]
	k := e.cur.kids[c]
	e.pos++
	switch d.op {
	case "reg":
		if last {
			if k != nil {
				finish("in-use")
				return
			}
			v := d.val
			e.cur.kids[c] = &mnode{name: c, parent: e.cur, val: &v}
			finish("")
			return
		}
		fallthrough
	case "dir":
		if k == nil {
			k = newMDir(c, e.cur)
			e.cur.kids[c] = k
		} else if !k.isDir() {
			finish("in-use")
			return
		}
		e.cur = k
		if last {
			e.n = k
			finish("")
		}
	case "get":
		if k == nil {
			finish("not-found")
			return
		}
		if !k.isDir() {
			finish("in-use")
			return
		}
		e.cur = k
		if last {
			e.n = k
			finish("")
		}
	case "look":
		if last {
			if k == nil || k.isDir() {
				finish("not-found")
				return
			}
			e.val = *k.val
			finish("")
			return
		}
		if k == nil || !k.isDir() {
			finish("not-found")
			return
		}
		e.cur = k
	case "unreg":
		if last {
			delete(e.cur.kids, c)
			finish("")
			return
		}
		if k == nil || !k.isDir() {
			finish("")
			return
		}
		e.cur = k
	}
}

// replay executes a choice sequence of operation indexes and reports the set of operations
// that may take the next step; ok is false if some result does not match.
func (s *c05Search) replay(seq []int) (next []int, complete, ok bool) {
	root, hn, hd := s.build()
	top := root.kids["x"]
	ex := make([]*c05Exec, len(s.ops))
	ids := map[*mnode]*tricorder.DirectorySpec{}
	rev := map[*tricorder.DirectorySpec]*mnode{}
	bind := func(n *mnode, d *tricorder.DirectorySpec) bool {
		if o, ok := ids[n]; ok && o != d {
			return false
		}
		if o, ok := rev[d]; ok && o != n {
			return false
		}
		ids[n], rev[d] = d, n
		return true
	}
	if hd != nil {
		bind(hn, hd)
	}
	for _, i := range seq {
		d := &s.ops[i]
		if ex[i] == nil {
			ex[i] = &c05Exec{i: i, cur: top, cs: comps(d.path)}
			if d.h {
				ex[i].cur = hn
			}
		}
		e := ex[i]
		e.step(d)
		if e.done {
			if e.err != d.err {
				return nil, false, false
			}
			if d.op == "look" && e.err == "" && e.val != d.val {
				return nil, false, false
			}
			if e.n != nil && !bind(e.n, d.dir) {
				return nil, false, false
			}
		}
	}
	complete = true
	for i := range s.ops {
		if ex[i] != nil && ex[i].done {
			continue
		}
		complete = false
		enabled := true
		for j := range s.ops {
			if s.before[j][i] && (ex[j] == nil || !ex[j].done) {
				enabled = false
			}
		}
		if enabled {
			next = append(next, i)
		}
	}
	if complete {
		n := 0
		bad := false
		top.walk(func(m *mnode) {
			n++
			p := strings.TrimPrefix(m.path(), "/x/")
			if v, ok := s.final[p]; !ok || v != *m.val {
				bad = true
			}
		})
		if bad || n != len(s.final) {
			return nil, true, false
		}
		for p, d := range s.fdirs {
			m, err := top.find(comps(p))
			if (err != nil) != (d == nil) || err == nil && !bind(m, d) {
				return nil, true, false
			}
		}
	}
	return next, complete, true
}

func (s *c05Search) find(seq []int) bool {
	s.tried++
	next, complete, ok := s.replay(seq)
	if !ok {
		return false
	}
	if complete {
		return true
	}
	for _, i := range next {
		if s.find(append(seq[:len(seq):len(seq)], i)) {
			return true
		}
	}
	return false
}

var c05Memo = map[string]bool{}

// c05Inits are the trees before the threads start: paths with a trailing slash are directories.
var c05Inits = map[string][]string{"empty": nil, "dir": {"a/"}, "metric": {"a"}, "full": {"a/b"}}

func c05Scen(name, init string, bound int, freeCost bool, progs ...[]c05Op) Scen {
	return Scen{Name: name, Bound: bound, FreeCost: freeCost, Build: func(x *Exec) ([]func(), func()) {
		x.timed = true
		if _, err := tricorder.RegisterDirectory(x.Dir); err != nil {
			panic(err)
		}
		x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
		var h *tricorder.DirectorySpec
		for _, p := range c05Inits[init] {
			if strings.HasSuffix(p, "/") {
				_, err := tricorder.RegisterDirectory(x.Dir + "/" + p)
				must(err)
			} else {
				v := new(int64)
				*v = 1000
				must(tricorder.RegisterMetric(x.Dir+"/"+p, v, units.None, ""))
			}
		}
		h, _ = tricorder.GetDirectory(x.Dir + "/a")
		results := make([][]c05Done, len(progs))
		var bodies []func()
		for ti, p := range progs {
			ti, p := ti, p
			bodies = append(bodies, func() {
				for i, o := range p {
					d := c05Apply(x, h, o, int64(ti*10+i+1))
					d.thr = ti
					results[ti] = append(results[ti], d)
				}
			})
		}
		return bodies, func() {
			s := &c05Search{final: map[string]int64{}, fdirs: map[string]*tricorder.DirectorySpec{}}
			for _, r := range results {
				s.ops = append(s.ops, r...)
			}
			n := len(s.ops)
			s.before = make([][]bool, n)
			key := init
			names := map[*tricorder.DirectorySpec]int{h: 0}
			id := func(d *tricorder.DirectorySpec) int {
				if d == nil {
					return -1
				}
				if _, ok := names[d]; !ok {
					names[d] = len(names)
				}
				return names[d]
			}
			for i := range s.ops {
				s.before[i] = make([]bool, n)
				key += fmt.Sprintf(";%v=%s/%d/%d", s.ops[i].c05Op, s.ops[i].err, s.ops[i].val, id(s.ops[i].dir))
				for j := range s.ops {
					if i != j && s.ops[i].end < s.ops[j].start {
						s.before[i][j] = true
						key += fmt.Sprintf(",%d", j)
					}
				}
			}
			for _, m := range tricorder.ReadMyMetrics(x.Dir) {
				p := strings.TrimPrefix(m.Path, x.Dir+"/")
				if _, dup := s.final[p]; dup {
					x.Failf("duplicate", "%s listed twice", p)
				}
				s.final[p] = m.Value.(int64)
				key += fmt.Sprintf("|%s=%v", p, m.Value)
			}
			for _, p := range []string{"a", "a/b"} {
				d, _ := tricorder.GetDirectory(x.Dir + "/" + p)
				s.fdirs[p] = d
				key += fmt.Sprintf("|%s:%d", p, id(d))
			}
			x.Outcome("%s", key)
			good, seen := c05Memo[key]
			if !seen {
				s.build = func() (*mnode, *mnode, *tricorder.DirectorySpec) {
					root := newMDir("", nil)
					top := newMDir("x", root)
					root.kids["x"] = top
					for _, p := range c05Inits[init] {
						if strings.HasSuffix(p, "/") {
							top.mkdir(comps(p))
						} else {
							v := int64(1000)
							top.register(comps(p), &v, "", units.None)
						}
					}
					var hn *mnode
					if k := top.kids["a"]; k != nil && k.isDir() {
						hn = k
					}
					return root, hn, h
				}
				good = s.find(nil)
				c05Memo[key] = good
			}
			if !good {
				x.Failf("not-linearizable", "no order of the operations explains: %s", key)
			}
		}
	}}
}

func c05OpsFor(init string) []c05Op {
	ops := []c05Op{{"reg", false, "a"}, {"reg", false, "a/b"}, {"reg", false, "a/b/c"}, {"dir", false, "a"}, {"dir", false, "a/b"},
		{"get", false, "a/b"}, {"look", false, "a/b"}, {"unreg", false, "a"}, {"unreg", false, "a/b"}, {"list", false, ""}}
	if init == "dir" || init == "full" {
		ops = append(ops, c05Op{"reg", true, "b"}, c05Op{"dir", true, "b"}, c05Op{"unreg", true, "b"}, c05Op{"undir", true, ""})
	}
	return ops
}

func c05Scens(tier string) []Scen {
	var out []Scen
	for _, init := range []string{"empty", "dir", "metric", "full"} {
		ops := c05OpsFor(init)
		for i, a := range ops {
			for _, b := range ops[i:] {
				out = append(out, c05Scen(fmt.Sprintf("%s:%v|%v", init, a, b), init, unbounded, false, []c05Op{a}, []c05Op{b}))
			}
		}
		// one thread with two operations
		two := 3
		if tier == "thorough" {
			two = unbounded
		}
		for _, a := range ops {
			for _, b := range ops {
				for _, c := range ops {
					out = append(out, c05Scen(fmt.Sprintf("%s:%v;%v|%v", init, a, b, c), init, two, false, []c05Op{a, b}, []c05Op{c}))
				}
			}
		}
		if tier == "thorough" {
			for i, a := range ops {
				for j, b := range ops[i:] {
					for _, c := range ops[i+j:] {
						out = append(out, c05Scen(fmt.Sprintf("%s:%v|%v|%v", init, a, b, c), init, 4, true, []c05Op{a}, []c05Op{b}, []c05Op{c}))
					}
				}
			}
			for i, a := range ops {
				for _, b := range ops {
					for _, c := range ops[i:] {
						for _, d := range ops {
							if a.op == "look" || b.op == "look" || c.op == "look" || d.op == "look" || a.op == "get" || c.op == "get" {
								continue
							}
							out = append(out, c05Scen(fmt.Sprintf("%s:%v;%v|%v;%v", init, a, b, c, d), init, 2, true, []c05Op{a, b}, []c05Op{c, d}))
						}
					}
				}
			}
		}
	}
	r := func(p string) []c05Op { return []c05Op{{"reg", false, p}} }
	out = append(out, c05Scen("three:same", "empty", 2, true, r("a/b"), r("a/b"), r("a/b")),
		c05Scen("three:nested", "empty", 2, true, r("a"), r("a/b"), r("a/b/c")))
	return out
}

func init() {
	define(&Def{ID: "C05", Inst: true, Scens: c05Scens,
		Rule: "all schedules of every pair of registry operations over four initial trees, and schedules up to the bound of programs of three operations on two or three threads; every distinct history is matched against all interleavings of the elementary steps of a reference tree"})
}
