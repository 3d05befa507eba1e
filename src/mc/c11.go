package main

import (
	"fmt"
	"math"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

var allUnits = []units.Unit{units.Unknown, units.None, units.Millisecond, units.Second, units.Celsius, units.Byte, units.BytePerSecond}

// c11Op registers the distribution with a unit or uses it.
type c11Op struct {
	op   string // reg, unreg, add, upd, rem
	unit units.Unit
	a, b any
}

func (o c11Op) String() string {
	switch o.op {
	case "reg":
		return fmt.Sprintf("register(%q)", string(o.unit))
	case "unreg":
		return "unregister"
	case "upd":
		return fmt.Sprintf("update(%T %v -> %T %v)", o.a, o.a, o.b, o.b)
	}
	return fmt.Sprintf("%s(%T %v)", o.op, o.a, o.a)
}

// c11Value is the documented meaning of a value in a unit, ok is false if it has to panic.
func c11Value(v any, u *units.Unit) (f float64, ok bool) {
	if u == nil {
		return 0, false
	}
	switch x := v.(type) {
	case float64:
		return x, true
	case float32:
		return float64(x), true
	case time.Duration:
		switch *u {
		case units.Second:
			return float64(x) / 1e9, true
		case units.Millisecond:
			return float64(x) / 1e6, true
		}
	}
	return 0, false
}

type c11Named float64

var c11Ends = []float64{0, 1, 2, 1000}

type c11Model struct {
	dmodel
	unit *units.Unit
	regs []units.Unit // unit per live path, "-" prefix if gone
}

// usable reports if an operation is within the documented domain (values held).
func (m *c11Model) legal(o c11Op) bool {
	if o.op == "upd" || o.op == "rem" {
		if v, ok := c11Value(o.a, m.unit); ok {
			return m.has(v)
		}
	}
	return true
}

// apply returns what the call has to do: "ok", "wrong-unit" or "panic".
func (m *c11Model) apply(o c11Op) string {
	switch o.op {
	case "reg":
		if m.unit == nil {
			u := o.unit
			m.unit = &u
		} else if *m.unit != o.unit {
			return "wrong-unit"
		}
		return "ok"
	case "unreg":
		return "ok"
	}
	a, ok := c11Value(o.a, m.unit)
	if !ok {
		return "panic"
	}
	switch o.op {
	case "add":
		m.add(a)
	case "rem":
		m.remove(a)
	case "upd":
		b, ok := c11Value(o.b, m.unit)
		if !ok {
			return "panic"
		}
		m.update(a, b)
	}
	return "ok"
}

func c11Do(d adist, path string, o c11Op) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = "panic"
		}
	}()
	switch o.op {
	case "reg":
		err := tricorder.RegisterMetric(path, d, o.unit, "")
		if err == tricorder.ErrWrongUnit {
			return "wrong-unit"
		}
		if err != nil {
			return err.Error()
		}
	case "unreg":
		tricorder.UnregisterPath(path)
	case "add":
		d.Add(o.a)
	case "upd":
		d.(*tricorder.NonCumulativeDistribution).Update(o.a, o.b)
	case "rem":
		d.(*tricorder.NonCumulativeDistribution).Remove(o.a)
	}
	return "ok"
}

func c11Alphabet(nc bool, tier string) []c11Op {
	var out []c11Op
	us := []units.Unit{units.Unknown, units.None, units.Second, units.Millisecond}
	if tier == "thorough" {
		us = allUnits
	}
	for _, u := range us {
		out = append(out, c11Op{op: "reg", unit: u})
	}
	out = append(out, c11Op{op: "unreg"})
	s := 1500 * time.Millisecond
	for _, v := range []any{1.5, float32(0.5), s, 3, nil, "x", c11Named(1.5)} {
		out = append(out, c11Op{op: "add", a: v})
	}
	if nc {
		out = append(out, c11Op{op: "upd", a: 1.5, b: float32(0.5)}, c11Op{op: "upd", a: s, b: -2 * s}, c11Op{op: "upd", a: 1.5, b: 2},
			c11Op{op: "upd", a: uint8(1), b: 2.5}, c11Op{op: "upd", a: float32(0.5), b: s},
			c11Op{op: "rem", a: 1.5}, c11Op{op: "rem", a: s}, c11Op{op: "rem", a: int64(1)}, c11Op{op: "rem", a: -2 * s})
	}
	return out
}

func c11Check(w *W, d adist, m *c11Model, dir string, live []string, desc func() string) {
	if n, ok := d.(*tricorder.NonCumulativeDistribution); ok {
		if n.Count() != uint64(len(m.vals)) || !near(n.Sum(), m.sum()) {
			w.Fail("stats", "after %s: Count() is %d and Sum() is %v, want %d and %v", desc(), n.Count(), n.Sum(), len(m.vals), m.sum())
		}
	}
	for _, p := range live {
		s, err := readDist("inproc", dir, p)
		if err == nil {
			err = m.compare(s)
		}
		if err != nil {
			w.Fail("stats", "after %s: %s: %v", desc(), p, err)
		}
		l := tricorder.ReadMyMetrics(dir + "/" + p)
		if len(l) != 1 || l[0].Unit != *m.unit {
			w.Fail("unit", "after %s: %s is not reported with unit %q", desc(), p, string(*m.unit))
		}
	}
}

func c11Seq(w *W, nc bool, depth, first int) {
	ops := c11Alphabet(nc, w.tier)
	var seq []c11Op
	desc := func() string { return fmt.Sprint(seq) }
	run := func() {
		w.Eval()
		w.cur = desc
		execCount++
		dir := fmt.Sprintf("/x%d", execCount)
		d := newDist(c11Ends, nc)
		m := &c11Model{dmodel: dmodel{ends: c11Ends, nc: nc}}
		must2(tricorder.RegisterDirectory(dir))
		defer tricorder.UnregisterPath(dir)
		var live []string
		for i, o := range seq {
			p := fmt.Sprintf("d%d", i)
			if o.op == "unreg" {
				if len(live) == 0 {
					continue
				}
				p, live = live[0], live[1:]
			}
			want := m.apply(o)
			got := c11Do(d, dir+"/"+p, o)
			if got != want {
				w.Fail("result/"+o.op, "%s: step %d gives %s, want %s", desc(), i, got, want)
				return
			}
			if o.op == "reg" && want == "ok" {
				live = append(live, p)
			}
			w.Trans(1)
		}
		c11Check(w, d, m, dir, live, desc)
		// a distribution that never got a unit gets it now
		if m.unit == nil {
			o := c11Op{op: "reg", unit: units.Second}
			if got := c11Do(d, dir+"/last", o); got != m.apply(o) {
				w.Fail("result/reg", "%s then %v: %s", desc(), o, got)
				return
			}
			live = append(live, "last")
		}
		// and goes on working
		if got := c11Do(d, "", c11Op{op: "add", a: 0.25}); got != "ok" {
			w.Fail("unusable", "%s: adding afterwards gives %s", desc(), got)
			return
		}
		m.add(0.25)
		c11Check(w, d, m, dir, live, desc)
		w.State(fmt.Sprint(nc, m.vals, m.unit != nil, len(live)))
		w.Trace()
		w.Sample(desc())
	}
	var rec func(m c11Model)
	rec = func(m c11Model) {
		run()
		if len(seq) == depth {
			return
		}
		for i, o := range ops {
			if len(seq) == 0 && i != first || !m.legal(o) {
				continue
			}
			m2 := m
			m2.vals = append([]float64{}, m.vals...)
			m2.apply(o)
			seq = append(seq, o)
			rec(m2)
			seq = seq[:len(seq)-1]
		}
	}
	rec(c11Model{dmodel: dmodel{ends: c11Ends, nc: nc}})
}

func must2(_ any, err error) { must(err) }

// c11Convert adds every duration of a grid in both time units.
func c11Convert(w *W) {
	var ds []time.Duration
	for _, base := range []time.Duration{0, time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 1000 * 24 * time.Hour} {
		for _, k := range []time.Duration{1, 2, 3, 7, 10, 999, 1000} {
			for e := time.Duration(-2); e <= 2; e++ {
				ds = append(ds, base*k+e, -(base*k + e))
			}
		}
	}
	ds = append(ds, math.MaxInt64, math.MinInt64+1, 1<<53, 1<<53+1)
	ends := []float64{-10, -1, 0, 1, 2, 10, 1000, 3600}
	for _, u := range allUnits {
		for i, dur := range ds {
			w.Eval()
			dur := dur
			w.cur = func() string { return fmt.Sprint(u, dur) }
			execCount++
			dir := fmt.Sprintf("/x%d", execCount)
			nc := i%2 == 0
			d := newDist(ends, nc)
			must(tricorder.RegisterMetric(dir+"/d", d, u, ""))
			uu := u
			v, ok := c11Value(dur, &uu)
			r := catch(func() { d.Add(dur) })
			m := &dmodel{ends: ends, nc: nc}
			if ok != (r == nil) {
				w.Fail("convert", "adding %v to a distribution in %q: panic %v", dur, string(u), r)
			} else if ok {
				m.add(v)
			}
			s, err := readDist("inproc", dir, "d")
			if err == nil {
				err = m.compare(s)
			}
			if err == nil && ok && math.Abs(s.D.Sum-v) > 1e-12*math.Abs(v) {
				err = fmt.Errorf("sum is %v, want %v", s.D.Sum, v)
			}
			if err != nil {
				w.Fail("convert", "adding %v to a distribution in %q: %v", dur, string(u), err)
			}
			if ok && nc {
				n := d.(*tricorder.NonCumulativeDistribution)
				n.Update(dur, dur+time.Second)
				v2, _ := c11Value(dur+time.Second, &uu)
				if math.Abs(n.Sum()-v2) > 1e-9*math.Max(1, math.Abs(v2)) && dur < math.MaxInt64-time.Second {
					w.Fail("convert", "updating %v by a second in %q gives the sum %v, want %v", dur, string(u), n.Sum(), v2)
				}
				n.Remove(dur + time.Second)
				if n.Count() != 0 {
					w.Fail("convert", "%v cannot be removed", dur)
				}
			}
			w.Trans(1)
			w.State(fmt.Sprint(u, dur))
			tricorder.UnregisterPath(dir)
		}
	}
}

// concurrent registrations and uses

type c11Done struct {
	c11Op
	res        string
	start, end int64
	before     []int
}

func c11Scen(bound int, free bool, progs ...[]c11Op) Scen {
	return Scen{Name: fmt.Sprint(progs), Bound: bound, FreeCost: free, Build: func(x *Exec) ([]func(), func()) {
		x.timed = true
		d := newDist(c11Ends, true)
		must2(tricorder.RegisterDirectory(x.Dir))
		x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
		res := make([][]c11Done, len(progs))
		var bodies []func()
		for ti, p := range progs {
			ti, p := ti, p
			bodies = append(bodies, func() {
				for i, o := range p {
					r := c11Done{c11Op: o}
					x.Log("%v starts", o)
					r.start = x.clock()
					r.res = c11Do(d, fmt.Sprintf("%s/d%d_%d", x.Dir, ti, i), o)
					r.end = x.clock()
					x.Log("%v ends: %s", o, r.res)
					res[ti] = append(res[ti], r)
				}
			})
		}
		return bodies, func() {
			var ops []c11Done
			desc := ""
			paths := map[string]units.Unit{}
			for ti, rs := range res {
				for i, r := range rs {
					ops = append(ops, r)
					desc += fmt.Sprintf("%v=%s; ", r.c11Op, r.res)
					if r.op == "reg" && r.res == "ok" {
						paths[fmt.Sprintf("%s/d%d_%d", x.Dir, ti, i)] = r.unit
					}
				}
			}
			for i := range ops {
				for j := range ops {
					if i != j && ops[j].end < ops[i].start {
						ops[i].before = append(ops[i].before, j)
					}
				}
			}
			n := d.(*tricorder.NonCumulativeDistribution)
			count, sum := n.Count(), n.Sum()
			for _, m := range tricorder.ReadMyMetrics(x.Dir) {
				u, ok := paths[m.Path]
				if !ok || m.Unit != u {
					x.Failf("unit", "%s is reported with unit %q: %s", m.Path, string(m.Unit), desc)
				}
				delete(paths, m.Path)
			}
			if len(paths) > 0 {
				x.Failf("lost", "not reported: %v", paths)
			}
			x.Outcome("%s count=%d sum=%v", desc, count, sum)
			used := make([]bool, len(ops))
			var rec func(m c11Model, left int) bool
			rec = func(m c11Model, left int) bool {
				if left == 0 {
					return uint64(len(m.vals)) == count && near(m.sum(), sum)
				}
			next:
				for i := range ops {
					if used[i] {
						continue
					}
					for _, j := range ops[i].before {
						if !used[j] {
							continue next
						}
					}
					m2 := m
					m2.vals = append([]float64{}, m.vals...)
					if !m2.legal(ops[i].c11Op) || m2.apply(ops[i].c11Op) != ops[i].res {
						continue
					}
					used[i] = true
					ok := rec(m2, left-1)
					used[i] = false
					if ok {
						return true
					}
				}
				return false
			}
			if !rec(c11Model{dmodel: dmodel{ends: c11Ends, nc: true}}, len(ops)) {
				x.Failf("not-linearizable", "no order explains %s count=%d sum=%v", desc, count, sum)
			}
		}
	}}
}

func c11Scens(tier string) []Scen {
	var out []Scen
	reg := func(u units.Unit) c11Op { return c11Op{op: "reg", unit: u} }
	rs := []c11Op{reg(units.Second), reg(units.Millisecond), reg(units.None), reg(units.Unknown)}
	uses := []c11Op{{op: "add", a: 1500 * time.Millisecond}, {op: "add", a: 2.5}}
	var two [][]c11Op
	for _, a := range rs {
		for _, u := range uses {
			two = append(two, []c11Op{a, u})
		}
		for _, b := range rs {
			two = append(two, []c11Op{a, b})
		}
	}
	one := append(append([]c11Op{}, rs...), uses...)
	for i, a := range one {
		for _, b := range one[i:] {
			out = append(out, c11Scen(unbounded, false, []c11Op{a}, []c11Op{b}))
		}
		for _, t := range two {
			out = append(out, c11Scen(unbounded, false, t, []c11Op{a}))
		}
	}
	for i, t := range two {
		for _, s := range two[i:] {
			out = append(out, c11Scen(unbounded, false, t, s))
		}
	}
	b := 3
	if tier == "thorough" {
		b = unbounded
	}
	for i, x := range one {
		for j, y := range one[i:] {
			for _, z := range one[i+j:] {
				out = append(out, c11Scen(b, b < unbounded, []c11Op{x}, []c11Op{y}, []c11Op{z}))
			}
		}
	}
	return out
}

func init() {
	define(&Def{ID: "C11", Inst: true, Scens: c11Scens,
		Tasks: func(tier string) []string {
			out := []string{"convert"}
			for _, nc := range []bool{false, true} {
				for i := range c11Alphabet(nc, tier) {
					out = append(out, fmt.Sprintf("seq/%v/%d", nc, i))
				}
			}
			return out
		},
		Do: func(w *W, name string) {
			vsched.BeginExec()
			if name == "convert" {
				c11Convert(w)
				return
			}
			var nc bool
			var i int
			fmt.Sscanf(name, "seq/%t/%d", &nc, &i)
			depth := 4
			if w.tier == "thorough" {
				depth = 5
			}
			c11Seq(w, nc, depth, i)
		},
		Rule: "all sequences of registering with a unit, unregistering and using a distribution with values of every kind up to the depth, a grid of durations in every unit, and all schedules of concurrent registrations and uses, against a reference with an optional unit and a multiset"})
}
