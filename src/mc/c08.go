package main

import (
	"fmt"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// c08Op is a change of a distribution or a read ("sum", "count" or "read:<kind>").
type c08Op struct {
	dop
	read string
}

func (o c08Op) String() string {
	if o.read != "" {
		return o.read
	}
	return o.dop.String()
}

func (o c08Op) change() bool { return o.read == "" }

type c08Done struct {
	c08Op
	start, end int64
	snap       dsnap
	num        float64
	err        error
	before     []int // operations that returned before this one was called
}

var c08Ends = []float64{0, 10}

// c08Init are the values held before the threads start, c08Cum those of a cumulative one.
var c08Init = []float64{1, 20, 20}

func c08Expect(nc bool, init []float64, seq []dop) dsnap {
	key := fmt.Sprint(nc, init, seq)
	if s, ok := c08Memo[key]; ok {
		return s
	}
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	d := newDist(c08Ends, nc)
	must(tricorder.RegisterMetric(dir+"/d", d, units.None, ""))
	m := &dmodel{ends: c08Ends, nc: nc}
	for _, v := range init {
		d.Add(v)
		m.add(v)
	}
	for _, o := range seq {
		applyDist(d, o, 0)
		if o.op == "mm" {
			s, err := readDist("inproc", dir, "d")
			must(err)
			if err := m.narrow(s); err != nil {
				c08Bad(fmt.Sprintf("%v%v one after another: %v", init, seq, err))
			}
			continue
		}
		m.apply(o)
	}
	s, err := readDist("inproc", dir, "d")
	must(err)
	// the reference itself has to be right
	if err := m.compare(s); err != nil {
		c08Bad(fmt.Sprintf("%v%v one after another: %v", init, seq, err))
	}
	tricorder.UnregisterPath(dir)
	c08Memo[key] = s
	return s
}

// c08Bad is told when operations executed one at a time already go wrong.
var c08Bad = func(msg string) {}

var c08Memo = map[string]dsnap{}

// c08Explain looks for an order of the operations that explains all results and the final state.
func c08Explain(nc bool, init []float64, initT [2]int64, ops []c08Done, final dsnap) bool {
	used := make([]bool, len(ops))
	var seq []dop
	var lastT = initT
	stamp := func(s dsnap) bool {
		if s.TS == "" {
			return true
		}
		return s.TS >= tsString(clockAt(lastT[0])) && s.TS <= tsString(clockAt(lastT[1]))
	}
	matches := func(s dsnap) bool {
		e := c08Expect(nc, init, seq)
		e.Partial = s.Partial
		if s.NoStats {
			return e.D.Count == 0
		}
		return e.dstr() == s.dstr() && stamp(s)
	}
	var rec func(left int) bool
	rec = func(left int) bool {
		if left == 0 {
			return matches(final)
		}
	next:
		for i := range ops {
			if used[i] {
				continue
			}
			for _, j := range ops[i].before {
				if !used[j] {
					continue next
				}
			}
			o := &ops[i]
			saved := lastT
			if o.change() {
				seq = append(seq, o.dop)
				lastT = [2]int64{o.start, o.end}
			} else {
				e := c08Expect(nc, init, seq)
				ok := false
				switch o.read {
				case "sum":
					ok = e.D.Sum == o.num
				case "count":
					ok = float64(e.D.Count) == o.num
				default:
					ok = matches(o.snap)
				}
				if !ok {
					continue
				}
			}
			used[i] = true
			good := rec(left - 1)
			if !good && o.op == "mm" { // whether it counts as a change of the time stamp is not said
				lastT = saved
				good = rec(left - 1)
			}
			used[i] = false
			if o.change() {
				seq = seq[:len(seq)-1]
				lastT = saved
			}
			if good {
				return true
			}
		}
		return false
	}
	return rec(len(ops))
}

func c08Scen(nc bool, init []float64, bound int, free bool, progs ...[]c08Op) Scen {
	name := fmt.Sprintf("nc=%v init=%v %v", nc, init, progs)
	return Scen{Name: name, Bound: bound, FreeCost: free, Build: func(x *Exec) ([]func(), func()) {
		x.timed = true
		d := newDist(c08Ends, nc)
		must(tricorder.RegisterMetric(x.Dir+"/d", d, units.None, ""))
		x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
		initT := [2]int64{0, 0}
		for _, v := range init {
			initT[0] = vsched.Tick()
			d.Add(v)
		}
		initT[1] = vsched.Tick()
		res := make([][]c08Done, len(progs))
		var bodies []func()
		for ti, p := range progs {
			ti, p := ti, p
			bodies = append(bodies, func() {
				for _, o := range p {
					r := c08Done{c08Op: o}
					x.Log("%v starts", o)
					r.start = x.clock()
					switch {
					case o.change():
						applyDist(d, o.dop, 0)
					case o.read == "sum":
						r.num = d.(*tricorder.NonCumulativeDistribution).Sum()
					case o.read == "count":
						r.num = float64(d.(*tricorder.NonCumulativeDistribution).Count())
					default:
						r.snap, r.err = readDist(o.read, x.Dir, "d")
					}
					r.end = x.clock()
					x.Log("%v ends %v %v", o, r.num, r.snap.dstr())
					res[ti] = append(res[ti], r)
				}
			})
		}
		return bodies, func() {
			var ops []c08Done
			for _, r := range res {
				ops = append(ops, r...)
			}
			for i := range ops {
				if ops[i].err != nil {
					x.Failf("read", "%v: %v", ops[i].c08Op, ops[i].err)
					return
				}
				for j := range ops {
					if i != j && ops[j].end < ops[i].start {
						ops[i].before = append(ops[i].before, j)
					}
				}
			}
			final, err := readDist("inproc", x.Dir, "d")
			if err != nil {
				x.Failf("read", "%v", err)
				return
			}
			desc := ""
			for _, o := range ops {
				desc += fmt.Sprintf("%v", o.c08Op)
				if !o.change() {
					desc += fmt.Sprintf(" saw %v %s", o.num, o.snap.dstr())
				}
				desc += fmt.Sprint(o.before, "; ")
			}
			desc += "finally " + final.dstr()
			x.Outcome("%s", desc)
			c08Bad = func(msg string) { x.Failf("sequential", "%s", msg) }
			if !c08Explain(nc, init, initT, ops, final) {
				x.Failf("not-linearizable", "no order of the operations explains (in brackets: operations that returned before): %s", desc)
			}
		}
	}}
}

func c08Scens(tier string) []Scen {
	thorough := tier == "thorough"
	ch := func(op string, v ...float64) c08Op {
		o := c08Op{dop: dop{op: op, a: v[0]}}
		if len(v) > 1 {
			o.b = v[1]
		}
		return o
	}
	changes := []c08Op{ch("add", 5), ch("add", 40), ch("upd", 1, 12), ch("upd", 20, -3), ch("upd", 20, 15), ch("upd", 1, 9), ch("rem", 20), ch("rem", 1)}
	reads := []c08Op{{read: "sum"}, {read: "count"}}
	for _, k := range distKinds {
		reads = append(reads, c08Op{read: k})
	}
	// every order has to be legal: the values consumed have to be there
	legal := func(os ...c08Op) bool {
		n := map[float64]int{1: 1, 20: 2}
		for _, o := range os {
			if o.change() && o.op != "add" && o.op != "mm" {
				n[o.a]--
				if n[o.a] < 0 {
					return false
				}
			}
		}
		return true
	}
	var out []Scen
	for i, a := range changes {
		for _, b := range changes[i:] {
			if legal(a, b) {
				out = append(out, c08Scen(true, c08Init, unbounded, false, []c08Op{a}, []c08Op{b}))
				for _, r := range []c08Op{{read: "inproc"}, {read: "sum"}, {read: "count"}} {
					out = append(out, c08Scen(true, c08Init, unbounded, false, []c08Op{a, b}, []c08Op{r}))
					out = append(out, c08Scen(true, c08Init, unbounded, false, []c08Op{a, r}, []c08Op{b}))
					out = append(out, c08Scen(true, c08Init, unbounded, false, []c08Op{r, a}, []c08Op{b}))
				}
			}
		}
		for _, r := range reads {
			out = append(out, c08Scen(true, c08Init, unbounded, false, []c08Op{a}, []c08Op{r}))
			out = append(out, c08Scen(true, c08Init, unbounded, false, []c08Op{a}, []c08Op{r, {read: "inproc"}}))
		}
	}
	// every way to read next to every other
	more := 3
	if thorough {
		more = 4
	}
	for i, r := range reads {
		for _, r2 := range reads[i:] {
			out = append(out, c08Scen(true, c08Init, unbounded, false, []c08Op{r}, []c08Op{r2, changes[0]}))
			out = append(out, c08Scen(true, c08Init, unbounded, false, []c08Op{changes[3], r}, []c08Op{r2}))
			for _, a := range []c08Op{changes[1], changes[4], changes[6]} {
				out = append(out, c08Scen(true, c08Init, more, true, []c08Op{a}, []c08Op{r}, []c08Op{r2}))
			}
			if i > 1 {
				out = append(out, c08Scen(false, []float64{1}, more, true, []c08Op{changes[1]}, []c08Op{r}, []c08Op{r2}))
			}
		}
	}
	// narrowing minimum and maximum
	mm := c08Op{dop: dop{op: "mm"}}
	wide := []float64{1, 20, 20}
	for _, a := range changes {
		out = append(out, c08Scen(true, wide, unbounded, false, []c08Op{mm}, []c08Op{a}))
		for _, r := range reads {
			out = append(out, c08Scen(true, wide, unbounded, false, []c08Op{a, mm}, []c08Op{r}))
		}
		for _, b := range changes {
			if legal(a, b) {
				out = append(out, c08Scen(true, wide, unbounded, false, []c08Op{a, mm}, []c08Op{b}), c08Scen(true, wide, unbounded, false, []c08Op{a, mm}, []c08Op{b, {read: "inproc"}}),
					c08Scen(true, wide, more+1, true, []c08Op{a}, []c08Op{mm}, []c08Op{b}))
			}
		}
	}
	out = append(out, c08Scen(true, wide, unbounded, false, []c08Op{ch("rem", 1), mm}, []c08Op{ch("rem", 20), mm}))
	// the distribution becomes empty and is filled again
	for _, r := range reads {
		out = append(out, c08Scen(true, []float64{20}, unbounded, false, []c08Op{ch("rem", 20), ch("add", 7)}, []c08Op{r}))
	}
	out = append(out, c08Scen(true, []float64{20}, unbounded, false, []c08Op{ch("rem", 20)}, []c08Op{ch("add", 7)}))
	out = append(out, c08Scen(true, nil, unbounded, false, []c08Op{ch("add", 20)}, []c08Op{ch("add", -7)}))
	// cumulative
	for _, r := range reads[2:] {
		out = append(out, c08Scen(false, []float64{1}, unbounded, false, []c08Op{ch("add", 5)}, []c08Op{r}))
	}
	out = append(out, c08Scen(false, nil, unbounded, false, []c08Op{ch("add", 5), ch("add", 12)}, []c08Op{ch("add", -4), {read: "inproc"}}))
	// three threads
	b3 := 5
	if thorough {
		b3 = unbounded
	}
	for i, a := range changes {
		for j, b := range changes[i:] {
			if !legal(a, b) {
				continue
			}
			for _, r := range []c08Op{{read: "inproc"}, {read: "sum"}} {
				out = append(out, c08Scen(true, c08Init, b3, true, []c08Op{a}, []c08Op{b}, []c08Op{r}))
			}
			for _, c := range changes[i+j:] {
				if legal(a, b, c) {
					out = append(out, c08Scen(true, c08Init, b3, true, []c08Op{a}, []c08Op{b}, []c08Op{c}))
				}
			}
		}
	}
	out = append(out, c08Scen(false, []float64{1}, b3, true, []c08Op{ch("add", 5)}, []c08Op{ch("add", 12)}, []c08Op{ch("add", -5)}))
	if thorough {
		for _, a := range changes {
			for _, b := range changes {
				for _, c := range changes {
					for _, e := range append([]c08Op{{read: "inproc"}, {read: "json1"}, {read: "count"}}, changes...) {
						if legal(a, b, c, e) {
							out = append(out, c08Scen(true, c08Init, unbounded, false, []c08Op{a, b}, []c08Op{c, e}))
						}
					}
				}
			}
		}
	}
	return out
}

func init() {
	define(&Def{ID: "C08", Inst: true, Scens: c08Scens,
		Rule: "all schedules of two-thread programs of up to three (thorough: four) operations on one real distribution and all schedules up to the bound of three-thread programs, for every change and every way to read; every history is matched against all orders of the operations executed one at a time on a fresh distribution, timestamps included; happens-before race detection"})
}
