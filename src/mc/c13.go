package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// readList reads the list of integers at dir/name.
func readList(kind, dir, name string) (vals []int64, ts string, err error) {
	path := dir + "/" + name
	native := func(l messages.MetricList) error {
		for _, m := range l {
			if m.Path == path {
				v, ok := m.Value.([]int64)
				if !ok {
					return fmt.Errorf("value is %T", m.Value)
				}
				vals = append([]int64{}, v...)
				if t, ok := m.TimeStamp.(time.Time); ok {
					ts = tsString(t)
				}
				return nil
			}
		}
		return fmt.Errorf("not listed")
	}
	js := func(l []*jm) error {
		for _, m := range l {
			if m.Path == path {
				ts = m.TimeStamp
				return json.Unmarshal(m.Value, &vals)
			}
		}
		return fmt.Errorf("not listed")
	}
	nums := func(ws []string) error {
		for _, w := range ws {
			n, err := strconv.ParseInt(strings.ReplaceAll(w, ",", ""), 10, 64)
			if err != nil {
				return err
			}
			vals = append(vals, n)
		}
		return nil
	}
	switch kind {
	case "inproc":
		err = native(tricorder.ReadMyMetrics(path))
	case "inprocdir":
		err = native(tricorder.ReadMyMetrics(dir))
	case "rpc1":
		m, e := rpcGet(path)
		if e != nil {
			return nil, "", e
		}
		err = native(messages.MetricList{m})
	case "rpc":
		l, e := rpcList(dir)
		if e != nil {
			return nil, "", e
		}
		err = native(l)
	case "json1":
		m, e := jsonOne(path)
		if e != nil {
			return nil, "", e
		}
		err = js([]*jm{m})
	case "json":
		l, e := jsonList(dir)
		if e != nil {
			return nil, "", e
		}
		err = js(l)
	case "text1", "text":
		p := path
		if kind == "text" {
			p = dir
		}
		body := string(fetch(textURL(p)).Body)
		if kind == "text" {
			i := strings.Index(body, path+" ")
			if i < 0 {
				return nil, "", fmt.Errorf("not listed")
			}
			body, _, _ = strings.Cut(body[i+len(path)+1:], "\n")
		}
		body = strings.TrimSpace(body)
		if body != "" {
			err = nums(strings.Split(body, "|"))
		}
	case "html1", "html":
		p := path
		if kind == "html" {
			p = dir
		}
		body := string(fetch(htmlURL(p)).Body)
		i := strings.Index(body, path)
		if i < 0 {
			return nil, "", fmt.Errorf("not on page")
		}
		body = body[i:]
		if i = strings.Index(body, "</ul>"); i >= 0 {
			body = body[:i]
		}
		for _, it := range strings.Split(body, "<li>")[1:] {
			it, _, _ = strings.Cut(it, "</li>")
			if err = nums([]string{strings.TrimSpace(it)}); err != nil {
				return
			}
		}
	default:
		panic(kind)
	}
	return
}

var listKinds = []string{"inproc", "rpc1", "json1", "text1", "html1", "inprocdir", "rpc", "json", "text", "html"}

// c13Op changes the list to n elements of value n or reads it.
type c13Op struct {
	n    int64
	mode string // "imm", "mut" (the caller overwrites the slice afterwards), "int" (a slice of int)
	read string
}

func (o c13Op) String() string {
	if o.read != "" {
		return o.read
	}
	return fmt.Sprintf("change(%d,%s)", o.n, o.mode)
}

func c13Slice(n int64) []int64 {
	s := make([]int64, n)
	for i := range s {
		s[i] = n
	}
	return s
}

type c13Done struct {
	c13Op
	start, end int64
	vals       []int64
	ts         string
	err        error
	before     []int
}

func c13Do(l **tricorder.List, o c13Op) {
	switch o.mode {
	case "int":
		s := make([]int, o.n)
		for i := range s {
			s[i] = int(o.n)
		}
		c13Set(l, s, true)
		for i := range s {
			vsched.PointHere()
			s[i] = -1
		}
	default:
		s := c13Slice(o.n)
		c13Set(l, s, o.mode == "mut")
		if o.mode == "mut" {
			for i := range s {
				vsched.PointHere()
				s[i] = -1
			}
		}
	}
}

func c13Set(l **tricorder.List, s any, mut bool) {
	if *l == nil {
		*l = tricorder.NewList(s, mut)
	} else {
		(*l).Change(s, mut)
	}
}

func c13Scen(bound int, free bool, progs ...[]c13Op) Scen {
	return Scen{Name: fmt.Sprint(progs), Bound: bound, FreeCost: free, Build: func(x *Exec) ([]func(), func()) {
		x.timed = true
		var l *tricorder.List
		first := c13Done{c13Op: c13Op{n: 2, mode: "mut"}}
		first.start = vsched.Tick()
		c13Do(&l, first.c13Op)
		first.end = vsched.Tick()
		must(tricorder.RegisterMetric(x.Dir+"/l", l, units.None, ""))
		x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
		res := make([][]c13Done, len(progs))
		var bodies []func()
		for ti, p := range progs {
			ti, p := ti, p
			bodies = append(bodies, func() {
				for _, o := range p {
					r := c13Done{c13Op: o}
					x.Log("%v starts", o)
					r.start = x.clock()
					if o.read != "" {
						r.vals, r.ts, r.err = readList(o.read, x.Dir, "l")
						r.end = x.clock()
					} else {
						c13Do(&l, o)
						r.end = x.clock()
					}
					x.Log("%v ends: %v %s %v", o, r.vals, r.ts, r.err)
					res[ti] = append(res[ti], r)
				}
			})
		}
		return bodies, func() {
			var ops []c13Done
			for _, rs := range res {
				ops = append(ops, rs...)
			}
			last := c13Done{c13Op: c13Op{read: "inproc"}, start: vsched.Tick()}
			last.vals, last.ts, last.err = readList("inproc", x.Dir, "l")
			last.end = vsched.Tick()
			ops = append(ops, last)
			desc := ""
			for i := range ops {
				if ops[i].err != nil {
					x.Failf("read", "%v: %v", ops[i].c13Op, ops[i].err)
					return
				}
				for j := range ops {
					if i != j && ops[j].end < ops[i].start {
						ops[i].before = append(ops[i].before, j)
					}
				}
				desc += fmt.Sprint(ops[i].c13Op, " ", ops[i].vals, ops[i].before, "; ")
			}
			x.Outcome("%s", desc)
			used := make([]bool, len(ops))
			var rec func(cur c13Done, left int) bool
			rec = func(cur c13Done, left int) bool {
				if left == 0 {
					return true
				}
			next:
				for i := range ops {
					if used[i] {
						continue
					}
					for _, j := range ops[i].before {
						if !used[j] {
							continue next
						}
					}
					o := ops[i]
					c := cur
					if o.read == "" {
						c = o
					} else {
						if fmt.Sprint(o.vals) != fmt.Sprint(c13Slice(cur.n)) {
							continue
						}
						if o.ts != "" && (o.ts < tsString(clockAt(cur.start)) || o.ts > tsString(clockAt(cur.end))) {
							continue
						}
					}
					used[i] = true
					ok := rec(c, left-1)
					used[i] = false
					if ok {
						return true
					}
				}
				return false
			}
			if !rec(first, len(ops)) {
				for i := range ops {
					desc += fmt.Sprintf("\n%v [%d,%d] %v %s", ops[i].c13Op, ops[i].start, ops[i].end, ops[i].vals, ops[i].ts)
				}
				x.Failf("not-linearizable", "no order of the operations explains (initially [2 2]): %s", desc)
			}
		}
	}}
}

func c13Scens(tier string) []Scen {
	thorough := tier == "thorough"
	ch := func(n int64, mode string) c13Op { return c13Op{n: n, mode: mode} }
	modes := []string{"imm", "mut", "int"}
	var out []Scen
	for _, m := range modes {
		for _, k := range listKinds {
			out = append(out, c13Scen(unbounded, false, []c13Op{ch(3, m)}, []c13Op{{read: k}}))
			out = append(out, c13Scen(unbounded, false, []c13Op{ch(3, m)}, []c13Op{{read: k}, {read: "inproc"}}))
			for _, m2 := range modes {
				out = append(out, c13Scen(unbounded, false, []c13Op{ch(3, m), ch(1, m2)}, []c13Op{{read: k}}))
				if m <= m2 {
					b := 2
					if thorough {
						b = 4
					}
					out = append(out, c13Scen(b, true, []c13Op{ch(3, m)}, []c13Op{ch(1, m2)}, []c13Op{{read: k}}))
				}
			}
			out = append(out, c13Scen(unbounded, false, []c13Op{ch(2, m), {read: "inproc"}}, []c13Op{{read: k}}))
		}
		for _, m2 := range modes {
			out = append(out, c13Scen(unbounded, false, []c13Op{ch(3, m)}, []c13Op{ch(1, m2)}))
			out = append(out, c13Scen(unbounded, false, []c13Op{ch(3, m), {read: "inproc"}}, []c13Op{ch(1, m2)}))
			out = append(out, c13Scen(unbounded, false, []c13Op{ch(3, m), {read: "inproc"}}, []c13Op{ch(3, m2), {read: "inproc"}}))
		}
	}
	// the same length: in place changes would show
	for _, k := range listKinds {
		b := 3
		if thorough {
			b = 6
		}
		out = append(out, c13Scen(unbounded, false, []c13Op{ch(3, "imm"), ch(2, "imm"), ch(2, "mut")}, []c13Op{{read: k}}))
		out = append(out, c13Scen(b, true, []c13Op{ch(3, "imm")}, []c13Op{{read: k}}, []c13Op{{read: "inproc"}}))
		if k != "inproc" {
			out = append(out, c13Scen(b, true, []c13Op{ch(3, "imm")}, []c13Op{{read: k}}, []c13Op{{read: k}}))
		}
		out = append(out, c13Scen(unbounded, false, []c13Op{{read: k}}, []c13Op{ch(2, "imm"), ch(3, "mut"), {read: k}}))
	}
	return out
}

func init() {
	define(&Def{ID: "C13", Inst: true, Scens: c13Scens,
		Rule: "all schedules of two-thread programs of up to four changes and reads of one real list, through every access path, and all schedules up to the bound of three-thread programs; slices given as mutable are overwritten by their owner afterwards; every history is matched against all orders of the operations, timestamps included; happens-before race detection"})
}
